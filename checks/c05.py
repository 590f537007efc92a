"""character constants and string literals"""
import random
import core, orc
from orc import P
LEVEL = 'other'

GENS = '_Generic(&(L)[0], char *: 1, const char *: 1, unsigned char *: 2, unsigned short *: 3, unsigned *: 4, int *: 5)'
GENC = '_Generic((L), char: 1, unsigned char: 2, unsigned short: 3, unsigned: 4, int: 5)'
TY = {'': 'char', 'u8': 'unsigned char', 'u': 'unsigned short', 'U': 'unsigned', 'L': 'int'}
ALL = bytes(x for x in range(1, 256) if x not in (10, 13))
OCT, HEX = '01234567', '0123456789abcdefABCDEF'
ESC = b'abtnvfre\'"?\\x0187uUq'


def tests_(thorough):
    ts = []
    rnd = random.Random(core.SEED + 5)
    def s(name, pfx, alpha, pre=None, post='"', mode=0, flags=(), tail=None):
        pre = (pfx + '"') if pre is None else pre
        lead = len(pre.encode('utf-8'))
        c23 = rnd.random() < .5
        src = '#define L ' if tail is None else ''
        post2 = post + '\n%s s[] = L;\nlong n = sizeof(L);\nchar t = %s;\n' % (TY[pfx], GENS)
        ts.append(P(name, (src + pre).encode('utf-8'), alpha, post2.encode('utf-8'), mode=mode | {'': 0, 'u8': 1, 'u': 2, 'U': 4, 'L': 5}[pfx] << 4 | (8 if c23 else 0), lead=lead, flags=(('-std=c23',) if c23 else ()) + tuple(flags), timeout=25 if not thorough else 100, trail=len(post.encode("utf-8"))))
    def c(name, pfx, alpha, pre='', post="'", mode=1):
        p = pfx + "'" + pre
        ts.append(P(name, 'L;\n#define L '.replace('L;\n', '') + p, alpha, post + '\nlong v = L;\nchar t = %s;\n' % GENC, mode=mode, lead=len(p), flags=('-std=c23',), timeout=25 if not thorough else 100, trail=len(post.encode("utf-8"))))
    for pfx in TY:
        s('any%s' % pfx, pfx, [ALL] * (2 if not thorough else 3))
        s('anyx%s' % pfx, pfx, [ALL, ESC, b'019afFx"\\ '], post='z"')
        s('esc%s' % pfx, pfx, ['\\', ALL, b'019aF"\\', b'078fG "'], post='9"')
        s('oct%s' % pfx, pfx, ['\\', OCT, '01789"', '0178"a', '018"'])
        s('hex%s' % pfx, pfx, ['\\', 'x', HEX + '"g', HEX[:20] + 'g"', '0aF"g'])
        s('utf2%s' % pfx, pfx, [range(0xc0, 0xe0), range(0x80, 0xc0)], post='a"')
        s('utf3%s' % pfx, pfx, [range(0xe0, 0xf0), range(0x80, 0xc0), range(0x80, 0xc0)], post='a"')
        s('utf4%s' % pfx, pfx, [range(0xf0, 0xf5), range(0x80, 0xc0), range(0x80, 0xc0), range(0x80, 0xc0)], post='a"')
        s('utfx%s' % pfx, pfx, [range(0x7e, 0x100), range(0x7e, 0x100), range(0x7e, 0x100)], post='abc"')
        s('pair%s' % pfx, pfx, [range(0xc2, 0xe0), range(0x80, 0xc0), range(0xe1, 0xed), range(0x80, 0xc0), range(0x80, 0xc0)], post='"')
        s('ucn4%s' % pfx, pfx, ['\\', 'u', '0178abcdEF', '0179aAfF', HEX, HEX], mode=2, flags=('-fenable-universal-char',), post='1"')
        s('ucn8%s' % pfx, pfx, ['\\', 'U', '0', '0', '01', '0178abcdEF', '07', '079afF', HEX[:16], '08'], mode=2, flags=('-fenable-universal-char',), post='1"')
        s('ucnb%s' % pfx, pfx, ['\\\\"a', '\\u', 'u\\', '0', '1', '2\\', '34'], mode=2, flags=('-fenable-universal-char',))
        # adjacent literals; the prefix of one applies to all
        for a, b in (('', pfx), (pfx, ''), (pfx, pfx)):
            s('cat%s_%s_%s' % (pfx, a, b), pfx, [ALL], pre='%s"\\1" %s"' % (a, b), post='1" "\\x1" "g"')
            s('cat8%s_%s_%s' % (pfx, a, b), pfx, [range(0xc2, 0x100), range(0x80, 0xc0), range(0x80, 0xc0)], pre='%s"\xe9" %s"' % (a, b), post='\U0001f600" "\u20ac"')
        s('cate%s' % pfx, pfx, ['\\', '0123x'] + ['17ab"'] * 2, pre='%s"' % pfx, post='" "1"')
        c('c%s' % pfx, pfx, [bytes(range(1, 256))])
        c('c2%s' % pfx, pfx, [bytes(range(1, 256)), bytes(range(1, 256))])
        c('ce%s' % pfx, pfx, ['\\', bytes(range(1, 256))])
        c('ce3%s' % pfx, pfx, ['\\', '0147x\\\'', '0178af\'', '0178fg\''])
        c('cx%s' % pfx, pfx, ['\\', 'x', HEX, HEX])
        c('cx4%s' % pfx, pfx, ['\\', 'x', HEX[:16], '08fF', '0a', HEX])
        c('cx8%s' % pfx, pfx, ['\\', 'x', '0178f', '0f', '0', '0', '0', '1', HEX[:16], '08'])
        c('co%s' % pfx, pfx, ['\\', OCT, OCT, OCT])
        c('cu2%s' % pfx, pfx, [range(0xc0, 0xe0), range(0x80, 0xc0)])
        c('cu3%s' % pfx, pfx, [range(0xe0, 0xf0), range(0x80, 0xc0), range(0x80, 0xc0)])
        c('cu4%s' % pfx, pfx, [range(0xf0, 0xf5), range(0x80, 0xc0), range(0x80, 0xc0), range(0x80, 0xc0)])
    return ts


def run(ck, thorough):
    b = core.Build()
    ts = tests_(thorough)
    ck.bounds = ['string literals of every prefix with up to %d symbolic bytes: any bytes, every escape, octal and hexadecimal escapes of up to 4 digits, UTF-8 sequences of 2-4 bytes, universal character names, adjacent literals of mixed prefixes' % (5 if thorough else 5), 'character constants of every prefix with up to 4 symbolic bytes']
    ck.assume = ['oracle: decoder and encoder written independently in oracle/c05.c', 'nothing is claimed for malformed UTF-8, unknown escapes, escapes out of range of the element type, multi-character constants, universal names of surrogates or below A0']
    orc.run_all(ck, b, 'c05', ts, each=130 if thorough else 40, total=600 if not thorough else 3000)
