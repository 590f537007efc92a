"""numeric literals: value and type"""
import random
import core, equiv, orc
from equiv import T
from orc import P
LEVEL = 'other'

GEN = '_Generic((L), int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, float: 7, double: 8, long double: 9)'
POST = '\nchar t = %s;\nunsigned long v = (unsigned long)(L);\n' % GEN
POSTF = '\nchar t = %s;\ndouble d = L; float f = L;\nunion { long double x; struct { long a; unsigned short b; } s; } u = { L };\n' % GEN
# the bytes of a long double are read back through labels
POSTF = '\nchar t = %s;\ndouble d = L;\nfloat f = L;\nlong double x = L;\n' % GEN
D, H = '0123456789', '0123456789abcdefABCDEF'
HD = '0123456789abcdfABCDF'    # without e, which the tokenizer tells apart (1e+1): that only multiplies the paths
SUF = 'uUlL'
ANY = 'abefxpulABEFXPULz_'
FLT = '0179.eE+-pPxXfFlL'


def tests_(thorough):
    ts = []
    rnd = random.Random(core.SEED + 4)
    def i(name, first, alpha, **kw): ts.append(P(name, '#define L ' + first, alpha, POST, mode=0, lead=len(first), flags=('-std=c23',), timeout=kw.pop('timeout', 100 if thorough else 25), **kw))
    def f(name, first, alpha, **kw): ts.append(P(name, '#define L ' + first, alpha, POSTF, mode=1, lead=len(first), flags=('-std=c23',), timeout=kw.pop('timeout', 100 if thorough else 25), **kw))
    ALL = ''.join(sorted(set('01789' + SUF + ANY + "'.")))
    n = 3 if not thorough else 4
    i('any3', '', [D] + [ALL] * (2 if not thorough else 3))
    i('zero', '0', [ALL] * (2 if not thorough else 3))
    i('hexany', '0x', [ALL] * (2 if not thorough else 3))
    i('binany', '0b1', [ALL] * (2 if not thorough else 3))
    # long digit strings, with boundaries of the types inside
    for k in ((8, 9, 16, 17) if not thorough else (7, 8, 9, 12, 15, 16, 17, 18)):
        for s in ('', 'u', 'll') if not thorough else ('', 'u', 'l', 'ul', 'll', 'ull'):
            for j in range(2 if not thorough else 5):
                # digits and letters take different paths: most positions are one or the other
                al = [rnd.choice([D, 'abcdf', 'ABCDF']) for _ in range(k)]
                if j == 0: al[0] = D
                if j == 1: al[0] = 'abcdf'
                al[rnd.randrange(k)] = H[:16]; al[-1] = HD[:15]
                i('hex%d%s_%d' % (k, s, j), rnd.choice(['0x', '0X']), al + list(s))
    for k in (10, 19, 20) if not thorough else (9, 10, 11, 18, 19, 20, 21):
        # leading digits fixed near the boundaries
        for lead in {10: ['21474836', '42949672'], 19: ['92233720368547758'], 20: ['184467440737095516', '92233720368547758']}.get(k, ['1' * (k - 2)]):
            for s in ('', 'u', 'l', 'ul', 'll', 'ull'): i('dec%d_%s_%s' % (k, lead[:4], s), lead, [D] * (k - len(lead)) + list(s))
    for lead, k in (('0177777777', 2), ('0377777777', 2), ('07777777777777777777', 3), ('01777777777777777777', 3)):
        for s in ('', 'u', 'l', 'll'): i('oct%s%s' % (len(lead), s) + lead[1], lead, ['01234567'] * k + list(s))
    for s in ('', 'u', 'l', 'ull'): i('bin32' + s, '0b', ['01'] * 32 + list(s))
    def bits(n, free):
        fr = set(rnd.sample(range(1, n), free)) | {0} if free < n else range(n)
        return ['01' if x in fr else rnd.choice('01') for x in range(n)]
    for s in ('', 'u', 'l', 'ull'): i('bin64' + s, '0b', bits(64, 20 if not thorough else 40) + list(s))
    i('bin65', '0b', bits(65, 16 if not thorough else 30)); i('bin33', '0B', bits(33, 20 if not thorough else 33))
    # suffixes and separators
    i('suf', '12', ['uUlLfz'] * 3); i('sufh', '0xfffffff', ['fF0'] + ['uUlL'] * 3)
    i('suf4', '3', ['uUlL'] * 4)
    i('sep1', '1', ["'0", "'0", "'0uU", "'1"]); i('sep2', '0x', ["'fg", "'a", "'0u", "'1l"]); i('sep3', '0b', ["'1", "'0", "'1", "'u"]); i('sep4', '0', ["'7", "'08", "'x1", "'2"])
    # floating literals: all short strings
    f('flt2', '1', ['.eExX05fFlLpP'] * 3); f('flt3', '2.', ['05eE+-fFlLpP'] * 3); f('fltd', '.', [D] + ['0eEfFlL'] * 3)
    f('flte', '1e', ['+-0'] + ['037'] + ['0fFlL.']); f('flthex', '0x', ['1aF.'] + ['.8p'] + ['p+1'] + ['0fl'])
    f('flthexp', '0x1.8p', ['+-3'] + ['015f'] + ['0fFlL']); f('fltz', '0', ['9.'] + ['8e.'] + ['15f.']); f('fltsep', '1', ["'0."] + ["'0.5"] + ["'.5e"] + ["'1f"])
    return ts


def run(ck, thorough):
    b = core.Build()
    ts = tests_(thorough)
    ck.bounds = ['every literal text of the stated shapes: all strings of up to 3 (thorough 4) characters over digits, letters, dot and quote; hexadecimal literals of 8-18 digits, decimal ones around 2^31, 2^32, 2^63, 2^64, octal and binary ones of 32-65 digits, each with every suffix; short floating literals (strtold is the C library\'s)']
    ck.assume = ['oracle: the grammar and type table of C23 6.4.4 written independently in oracle/c04.c', 'decimal literals without suffix that fit no signed type: nothing is claimed']
    orc.run_all(ck, b, 'c04', ts, each=130 if thorough else 40, total=600 if not thorough else 3000)
