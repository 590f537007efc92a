"""__LINE__, __FILE__, #line: the presumed line and file of every token"""
import core, orc
from orc import P
LEVEL = 'other'
ORACLE = 'c07'

L = '__LINE__'
TAIL = ' %s;\n%s %s\n' % (L, L, '__FILE__')
FAM = [
    ('nl', '', ['\n ', '\n x', '\n /'], TAIL),
    ('nl2', 'a', ['\n\r', '\n\r', '\n\ra', '\n\r'], TAIL),
    ('cr', '', ['\r\n\\', '\n\r', '\r\n', '\n\r '], TAIL),
    ('spl', 'a ', ['\\ b', '\n ', '\\\n', '\n '], TAIL),
    ('spl1', 'a ' + L + ' ', ['\\b', '\n ', '\\x', '\n '], TAIL),
    ('spl2', '', ['\\ ', '\n\r', '\n\\', '\n ', '\n'], L + ' \\\n ' + L + TAIL),
    ('spl3', '"a', ['\\"', '\n"n', '"b'], '" ' + TAIL),
    ('spl4', 'x // ', ['\\a', '\na', '\\ \n', '\n'], ' \n' + TAIL),
    ('spl5', 'a/*', ['\\*\n', '\n/*', '\\\n*', '\n/'], '*/' + TAIL),
    ('spl6', 'ab', ['\\', '\n', 'c \\', '\nd'], 'e' + TAIL),
    ('cmt', 'x', ['/', '*/', '\n*', '\n*/', '*\n/'], '*/' + TAIL),
    ('cmt2', '/*', ['\n*', '*/\n', '/\n ', ' */'], '*/ ' + L + TAIL),
    ('cmt3', '/*', ['\n\r', '\n\r*', '\n\r', '*'], '/ ' + L + '/*' + '\n' + '*/' + TAIL),
    ('cmt4', L, ['/ \n', '/* ', '\n *', '\n*'], '\n/*\n*/' + TAIL),
    ('line', '#line ', '123456789', '0123456789', ' \n0', '\n' + TAIL),
    ('line0', '#line ', '0', '012', '0123789', '\n' + TAIL),
    ('line2', '\n\n#line 7', ['0123456789 ', '\n ', '\n '], '\n' + TAIL),
    ('line3', '#line 30 "', 'abc.', '/\\"c', 'x\\"', '"\n' + TAIL),
    ('line4', 'x' + L + '\n#', ' l', 'line'[0] + '1', '5 i', '5n ', '0e"', ' "f', '"f', '\n' + TAIL),
    ('line5', '# 40', ' \n0', ' "', 'f"', '"\n', '\n' + TAIL),
    ('line6', '#line 10', [' \\/', '\n*', '\n/ '], '\n' + TAIL),
    ('line7', '#line 10\n', ['\n ', '\\\n', '\n#'], ' \n#line 20 "k"\n' + L + '\n', ['\n ', 'x\n'], TAIL),
    ('line8', '#define N 12\n#define F "q.c"\n#line N', ['\n '], 'F', ['\n '], TAIL),
    ('line9', '\n#line __LINE__', ['0 \n', '\n0'], '\n' + TAIL + '#line __LINE__ "z"\n' + TAIL),
    ('line10', '#line 2147483', ['6 '], ['04 \n'], '\n' + TAIL),
    ('mac', '#define M __LINE__ __FILE__\n', ['M\n'], ['\nM '], 'M', ['\n '], 'M', TAIL),
    ('mac2', '#define F(a) a __LINE__\nF(', ['\n1'], '2) F(1', ['\n)'], ')\n' + TAIL),
    ('mac3', '#define F(a) a a\n', ['\n '], 'F(', [' \n'], L, [' \n'], ',' , '' + ')' + TAIL),
    ('mac4', '#define F(a,b) b #a\nF(', ['\n '], L, [',\n'], L, [')\n'], ')' + TAIL),
    ('mac5', '#define G(a) a\n#define H G(', [' \\'], '\n__LINE__)\n\nH', [' \n'], 'G(H)' + TAIL),
    ('mac6', '#define D ', ['\\1'], '\n ', ['\\2'], '\n ', ['\n3'], TAIL + 'D\n'),
    ('paste', '#define P(a,b) a##b\nP(', ['_1'], ['_2'], 'LI', [',N'], ['NE'], ['E_'], '__)' + TAIL),
    ('if', ['\n '], ['\n /'], ['\n*'], '\n', '#if __LINE__ == ', ['2345'], '\nyes\n#endif\n' + TAIL),
    ('if2', '#line 9\n', ['\n\\ '], ['\n '], '#if 10 == __LINE__', [' \\'], '\nyes ' + L + '\n#line 77\n#endif\n' + TAIL),
    ('inc', ['\n '], ['\n\\ '], ['\n '], '#include "h.h"', ['\n '], '\n' + TAIL),
    ('inc2', '#line 50', ['\n '], ['"\n'], ['f\n'], ['"\n'], '\n#include "h.h"\n' + TAIL),
    ('inc3', '#include "g', ['.h'], ['h.'], ['h"'], '"\n' + TAIL + '#include "h.h"\n' + TAIL),
    ('tok', 'a+', ['+\n'], ['+\n='], ['"\n1'], '"', ['\n"'], ' ' + L + '"' + TAIL),
    ('dir', '#', [' \n'], ['\\\n'], ['\nu'], 'ndef x\n' + TAIL),
    ('dir2', '#define x', [' \n'], ['\\\n'], ['\n1'], '\n' + TAIL + 'x' + TAIL),
    ('dir3', '#/*', ['\n*'], ['*/'], ['/\n'], '*/define x ' + L + '\n x' + TAIL),
]
HDR = {'h.h': 'h1 __LINE__ \\\n __FILE__\n\n__LINE__\n#line 90 "other"\n__LINE__ __FILE__\n', 'g.h': '/*\n*/__LINE__\n#include "h.h"\n__LINE__ __FILE__ /*\n*/\n__LINE__'}


def tests_(thorough):
    ts = []
    for f in FAM:
        parts = f[1:]
        segs = []          # strings and sets in sequence; every string between sets becomes one-value bytes
        flat = []
        for i, x in enumerate(parts):
            if isinstance(x, list): flat += [('s', y) for y in x]
            elif 0 < i < len(parts) - 1 and all(isinstance(y, str) for y in parts): flat.append(('s', x))
            else: flat.append(('t', x))
        k0 = next(i for i, x in enumerate(flat) if x[0] == 's'); k1 = max(i for i, x in enumerate(flat) if x[0] == 's')
        pre = ''.join(x[1] for x in flat[:k0]); post = ''.join(x[1] for x in flat[k1 + 1:])
        alpha = []
        for kind, x in flat[k0:k1 + 1]: alpha += [x] if kind == 's' else list(x)
        def add(nm, al): ts.append(P(nm, pre, al, post, mode=2, act='-E', flags=['-P'], timeout=60 if not thorough else 500, maxpaths=20000 if not thorough else 300000, post_check=True, files=HDR, cfg={'concrete_text': 1}))
        add(f[0], alpha)
        if thorough: add(f[0] + '_t', [a if len(a) == 1 else ''.join(sorted(set(a + '\n\\ /*\r'))) for a in alpha])
    return ts


def run(ck, thorough):
    b = core.Build()
    b.asan()
    ts = tests_(thorough)
    ck.bounds = ['%d families of texts with 2-7 symbolic bytes around __LINE__ and __FILE__: new-lines (LF, CR, CRLF), splices, comments, #line and GNU line markers with digits and names, macros and macro arguments, __LINE__ in #if, #include' % len(ts)]
    ck.assume = ['the reference preprocessor of oracle/pp.h counts the new-lines up to each token (C23 6.10.5) and is executed symbolically on the same bytes; its tokens are compared with those of -E -P', 'where the standard leaves the number open (tokens, macro invocations and directives spanning several lines) nothing is claimed']
    orc.run_all(ck, b, 'c07', ts, each=100 if not thorough else 700, total=600 if not thorough else 3000)
