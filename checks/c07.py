"""macro expansion"""
import random
import core, orc
from orc import P
LEVEL = 'other'

BASE = '#define F(a) a F(a) <a>\n#define G(a,b) a##b a b\n#define O x F\n#define S(a) #a\n#define X(a) S(a)\n#define V(a,...) [a|__VA_ARGS__|__VA_OPT__(o a)]\n#define E\n#define P(x) x\n#define N() n\n'
# name, text before, alphabets, text after
FAM = [
    # definitions
    ('body', '#define M(a,b) ', ['ab#x ', 'ab#x ', 'ab#x '], '\nM(1,2) M(,x) M(x,)\n'),
    ('body2', '#define M(a,b) a', ['#ab,(', '#ab)x', 'ab#x)'], 'b\n#define ab 7\n#define a 8\nM(1,2) M(a,b) M(,)\n'),
    ('body3', '#define M(a,b) a#', ['#a', 'ab#x', 'ab#x'], '\nM(1,2) M(-,=) M(L,"s") M(,)\n'),
    ('obj', '#define M ', ['MNxab', '#(M ', 'MN#)'], '\n#define N M\nM N\n'),
    ('self', '#define M(a) ', ['MNa', '(aM', 'aM)', ')a ('], ')\n#define N(a) M(a)\nM(1) N(2) M(M)(3) N(N)(4) M(M(5))\n'),
    ('self2', '#define f(x) x ', ['fgxh', '(x', 'fgx)', ')x'], '\n#define g f\n#define h(a) f(g)(a)\nf(1) g(2) h(3) f(f)(4) f(g)(5)\n'),
    ('params', '#define M', ['( ab', 'ab,).', 'ab,).', ') ab'], ' a b\nM(1,2) M(1) M()\n'),
    ('undef', '#define a 1\n#define b 2\n#undef ', ['abc'], '\na b c\n#define ', ['abc'], ' 3\na b c\n'),
    ('va', '#define M(a,...) ', ['ab#_', 'a#,', 'a,b'], ' __VA_ARGS__ #__VA_ARGS__\nM(1) M(1,2) M(1,2,3) M() M(,)\n'),
    ('va1', '#define M(...) ', ['#x ', 'x,#'], '__VA_ARGS__ x\nM(1) M(1,2) M(1, 2 ,3) M() M(,) M((1,2)) M(O,P(O))\n'),
    ('va2', '#define M(a,...) a ## ', ['a_x', '_#xV', '_#ax'], 'VA_ARGS__ ;\nM(1) M(1,2) M(1,2,3) M() M(,) M(a,M)\n'),
    ('vaopt', '#define M(a,...) a', ['# ,', ' a'], '__VA_OPT__(', ['a#x', '#a,', 'ax)'], ')', ['# '], 'a\nM(1) M(1,2) M(,) M(2,E) M(3, )\n'),
    ('vaopt2', '#define M(a,...) __VA_OPT__(', ['ax#', 'a#,', '#ax'], ') ; x __VA_OPT__(a ## a __VA_ARGS__ #a) z\nM(1) M(1,2) M(,) M(2,E) M(3, )\n'),
    # invocations
    ('call', 'F', ['(xFE', '(xF)', 'F,x)', ')xF('], ' ;F(1)\n'),
    ('callg', 'G(', ['xGE,', '(,xF', 'x,)F'], ',) ; G(,)\n'),
    ('callg2', 'G(', ['OEFx', ',(', 'OEFx('], ') ;\n'),
    ('calln', 'N', ['( E\n', ') E\n', '( )x'], ' N() ;\n'),
    ('callp', 'P(', ['PFN(', '()PF', '(P)x', ')(PN'], ')(1)(2);\n'),
    ('callp2', 'P(P', [')(,', '()P', '(P)', ')P('], '(1))(2);\n'),
    ('callv', 'V(', ['x,E(', ',x(E', 'x,)E', ',x)E'], ');\n'),
    ('nest', 'F(G(', ['FGPx', ',(', 'FxE', ',)'], '1)) P(2) ;\n'),
    ('obj2', 'O', ['( (E', 'OFE)', ')(x,'], 'x) ; O(1) O O(2)\n'),
    ('lines', 'F\n', ['(\nx', 'x\n(', 'x\n)', ')\nF'], '\nF\n(\n1\n)\n', ),
    # stringizing: white space and escapes
    ('str', 'S(', ['a"\\ ', '"\'\\a', '\\"a '], '"'' ) ;\n'),
    ('str2', 'S( "', ['a\\ \n', 'n\\"', '"\\ '], '" ) ;\n'),
    ('str3', "S('", ['a\\" ', '\'\\"', "'\\ "], "') ;\n"),
    ('str4', 'S(', [' a\t\n', ' \t+\n', ' a\v\n', ' b\t'], ') X( ', [' E'], ' + E ) ;\n'),
    ('str5', 'S(L', ['"\'ux', 'a\\"', '"\\a'], '") ; S(@ ) ;\n'),
    ('str6', 'X(', ['FEOS', '( ,', 'ax)', ')(  '], 'z) ;\n'),
    ('str7', '#define M(a) #a a\nM(', [' a"', '/ a', '*/ ', '* a', '/ a'], ') ;\n'),
    # pasting
    ('paste', 'G(', ['+-<>', '+-=>'], ',', ['+-=>', '+-=>'], ') ;\n'),
    ('paste2', '#define J(a,b,c) a##b##c\nJ(', ['.0xLE'], ',', ['.1x"u'], ',', ['.e+x'], ') ;\n'),
    ('paste3', '#define J(a,b,c) a##b##c\nJ(', ['<>.%&'], ',', ['<>.=&'], ',', ['=.<>&'], ') ;\n'),
    ('paste4', '#define J(a,b) x a##b##a y\n#define K(a,b) J(a b,b a)\nK(', ['xyE12'], ',', ['xyE12'], ') J(,) J(', ['x1+'], ',) J(,', ['x1+'], ') ;\n'),
    ('hashhash', '#define H # ## #\n#define MK(a) #a\n#define IN(a) MK(a)\n#define J(c,d) IN(c H d)\nJ(x,', ['yJH#'], ') MK(H) ;\n'),
    ('std', '#define x 3\n#define f(a) f(x * (a))\n#undef x\n#define x 2\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n#define p() int\n#define q(x) x\n#define r(x,y) x ## y\n#define str(x) # x\n', ['fgmtpqr', '(', 'fgxzthw', '(,)+', 'xfz1w'], ')+t(t(g)(0)+t)(1);\n'),
    ('std2', '#define x 3\n#define f(a) f(x * (a))\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n', ['gfhtm', '(', 'fgtm', '(x)', 'hw)'], ')(2)) (m\n(f)^m(', ['fm'], '));\n'),
    ('chain', '#define a b c\n#define b c a\n#define c(x) a x b\n', ['abc', 'abc(', 'abc(', 'abc)'], ' (1) ;\n'),
    ('chain2', '#define a(x) b x\n#define b(x) c x\n#define c a\n', ['abc', '(', 'abc()', '()abc', ')('], ')(', ['abc'], ')(1) ;\n'),
    ('nl', '#define X', ['\n '], '(y) z\nX(1)\n'),
    ('nl2', '#define X(a', ['\n )'], ') a\nX(1)\n'),
]


def tests_(thorough):
    ts = []
    for f in FAM:
        name, rest = f[0], f[1:]
        pre, alpha, post = rest[0], [], ''
        # symbolic bytes separated by fixed text: the fixed text is a byte set of one value
        for k in range(1, len(rest)):
            if isinstance(rest[k], list): alpha += rest[k]
            elif any(isinstance(x, list) for x in rest[k + 1:]): alpha += list(rest[k])
            else: post = rest[k]
        uses = BASE if name not in ('body', 'body2', 'body3', 'obj', 'self', 'self2', 'params', 'undef', 'std', 'std2', 'chain', 'chain2', 'nl', 'nl2', 'hashhash', 'paste2', 'paste3', 'paste4', 'str7') else ''
        ts.append(P(name, uses + pre, alpha, post, act='-E', flags=['-P'], timeout=60 if not thorough else 400, post_check=True))
        if thorough: ts.append(P(name + '_t', uses + pre, [a if len(a) == 1 else ''.join(sorted(set(a + 'xFE(,)# '))) for a in alpha], post, act='-E', flags=['-P'], timeout=800, maxpaths=200000, post_check=True))
    return ts


def run(ck, thorough):
    b = core.Build()
    b.asan()
    ts = tests_(thorough)
    ck.bounds = ['%d families of macro definitions and invocations with 1-7 symbolic bytes: replacement lists, parameter lists, arguments, nested and self-referential invocations, # and ##, __VA_ARGS__ and __VA_OPT__, invocations across lines, #undef' % len(ts)]
    ck.assume = ['oracle/pp.h, a lexer and macro expander written from the C standard (hide sets), is executed symbolically on the same bytes; afterwards it splits the -E output into tokens and compares them one by one', 'undefined, unspecified and GNU-specific cases (invalid pastes, 6.10.4.4p4, ", ## __VA_ARGS__", digraphs, duplicate parameters) are not claimed']
    orc.run_all(ck, b, 'c07', ts, each=100 if not thorough else 900, total=600 if not thorough else 3000)
