"""translation phases 1-3: splices, comments, literals, identifiers, preprocessing numbers, punctuators; -E round trip"""
import core, orc
from orc import P
LEVEL = 'other'
ORACLE = 'c07'

PUN = '+-<>=&|*/%^!.#~?:;,()[]{}'
ANYP = bytes([9, 10, 11, 12, 13]) + bytes(range(32, 127))
# the macros are never defined: the token sequence of -E must be that of the text
FAM = [
    ('p3', '', [PUN, PUN, '+-<>=&|./#:'], '\n'),
    ('p4', 'x', ['<>=-', '<>=-', '<>=-', '<>=-'], 'y\n'),
    ('p5', '', ['+-=', '+-=', '+-=', '+-=', '+-='], '\n'),
    ('p6', '', ['.1', '.1e', '.1+', '.1-', '.'], '\n'),
    ('p7', 'a ', ['&|^!', '&|=', '&|='], ' b\n'),
    ('w', 'a', [' \t\n\v\f\r', ' \t\n\v\f\r/', 'b+"1'], '\n'),
    ('any2', 'x ', [ANYP, 'aL1.+"\'/\\\n #'], ' y\n'),
    ('any2b', 'x', ['aL1.+"\'/\\\n #', ANYP], ' y"\n'),
    ('spl', 'a', ['\\b', '\n\\ ', '\\\nc', '\nd'], 'e f\n'),
    ('spl2', '+', ['\\', '\n\r', '\n+\\', '\n+'], '+ f\n'),
    ('spl3', '"a', ['\\', '\n"\\', 'n\n"', '"x'], '" z\n'),
    ('spl4', '/', ['\\/*', '\n/*', '/*x', '*/x'], '*/ z\n'),
    ('spl5', 'x /', ['\\', '\n', '/*', 'a*\n', '*\n/', '/a\n'], ' z */ w\n'),
    ('spl6', '#def', ['\\i', '\nn'], 'ine a b\n'),
    ('cmt', 'x /*', ['*/a', '*/a\n', '*/"', '*/\\'], '*/ y\n'),
    ('cmt2', 'x //', ['*/\\', '\n\\a', '\n"a', '\n/'], ' y\n z\n'),
    ('cmt3', 'x', ['/', '/*"', '/*"', '/*"', '*/"'], 'y" /**/\n'),
    ('cmt4', '"', ['/*"', '/*"', '*/"', '*/"'], '" /* " */ y\n'),
    ('cmt5', "'", ["/*'", "/*'", "*/'"], "' /* ' */ y\n"),
    ('cmt6', 'x/', ['/*', '*/', '*/', '/*'], '/**/ y\n'),
    ('str', '"', ['\\"a', '\\"a', '\\"n', '\\"a'], '" y\n'),
    ('str2', 'L', ['"\'a', '\\"a', '\\"\''], '" y\n'),
    ('str3', 'u8', ['"a', '"\\', '"a'], '" y\n'),
    ('str4', '', ['LuUa', 'L8"u', '"a', '"'], 'x" y\n'),
    ('chr', "'", ["\\'a", "\\'a", "\\'a", "'"], " y\n"),
    ('chr2', '', ["LuUa", "'8a", "a'", "'"], " y\n"),
    ('num', '0', ['x.1e', 'e+p.', 'p+-1', '+-.1'], '\n'),
    ('num2', '', ['.1', 'e.E1', '+-.P', '+-.eL', '+-1'], '\n'),
    ('num3', '1', ["'a1", "'a1e", "+'1", ], 'x\n'),
    ('num4', '1', ['eEpPxX', '+-', 'eE1+', '+-.'], '2\n'),
    ('id', '', ['a_Z', '0a_Z9', '9z_.', 'a+.'], ' b\n'),
    ('id2', 'x', ['1_.', 'u', '8U"', '"a'], 'b"\n'),
    ('dir', '\n', [' /', ' *#', ' #*', '/#'], 'define a b\na\n'),
    ('dir2', '#', [' \t', ' \t/', 'd*', 'e*'], 'efine a b\n/**/ a\n'),
    ('eof', 'a', ['\n ', '\nb', '\n ', '/\n', '/\n'], ''),
    ('eof2', 'a /', ['/*', 'x*\n', '/\n'], ''),
    ('eof3', '"a', ['"b', '\n"', '\n '], ''),
    ('cr', 'a', ['\r\n', '\r\n', 'b\n\r', '#'], ' \r\n#define b\rc b\r\n'),
    ('cr2', '#define a x', ['\\\r', '\r\n\\', '\r\n', 'y#'], ' z\ra\n'),
    ('glue', '#define P +\n#define M -\n#define D .\n#define A &\n#define X x\n#define N 1\n#define E(a) a\n', ['PMDAXN+', 'PMD ', '-+.&x1', ';'], '\n'),
    ('glue2', '#define E(a) a\n#define Z\nE(', ['+-./<>&|x1"L'], ')E(', ['+-./<>&|=x1"*:'], 'Z);\n'),
    ('glue3', '#define E(a) a\n#define Z\n', ['+-./<>&|x1"L#%'], 'Z ', ['EZ'], '(', ['+-./<>&|=x1*:#'], ')Z;\n'),
    ('glue4', '#define E(a) a\n', ['+-./<=x1'], 'E(', ['+-./<>&|=x1*:#'], ')', ['+-./<>&|=x1*:'], ';\n'),
    ('glue5', '#define e 1e\n#define Y x.\n#define d .\ne', ['+-.1 '], ' e', ['+-.dY '], '1 Y', ['dYe. '], '\n'),
    ('glue6', '#define L2 L\n#define S(x) #x\nL2', ['"S('], '("a', [')"'], ' u8', ['"S '], '(b)" \n'),
]


def tests_(thorough):
    ts = []
    for f in FAM:
        name, rest = f[0], f[1:]
        pre, alpha, post = rest[0], [], ''
        for k in range(1, len(rest)):
            if isinstance(rest[k], list): alpha += rest[k]
            elif any(isinstance(x, list) for x in rest[k + 1:]): alpha += list(rest[k])
            else: post = rest[k]
        def add(nm, al): ts.append(P(nm, pre, al, post, act='-E', flags=['-P'], timeout=60 if not thorough else 500, maxpaths=20000 if not thorough else 300000, post_check=True))
        add(name, alpha)
        if thorough: add(name + '_t', [a if len(a) == 1 else (bytes(sorted(set((a.encode() if isinstance(a, str) else a) + b'+."/\\\n a1')))) for a in alpha])
    return ts


def run(ck, thorough):
    b = core.Build()
    b.asan()
    ts = tests_(thorough)
    ck.bounds = ['%d families of texts with 2-6 symbolic bytes: all two-character and many longer texts over the punctuators, splices, comments, literals with escapes and prefixes, preprocessing numbers, identifiers, directives, the ends of lines and of the file, and macro results next to other tokens (-E)' % len(ts)]
    ck.assume = ['the reference lexer of oracle/pp.h is executed symbolically on the same bytes and on what -E writes, and compares the token sequences', 'undefined or implementation-specific cases (unterminated quotes, bytes above 127, digraphs, "$", "@" and "`", white space after a splicing backslash, files ending in a backslash, UCNs) are not claimed', '#line and other directives are left to C06, C07 and C27']
    orc.run_all(ck, b, 'c07', ts, each=100 if not thorough else 700, total=600 if not thorough else 3000)
