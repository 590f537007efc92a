"""dependency rules of the -M family, read back the way GNU make reads them"""
import re
import core, orc
from orc import P
LEVEL = 'other'
ORACLE = 'c24'

HDR = {'a.h': '#define A 1\n', 'b.h': '#include "a.h"\n#include "d/c.h"\n', 'd/c.h': '#ifndef C\n#define C\n#include "e.h"\n#endif\n', 'd/e.h': 'int e;\n', 'e.h': 'int e2;\n',
       'inc/u.h': 'int u;\n#include <s.h>\n', 'inc/a.h': 'int wrong;\n', 'sys/s.h': '#include "t.h"\n#include <t.h>\n', 'sys/t.h': 'int t;\n', 'sys/g.h': '#include "a.h"\nint g;\n', 'sys/a.h': 'int sa;\n', 'sys/x.h': '#include <v.h>\n', 'inc/v.h': 'int v;\n', 'once.h': '#define O 1\n'}
OUT = '/w/out.d'
SP = ' \t$#\\a'
I = ['-I', '/w/inc', '-isystem', '/w/sys']
SRC = '#include "a.h"\n#include "b.h"\n#include <u.h>\n#include <t.h>\n'


def any_files(args, src):
    """files whose names hold symbolic bytes"""
    r = {}
    for a in args:
        if a.endswith(b'.c') and b'/' in a and not a.endswith(b'/in.c'): r[a[a.rindex(b'/') + 1:]] = 'int any;\n'
    for m in re.finditer(rb'#include "([^"\n]*x\.h)"', src): r[m.group(1)] = 'int any;\n'
    return r


ANY = {'vfs_any': {'prefix': '/w/', 'data': 'int any;\n'}, 'any_files': any_files}
FAM = [   # name, source pieces, arguments
    ('opt1', (SRC, [], ''), [('-M', ['\0MDP', '\0D'], ''), ('-M', ['\0MDP', '\0D'], ''), ('-', ['Mw'], ''), '-MF', OUT, '/w/in.c'], {}),
    ('opt2', (SRC, [], ''), [('-', ['Mw'], 'MD'), ('-M', ['PD'], ''), '-MF', OUT, '-S', '-o', '/w/o.s', '/w/in.c'], {}),
    ('opt3', (SRC, [], ''), I + [('-M', ['MP\0', 'D\0'], ''), ('-M', ['PMD'], ''), '-MF', OUT, '-S', '-o', '/w/o.s', '/w/in.c'], {}),
    ('opt4', (SRC, [], ''), I + [('-M', ['M\0'], ''), ('-M', ['PMT'], ''), ('-w', [], ''), '-o', OUT, '/w/in.c'], {}),
    ('opt5', ('#include "a.h"\nint x;\n', [], ''), ['-MP', ('-M', ['QT'], ''), ('', ['a$ '], 'b'), ('-M', ['TQ'], ''), ('c', [' $#'], ''), '-MD', '-MF', OUT, '-E', '-o', '/w/o.i', '/w/in.c'], {}),
    ('mt', ('#include "a.h"\n', [], ''), ['-M', ('-MT', [], ''), ('o', [SP, SP, SP], 'x'), '-o', OUT, '/w/in.c'], {}),
    ('mq', ('#include "a.h"\n', [], ''), ['-M', '-MQ', ('', [SP, SP, SP, SP], 'x'), '-o', OUT, '/w/in.c'], {}),
    ('mq2', ('', [], ''), ['-MM', '-MQ', ('a', [' \\$', '\\ #', ' \\#'], 'x'), '-MT', ('b', [' \\$', '$b'], ''), '-MQ', ('', ['$# '], 'c'), '-MF', OUT, '/w/in.c'], {}),
    ('mqany', ('', [], ''), ['-M', '-MQ', ('x', [bytes(b for b in range(33, 127) if b not in b':%;=~*?[]|&')], 'y'), '-o', OUT, '/w/in.c'], {}),
    ('which', ('#include "', 'abx', '.h"\n#include "', 'abd', '/.h', 'h"c', '."\n', 'h ', '"\n', '\nint y;\n'), I + ['-M', '-MP', '-o', OUT, '/w/in.c'], {}),
    ('which2', ('#include ', '"<', 'aus', '.h', '">', '\n#include ', '"<', 'teu', '.h', '">', '\n'), I + ['-MM', '-MP', '-o', OUT, '/w/in.c'], {}),
    ('cond', ('#define V 2\n#if V == ', '123', '\n#include "a.h"\n#endif\n#if ', '123', ' == V\n#include "b.h"\n#endif\n#if 1 == ', '12', '\n#include <g.h>\n#endif\n'), I + ['-M', '-MP', '-MF', OUT, '/w/in.c'], {}),
    ('again', ('#include "once.h"\n#include "', 'ao', '.n', 'hc', '"e', '\n.', '\nh', '"\n', '\n#include "a.h"\n#include "d/c.h"\n'), ['-M', '-MP', '-MF', OUT, '/w/in.c'], {}),
    ('line', ('#line 5 "', '/a', 'wn', '/\\', 'ab', '.h"\n#include "a.h"\n'), ['-M', '-MP', '-MF', OUT, '/w/in.c'], {}),
    ('sysuser', ('#include <', 'gu', '.h>\n#include "', 'sa', 'y.', 's/', '/hg', '"gt', '\n.', '\nh', '"\n', '\n'), I + [('-M', ['M\0'], ''), '-MP', '-MF', OUT, '/w/in.c'], {}),
    ('shared', ('#include <', 'xvs', '.h>\n#include <', 'xvs', '.h>\n'), I + [('-M', ['M\0'], ''), '-MP', '-MF', OUT, '/w/in.c'], {}),
    ('usersys', ('#include "sys/', 'gst', '.h"\n#include <', 'sgt', '.h>\n'), I + ['-MM', '-MP', '-MF', OUT, '/w/in.c'], {}),
    ('inname', ('', [], ''), ['-M', '-MP', '-o', OUT, ('/w/', [SP, SP, SP], 'x.c')], ANY),
    ('inname2', ('', [], ''), ['-M', '-o', OUT, ('/w/a', [bytes(b for b in range(33, 127) if b not in b':%;=~*?[]|&/')], 'x.c')], ANY),
    ('inname3', ('', [], ''), ['-M', '-o', OUT, ('/w/a', ['.ab', '.c', '.d'], '.c')], ANY),
    ('hname', ('#include "', [SP, SP, SP], 'x.h"\n'), ['-M', '-MP', '-o', OUT, '/w/in.c'], ANY),
    ('hname2', ('#include "', [' $#', '\\ a', '# $', ' $a'], 'x.h"\n#include "a.h"\n'), ['-MM', '-MP', '-MF', OUT, '/w/in.c'], ANY),
    ('hnameany', ('#include "a', [bytes(b for b in range(33, 127) if b not in b':%;=~*?[]|&"\\/')], 'x.h"\n'), ['-M', '-MP', '-MF', OUT, '/w/in.c'], ANY),
]


def tests_(thorough):
    ts = []
    for name, src, args, cfg in FAM:
        if isinstance(src[1], list): pre, alpha, post = src[0], list(src[1]), src[2]
        else: pre, alpha, post = src[0], [], src[-1]; alpha = None
        if alpha is None:      # alternating text and sets; a set of two or more one-character choices follows every text
            alpha = []; k = 1; mid = list(src[1:-1])
            for x in mid:
                if len(x) <= 3 and len(set(x)) == len(x) and len(x) > 1 and not x.startswith(('.h', '#')): alpha.append(x)
                else: alpha += list(x)
        def add(nm): ts.append(P(nm, pre, alpha, post, mode=0, timeout=60 if not thorough else 500, maxpaths=20000 if not thorough else 300000, post_check=True, files=HDR, cfg=cfg, sargs=args, out=OUT, act='', assume=()))
        add(name)
    return ts


def run(ck, thorough):
    b = core.Build()
    b.asan()
    ts = tests_(thorough)
    ck.bounds = ['%d families: up to 4 symbolic characters in -MT/-MQ arguments, in the input file name and in header names (blank, tab, $, #, backslash and every other printable character but ":%%;=~*?[]|&"); symbolic choice of -M, -MM, -MD, -MMD, -MP, -MT, -MQ; symbolic choice of the headers that are included, twice, nested, conditionally, from -I and -isystem directories' % len(ts)]
    ck.assume = ['the reference (oracle/c24.c, oracle/pp.h) follows the includes, reads the rules as GNU make does (continued lines, $$, backslashes before blanks and #) and compares names', 'the default name of the dependency file, mixtures of -M with -MD and of -M with -MM, #embed and names ending in a backslash are not claimed']
    orc.run_all(ck, b, 'c24', ts, each=100 if not thorough else 700, total=600 if not thorough else 3000)
