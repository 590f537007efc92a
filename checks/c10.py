import random
import core, equiv
from equiv import T

BT = [('int', 32), ('unsigned', 32), ('long', 64), ('unsigned long', 64), ('short', 16), ('unsigned short', 16), ('signed char', 8), ('unsigned char', 8), ('_Bool', 1), ('char', 8), ('long long', 64)]
OPS = ['+', '-', '*', '&', '|', '^']


def layout(rnd, ty, w, bits):
    """struct text with fields f (under test) and g, between other members"""
    unit = {1: 8}.get(bits, bits)
    k = rnd.randrange(7)
    pre = rnd.randrange(1, unit) if unit > 1 else 1
    t2, b2 = rnd.choice(BT)
    gw = rnd.randrange(1, b2 + 1)
    g = '%s g : %d;' % (t2, gw)
    if k == 0: m = '%s f : %d; %s' % (ty, w, g)
    elif k == 1: m = '%s g0 : %d; %s f : %d; %s' % (('unsigned char', min(pre, 8), ty, w, g) if rnd.random() < .5 else (ty if ty != '_Bool' else 'unsigned char', min(pre, unit), ty, w, g))
    elif k == 2: m = 'char c0; %s f : %d; %s char c1;' % (ty, w, g)
    elif k == 3: m = 'int g1 : 3, : 2; %s f : %d; unsigned : 1; %s' % (ty, w, g)
    elif k == 4: m = 'short c0; unsigned char g2 : 5; %s f : %d; %s : 0; %s' % (ty, w, ty, g)
    elif k == 5: m = 'union { %s f : %d; char cc[2]; }; %s' % (ty, w, g)
    else: m = 'struct { %s g : %d; char c0; } in; %s f : %d; %s' % (t2, gw, ty, w, g)
    return 'struct S { %s };\n' % m, m


def prog(rnd, i, ty, bits, w, thorough):
    st, m = layout(rnd, ty, w, bits)
    hdr = st + 'extern struct S s[3], t[3];\n'
    acc = rnd.choice(['t[1].f', 't[1].f', 'p->f', 't[i].f', '(*q())->f'])
    pro = 't[0] = s[0]; t[1] = s[1]; t[2] = s[2]; '
    if acc.startswith('p') : pro += 'struct S *p = t + 1; '
    if '[i]' in acc: pro += 'int i = 1; '
    if 'q()' in acc: hdr += 'static struct S *qv; static struct S **q(void) { qv = t + 1; return &qv; }\n'
    n = 0; b = ''
    def o(e):
        nonlocal n, b
        b += 'o[%d] = %s; ' % (n, e); n += 1
    kind = i % 8
    R = acc
    if kind == 0: o('%s = x' % R); o(R); o('%s = y' % R); o('%s >> 1' % R)
    elif kind == 1:
        for op in rnd.sample(OPS, 3): o('%s %s= %s' % (R, op, rnd.choice(['x', 'y', '3', '-1']))); o(R)
    elif kind == 2: o('%s++' % R); o(R); o('--%s' % R); o('++%s' % R); o('%s--' % R); o(R)
    elif kind == 3: o('%s ? 1 : 2' % R); o('!%s' % R); o('%s && x' % R); o('-%s' % R); o('~%s' % R); o('%s < x' % R); o('%s < 0' % R)
    elif kind == 4: o('t[0].g = %s = x' % R); o('t[0].g'); o('t[2].f = t[0].g'); o('(%s = x) < 0' % R); o('(int)(%s = y) >> 2' % R)
    elif kind == 5: o('(t[1].f = x, t[1].g = y)'); o('t[1].f'); o('t[1].g'); b += 'struct S u = t[1]; u.f = y; u.g = x; t[2] = u; '; o('u.f'); o('u.g')
    elif kind == 6: hdr += 'static struct S fn(struct S a) { a.f += 1; return a; }\n'; b += 't[2] = fn(t[1]); '; o('fn(t[1]).f'); o('fn(t[2]).g'); o('(t[1].f ? t[1] : t[2]).f'); o('sizeof(+%s)' % R); b += 't[2] = s[0]; '
    else: o('%s /= 3' % R) if rnd.random() < .5 else o('%s <<= 1' % R) if ty.startswith('uns') else o('%s >>= 1' % R); o(R); b += 'if (%s) o[%d] = 5; ' % (R, n); n += 1; o('%s == y' % R); o('(%s = x, 1)' % R); o('%s = 0x5aa5' % R); o(R); o('%s = 1' % R)
    src = hdr + 'void test(void) { %s%s}' % (pro, b)
    tsz = None
    return src, n


def size_of(srcs):
    """sizes of the structs according to the reference compiler"""
    import tempfile, os, re
    d = tempfile.mkdtemp()
    body = '#include <stddef.h>\n' + ''.join('struct S%d { %s };\nunsigned long sz%d = sizeof(struct S%d);\n' % (i, m, i, i) for i, m in enumerate(srcs))
    open(d + '/a.c', 'w').write(body)
    rc, o, e = core.sh(['clang', '-w', '-S', '-O0', d + '/a.c', '-o', d + '/a.s'])
    if rc: raise core.CheckError(e.decode()[:300])
    s = open(d + '/a.s').read()
    import shutil; shutil.rmtree(d)
    return [int(x) for x in re.findall(r'^sz\d+:\s*\.quad\s+(\d+)', s, re.M)]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 10)
    b = core.Build(bitcode=False)
    specs = []
    i = 0
    for ty, bits in BT:
        ws = list(range(1, bits + 1))
        if not thorough and len(ws) > 24: ws = sorted(set([1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32, 33, 40, 47, 48, 49, 56, 57, 62, 63, 64]) & set(ws))
        for w in ws:
            for kind in range(8):
                for rep in range(4 if thorough else 1):
                    src, n = prog(rnd, kind, ty, bits, w, thorough)
                    specs.append((ty, w, kind, rep, src, n))
    import re
    sizes = size_of([re.search(r'struct S \{ (.*) \};\n', s[4]).group(1) for s in specs])
    tests = []
    for (ty, w, kind, rep, src, n), sz in zip(specs, sizes):
        tests.append(T('%s_%d_%d_%d' % (ty.replace(' ', ''), w, kind, rep), src, 'long x, int y, raw%d s' % (3 * sz), 'raw%d t, long o[%d]' % (3 * sz, n), solver_ms=8000))
    for nm, m, z in [('packed_22', 'short a; int f : 22;', 5), ('packed_29', 'short a; int f : 29;', 6), ('packed_tail', 'char a; int f : 3;', 2)]:
        tests.append(T(nm, 'struct __attribute__((packed)) S { %s }; extern struct S s, t; void test(void) { t = s; o[0] = t.f = x; o[1] = t.f; o[2] = s.f; }' % m, 'int x, raw%d s' % z, 'raw%d t, long o[3]' % z))
    ck.bounds = ['bit-fields of every listed type, widths 1..width of the type (%s), seven kinds of surrounding members, eight groups of operations' % ('all' if thorough else 'all for narrow types, the widths around unit boundaries for wide ones'),
                 'every value of the stored operands and every prior content of three adjacent objects']
    ck.assume = ['layout and value of the reference: clang -O0 code of the same source (layout itself is decided in C09)', 'undefined cases of the reference excluded']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
