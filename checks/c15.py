"""conversions between all arithmetic types, IEEE semantics in the solver"""
import random
import core, equiv
from equiv import T
from gen import FORMS, ID, operand

IT = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool', 'char', 'long long', 'unsigned long long']
FT = ['float', 'double', 'long double']
FN = [f for f in FORMS if f not in ('cast',)]
OV = {'float': 'of', 'double': 'od', 'long double': 'ol'}


def outs(n): return ', '.join('%s %s[%d]' % (t, v, n[v]) for v, t in (('of', 'float'), ('od', 'double'), ('ol', 'long double'), ('o', 'long')) if n.get(v))


def ctx(rnd, A, B, e, kind):
    """(file scope text, statements storing into v[0..], number)"""
    v = OV.get(B, 'o')
    if kind == 'cast': return '', '%s[0] = (%s)%s;' % (v, B, e), 1
    if kind == 'assign': return '', '%s w = 0; w = %s; %s[0] = w;' % (B, e, v), 1
    if kind == 'init': return '', '%s w = %s; %s[0] = w;' % (B, e, v), 1
    if kind == 'arg': return 'static void fa(int k, %s a) { %s[0] = a; }\n' % (B, v), 'fa(1, %s);' % e, 1
    if kind == 'ret': return 'static %s fr(%s a) { return a; }\n' % (B, A), '%s[0] = fr(%s);' % (v, e), 1
    if kind == 'ptr': return '', '%s w[2] = {0}, *q = w + 1; *q = %s; %s[0] = w[1]; %s[1] = w[0];' % (B, e, v, v), 2
    if kind == 'cond': return '', '%s w = 0; %s[0] = (%s)(%s ? %s : w);' % (B, v, B, e, e), 1
    if kind == 'member': return '', 'struct { char c; %s m; char d; } w = { 1, 0, 2 }; w.m = %s; %s[0] = w.m; %s[1] = w.c + w.d;' % (B, e, v, v), 2
    if kind == 'comma': return '', '%s[0] = (%s)(1, %s);' % (v, B, e), 1
    if kind == 'mix': return '', '%s w = %s; %s u = w; %s[0] = (%s)u;' % (B, e, B, v, B), 1


def run(ck, thorough):
    rnd = random.Random(core.SEED + 15)
    b = core.Build(bitcode=False)
    tests = []
    ks = ['cast', 'assign', 'init', 'arg', 'ret', 'ptr', 'cond', 'member', 'comma', 'mix']
    for A in IT + FT:
        for B in IT + FT:
            fp = A in FT or B in FT
            for k in ks if thorough or fp and rnd.random() < .3 else rnd.sample(ks, 3 if fp else 2):
                if k == 'cond' and A in FT and B in FT: continue
                fa = rnd.choice(FN)
                f, d, e = operand(fa, A, 'x', 1)
                fs, st, n = ctx(rnd, A, B, '(%s)' % e, k)
                tests.append(T('%s_%s_%s_%s' % (ID.get(A), ID.get(B), k, fa), f + fs + 'void test(void) { %s %s }' % (d, st), A + ' x', outs({OV.get(B, 'o'): n}), mode='real' if fp else 'uf', solver_ms=30000, timeout=80))
    # through an intermediate type, narrowing compound assignment, mixed operand conversions
    extra = []
    for A in FT:
        for B in IT:
            extra.append(('tobool_%s_%s' % (ID[A], ID[B]), 'void test(void) { _Bool t = x; o[0] = t; o[1] = !x; o[2] = x ? 3 : 4; %s y = t; o[3] = y; if (x) o[4] = 1; }' % B, A + ' x', 'long o[5]'))
    for A in IT:
        for F in FT:
            v = OV[F]
            extra.append(('mixadd_%s_%s' % (ID[A], ID[F]), 'void test(void) { %s a = x; %s[0] = a + (%s)0; %s[1] = (%s)a; o[0] = a == (%s)a; }' % (A, v, F, v, F, F), A + ' x', '%s %s[2], long o[1]' % (F, v)))
            if A not in ('_Bool',): extra.append(('round_%s_%s' % (ID[A], ID[F]), 'void test(void) { %s a = x; a = (%s)a; o[0] = a; }' % (A, F), A + ' x', 'long o[1]'))
            extra.append(('casg_%s_%s' % (ID[A], ID[F]), 'void test(void) { %s a = 0; a += y; o[0] = a; a = y; o[1] = a; o[2] = (%s)y; }' % (A, A), F + ' y', 'long o[3]'))
    for A in FT:
        for B in FT:
            for C in FT: extra.append(('chain_%s_%s_%s' % (ID[A], ID[B], ID[C]), 'void test(void) { %s[0] = (%s)(%s)x; %s b = x; %s c = b; %s[1] = c; }' % (OV[C], C, B, B, C, OV[C]), A + ' x', '%s %s[2]' % (C, OV[C])))
    if not thorough: extra = [x for x in extra if x[0] not in ('round_ul_d', 'round_ull_d', 'casg_ul_ld', 'casg_ull_ld', 'round_ul_ld', 'round_ull_ld')]
    extra += [('proto', 'static double h(float a, double b, long double c, int i, unsigned char u, unsigned long l) { od[0] = a; od[1] = b; od[2] = c; o[0] = i; o[1] = u; return l; } void test(void) { od[3] = h(x, x, x, 3, 300 + (int)1, 5); }', 'double x', 'double od[4], long o[2]'),
              ('kr', 'void test(void) { int i = (int)(short)x; unsigned u = (unsigned char)x; od[0] = i; od[1] = u; of[0] = (short)x; }', 'long x', 'double od[2], float of[1]'),
              ('enumf', 'enum E { P, Q = 0x80000000u }; void test(void) { enum E e = x; od[0] = e; }', 'unsigned x', 'double od[1]'),
              ('bff', 'void test(void) { struct { int a : 7; unsigned b : 20; } s; s.a = (int)x & 31; s.b = 5; od[0] = s.a; of[0] = s.b; s.b = (unsigned)y & 0xfff; od[1] = s.b; }', 'int x, unsigned y', 'double od[2], float of[1]')]
    for n, s, i, o in extra:
        if not thorough and n.split('_')[0] in ('tobool', 'mixadd', 'round', 'casg', 'chain') and rnd.random() < .6: continue
        tests.append(T('x_' + n, s, i, o, mode='real', solver_ms=30000, timeout=80))
    ck.bounds = ['every ordered pair of %d integer and 3 floating types; %d conversion contexts (quick: a sample per pair)' % (len(IT), len(ks)), 'every bit pattern of the source (x87: canonical encodings)']
    ck.assume = ['out-of-range floating to integer conversions are undefined and excluded', 'round-to-nearest in effect', 'z3 floating-point theory; NaN payloads are not compared']
    equiv.run_all(ck, b, tests, each=90 if not thorough else 400, total=600 if not thorough else 3200)
