"""floating-point expressions: the IEEE operations are uninterpreted functions, so equal results mean the same
operation, in the same type, applied to the same operands; comparisons and sign operations are interpreted"""
import random
import core, equiv
from equiv import T
from gen import FORMS, ID, is_lvalue, operand

FT = ['float', 'double', 'long double']
IT = ['int', 'long', 'short', 'signed char', 'unsigned char', 'unsigned short', '_Bool']
OUT = {'float': 'f', 'double': 'd', 'long double': 'l'}
RANK = {t: i for i, t in enumerate(IT + FT)}
FN = [f for f in FORMS]


def common(a, b): return max(a, b, key=lambda t: (t in FT, RANK[t]))


class P:
    def __init__(self): self.n = {'f': 0, 'd': 0, 'l': 0, 'o': 0}; self.b = ''

    def o(self, ty, e):
        k = OUT.get(ty, 'o')
        self.b += '%s[%d] = %s; ' % ({'f': 'of', 'd': 'od', 'l': 'ol', 'o': 'o'}[k], self.n[k], e)
        self.n[k] += 1

    def outs(self): return ', '.join('%s %s[%d]' % (t, v, self.n[k]) for k, t, v in (('f', 'float', 'of'), ('d', 'double', 'od'), ('l', 'long double', 'ol'), ('o', 'long', 'o')) if self.n[k])


def pairs(rnd, thorough):
    out = []
    for A in FT + IT:
        for B in FT + IT:
            if A not in FT and B not in FT: continue
            for rep in range(4 if thorough else 2):
                fa, fb = rnd.choice(FN), rnd.choice(FN)
                f1, d1, a = operand(fa, A, 'x', 1); f2, d2, b = operand(fb, B, 'y', 2)
                a, b = '(%s)' % a, '(%s)' % b
                C = common(A, B)
                def prog(tag, fill):
                    p = P(); fill(p)
                    out.append(T('%s_%s_%s_%s_%d_%s' % (ID[A], ID[B], fa, fb, rep, tag), f1 + f2 + 'void test(void) { %s %s %s }' % (d1, d2, p.b), '%s x, %s y' % (A, B), p.outs(), solver_ms=10000, maxpaths=300, retry=True))
                def ar(p):
                    for o in '+-*/': p.o(C, '%s %s %s' % (a, o, b))
                    p.o(C, '-(%s + %s)' % (a, b)); p.o(A if A in FT else 'int', '-' + a); p.o(C, '+%s - +%s' % (a, b))
                prog('ar', ar)
                def cm(p):
                    for o in ('<', '<=', '>', '>=', '==', '!='): p.o('int', '%s %s %s' % (a, o, b))
                    p.o('int', '!(%s < %s)' % (a, b)); p.o('int', '!' + a); p.o('int', '!!%s' % b)
                prog('cm', cm)
                def br(p):
                    for o in rnd.sample(['<', '<=', '>', '>=', '==', '!='], 2):
                        p.b += 'if (%s %s %s) o[%d] = 1; else o[%d] = 2; ' % (a, o, b, p.n['o'], p.n['o']); p.n['o'] += 1
                        p.b += 'o[%d] = 2; if (!(%s %s %s)) o[%d] = 1; ' % (p.n['o'], b, o, a, p.n['o']); p.n['o'] += 1
                    p.b += 'for (int i = 0; i < 2 && %s > %s; i++) o[%d] = i + 3; ' % (a, b, p.n['o']); p.n['o'] += 1
                prog('br', br)
                def lg(p):
                    p.o('int', '%s && %s' % (a, b)); p.o('int', '%s || %s' % (a, b)); p.o(C, '%s ? %s : %s' % (a, b, a)); p.o(C, '(%s < %s) ? %s : %s' % (a, b, a, b)); p.o(C, '%s ?: %s' % (a, b))
                    p.b += 'if (%s) o[%d] = 1; while (%s) { o[%d] = 2; break; } ' % (a, p.n['o'], b, p.n['o'] + 1); p.n['o'] += 2
                prog('lg', lg)
                if is_lvalue(fa):
                    def asg(p):
                        # into an integer only values that always fit
                        ops = rnd.sample('+-*/', 3) if A in FT else []
                        for o in ops: p.o(A, '%s %s= %s' % (a, o, b)); p.o(A, a)
                        if A in FT or B not in FT: p.o(A, '%s = %s' % (a, b)); p.o(A, a)
                        if A in FT:
                            for e in rnd.sample(['%s++', '%s--', '++%s', '--%s'], 3): p.o(A, e % a)
                            p.o(A, a); p.o('int', '(%s += 1) > 2' % a); p.o('double', '(%s = %s) + 1' % (a, b))
                        else: p.o('int', a)
                    if A in FT: prog('as', asg)
    return out


class FExpr:
    def __init__(self, r, vars_): self.r, self.v = r, vars_

    def const(self):
        r = self.r
        return r.choice(['0.0', '1.0', '1.5', '-1.0', '0.0f', '2.5f', '-0.0', '1e300', '1e-300', '0.1', '0.1f', '3.25L', '1e4000L', '-0.0f', '1', '-7', '100000', '0.1L', '1.0L', '0.0L', '0x1p-1074', '0x1p-149f', '1e30f'])

    def gen(self, d):
        """(expression, type)"""
        r = self.r
        if d <= 0 or r.random() < .1:
            if r.random() < .25:
                c = self.const(); return c, 'float' if c.endswith('f') else 'long double' if c[-1] == 'L' else 'double' if '.' in c or 'e' in c or 'p' in c else 'int'
            return r.choice(self.v)
        k = r.random()
        if k < .55:
            (a, A), (b, B) = self.gen(d - 1), self.gen(d - 1)
            return '(%s %s %s)' % (a, r.choice('+-*/') if A in FT or B in FT else '&', b), common(A, B)
        if k < .63:
            a, A = self.gen(d - 1); return '(- %s)' % a if A in FT else '(~%s)' % a, A if A in FT else 'int'
        if k < .73:
            (a, A), t = self.gen(d - 1), r.choice(FT); return '(%s)%s' % (t, a), t
        if k < .93:
            (a, A), (b, B) = self.gen(d - 1), self.gen(d - 1)
            return '(%s ? %s : %s)' % (self.cmp(d - 1), a, b), common(A, B)
        (a, A), (b, B) = self.gen(d - 1), self.gen(d - 1)
        return '(%s, %s)' % (a, b), B

    def cmp(self, d):
        (a, A), (b, B) = self.gen(d - 1), self.gen(d - 1)
        k = self.r.random()
        if k < .6: return '(%s %s %s)' % (a, self.r.choice(['<', '<=', '>', '>=', '==', '!=']), b)
        if k < .7: return '(!(%s %s %s))' % (a, self.r.choice(['<', '<=', '>', '>=', '==', '!=']), b)
        if k < .8: return '(%s %s %s)' % (a, self.r.choice(['&&', '||']), b)
        return '(!%s)' % a


def randoms(rnd, n):
    out = []
    for k in range(n):
        vs, ins, fs, ds = [], [], '', ''
        for i in range(rnd.choice([2, 3, 4])):
            A = rnd.choice(FT + FT + ['int', 'long'])
            f, d, e = operand(rnd.choice(FN), A, 'x%d' % i, i + 1)
            ins.append('%s x%d' % (A, i)); fs += f; ds += d + ' '; vs.append(('(%s)' % e, A))
        g = FExpr(rnd, vs); p = P()
        for j in range(3):
            e, t = g.gen(rnd.choice([2, 3, 4])) if rnd.random() < .8 else (g.cmp(3), 'int'); p.o(t, e)
        out.append(T('rnd%d' % k, fs + 'void test(void) { %s%s }' % (ds, p.b), ', '.join(ins), p.outs(), solver_ms=5000, maxpaths=60, retry=True))
    return out


EXTRA = [
    ('swap', 'void test(void) { double a = x, b = y; double t = a; a = b; b = t; od[0] = a - b; od[1] = a; }', 'double x, double y', 'double od[2]'),
    ('horner', 'void test(void) { double a = 0; for (int i = 0; i < 5; i++) a = a * x + y[i]; od[0] = a; }', 'double x, double y[5]', 'double od[1]'),
    ('dot', 'void test(void) { float a = 0; for (int i = 0; i < 4; i++) a += y[i] * z[i]; of[0] = a; }', 'float y[4], float z[4]', 'float of[1]'),
    ('ldot', 'void test(void) { long double a = 0; for (int i = 0; i < 4; i++) a += y[i] * z[3 - i]; ol[0] = a; }', 'long double y[4], long double z[4]', 'long double ol[1]'),
    ('minmax', 'static double mx(double a, double b) { return a > b ? a : b; } void test(void) { od[0] = mx(x, mx(y, -x)); }', 'double x, double y', 'double od[1]'),
    ('ldarg', 'static long double f(long double a, int k, long double b) { return k ? a - b : b / a; } void test(void) { ol[0] = f(x, k, y); ol[1] = f(y, !k, x) * 2; }', 'long double x, long double y, int k', 'long double ol[2]'),
    ('fret', 'static float f(float a) { return a; } static float g(double a) { return a; } void test(void) { of[0] = f(x) + g(y); of[1] = g(f(y)); }', 'double x, float y', 'float of[2]'),
    ('nanself', 'void test(void) { o[0] = x != x; o[1] = x == x; o[2] = y != y; o[3] = z == z; o[4] = !(z <= z); }', 'double x, float y, long double z', 'long o[5]'),
    ('negz', 'void test(void) { double a = -x; float b = -y; long double c = -z; od[0] = a; of[0] = b; ol[0] = c; od[1] = 0.0 - x; of[1] = - -y; }', 'double x, float y, long double z', 'double od[2], float of[2], long double ol[1]'),
    ('cast', 'void test(void) { od[0] = (float)x; od[1] = (double)(float)(x + 1); of[0] = x; od[2] = (long double)x; ol[0] = (float)x; }', 'double x', 'double od[3], float of[1], long double ol[1]'),
    ('chain', 'void test(void) { float a; double b; long double c; c = b = a = x; ol[0] = c; od[0] = b; of[0] = a; a = b = c = x; of[1] = a; }', 'double x', 'double od[1], float of[2], long double ol[1]'),
    ('struct', 'struct S { float a; double b; long double c; int d; }; void test(void) { struct S s = { x, y, z, 3 }, t; t = s; t.a += t.b; t.c -= t.a; t.b *= t.d; of[0] = t.a; od[0] = t.b; ol[0] = t.c; ol[1] = s.c; }', 'float x, double y, long double z', 'double od[1], float of[1], long double ol[2]'),
    ('arr', 'void test(void) { double a[4]; float b[4]; for (int i = 0; i < 4; i++) { a[i] = x[i]; b[3 - i] = a[i] * 2; } for (int i = 0; i < 4; i++) od[i] = a[i] / b[i]; }', 'double x[4]', 'double od[4]'),
    ('ptr', 'void test(void) { double *p = x; od[0] = *p++; od[1] = *++p; od[2] = p[-1]; *p-- = od[0]; od[3] = (*p)++; od[4] = *p; }', 'double x[4]', 'double od[5]'),
    ('mixed', 'void test(void) { int i = k; i += 1; double d = i; d += i; float f = d; f -= i; long double l = f; l *= i; ol[0] = l; of[0] = f; od[0] = d; }', 'short k', 'double od[1], float of[1], long double ol[1]'),
    ('static', 'static double s = 1.5; static float t = 0.1; static long double u = 0.1L, v = 1.0f / 3; void test(void) { s += x; t *= x; u -= x; v += u; od[0] = s; of[0] = t; ol[0] = u; ol[1] = v; }', 'double x', 'double od[1], float of[1], long double ol[2]'),
    ('builtin', 'void test(void) { double z = 0.0; od[0] = x - z; od[1] = x * 1.0; od[2] = x + -0.0; od[3] = x / 1.0; od[4] = 0.0 * x; od[5] = x - x; od[6] = x * -1.0; od[7] = x + x; od[8] = 2 * x; }', 'double x', 'double od[9]'),
    ('builtinf', 'void test(void) { of[0] = x - 0.0f; of[1] = x * 1; of[2] = x + 0; of[3] = x / 2; of[4] = 0 * x; of[5] = 1 / x; of[6] = -1 * x; of[7] = 0 - x; }', 'float x', 'float of[8]'),
    ('builtinl', 'void test(void) { ol[0] = x - 0.0L; ol[1] = x * 1; ol[2] = x + 0; ol[3] = x / 2; ol[4] = 0 * x; ol[5] = 1 / x; ol[6] = -1 * x; ol[7] = 0 - x; }', 'long double x', 'long double ol[8]'),
    ('logic', 'void test(void) { o[0] = x && y; o[1] = x || z; o[2] = !x + !y + !z; o[3] = (x ? 1 : 2) + (y ? 10 : 20) + (z ? 100 : 200); o[4] = (_Bool)x + (_Bool)y * 2 + (_Bool)z * 4; _Bool b = z; o[5] = b; }', 'double x, float y, long double z', 'long o[6]'),
    ('switchf', 'void test(void) { double a = x; if (a) goto l; od[0] = 1; return; l: od[0] = a; while (a > y) { a = a - 1; od[1] = a; if (!(a != x)) break; else break; } do { od[2] = y; } while (0.0); for (; y;) { od[3] = 9; break; } }', 'double x, double y', 'double od[4]'),
]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 14)
    b = core.Build(bitcode=False)
    tests = pairs(rnd, thorough) + randoms(rnd, 1500 if thorough else 200) + [T('x_' + n, s, i, o, solver_ms=10000) for n, s, i, o in EXTRA]
    ck.bounds = ['every pair of float/double/long double with each other and with 7 integer types, operands through %d forms, plus random expressions of depth <= 4' % len(FN), 'every bit pattern of the operands (x87: canonical encodings)']
    ck.assume = ['+ - * / and conversions are uninterpreted (same function for the reference and slimcc), addition and multiplication commute; comparisons, negation and truth tests are interpreted exactly', 'NaN results compare equal whatever their payload', 'contraction is off']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
