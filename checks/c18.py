"""leaving a scope: deferred statements and cleanup functions run once, in reverse order, after the value is computed; VLA storage lives as long as its block and no longer"""
import random
import core, equiv
from equiv import T

NL = 48
LOG = 'static int n_; static void E(long k) { if (n_ < %d) o[n_++] = k; }\n' % NL
CL = ('static void cl_(int *p) { E(*p); }\nstatic void cv_(int **p) { E((*p)[0] + 1000); }\n'
      '#define CAT(a, b) a##b\n#define D(k) int CAT(d_, k) __attribute__((cleanup(cl_))) = k\n#define DV(k, v) int *CAT(d_, k) __attribute__((cleanup(cv_))) = v\n')
DF = ('#ifdef IN_DUT\n#undef D\n#undef DV\n#define D(k) _Defer E(k)\n#define DV(k, v) _Defer { int *p = v; E(p[0] + 1000); }\n#endif\n')
# deferred statements with control flow of their own
DC = ('static void cx_(int *p) { for (int i = 0; i < 2; i++) { if (i == *p % 3) continue; E(*p * 10 + i); } switch (*p & 3) { case 0: E(*p + 500); case 1: break; default: E(*p + 600); } }\n'
      '#ifdef IN_DUT\n#undef D\n#define D(k) _Defer { for (int i = 0; i < 2; i++) { if (i == k % 3) continue; E(k * 10 + i); } switch (k & 3) { case 0: E(k + 500); case 1: break; default: E(k + 600); } }\n'
      '#else\n#undef D\n#define D(k) int CAT(d_, k) __attribute__((cleanup(cx_))) = k\n#endif\n')


class S:
    def __init__(self, r, vla): self.r, self.k, self.lab, self.cnt, self.decl, self.vla, self.nv = r, 0, 0, 0, '', vla, 0

    def n(self): self.k += 1; return self.k
    def E(self): return 'E(%d); ' % self.n()
    def cond(self): return self.r.choice(['x', 'y', 'x > 3', 'y < x', 'x == y', '!x', '(x & 1)', '(y & 2)', 'x == 7', 'y != 1', 'x < 0'])

    def block(self, d, loop, sw, outs):
        """body of a block; outs = labels of enclosing blocks reachable by goto from here"""
        r = self.r; s = ''
        lab = None; after = False
        nst = r.choice([1, 2, 2, 3, 4])
        # a label at the end of this block, usable by the statements before it as long as no deferral stands between (placed after a nested block)
        for i in range(nst):
            k = r.random()
            if k < .3: s += 'D(%d); ' % self.n()
            elif k < .42 and self.vla:
                self.nv += 1; v = 'v%d' % self.nv
                s += 'int %s[(x & 3) + %d]; %s[0] = %d; ' % (v, r.choice([1, 2, 5]), v, self.n())
                if r.random() < .7: s += 'DV(%d, %s); ' % (self.n(), v)
                if r.random() < .5: s += 'E(%s[0]); ' % v
            elif d > 0: s += self.stmt(d, loop, sw, outs)
            else: s += self.E()
            if r.random() < .25: s += self.jump(loop, sw, outs)
        return s + (self.E() if r.random() < .5 else '')

    def jump(self, loop, sw, outs):
        r = self.r
        c = ['return; ', 'return; ']
        if loop: c += ['break; ', 'continue; '] * 2
        elif sw: c += ['break; '] * 2
        c += ['goto %s; ' % l for l in outs] * 2
        return 'if (%s) %s' % (self.cond(), r.choice(c))

    def stmt(self, d, loop, sw, outs):
        r = self.r; k = r.random()
        if k < .22: return '{ %s} ' % self.block(d - 1, loop, sw, outs)
        if k < .4:
            self.lab += 1; l = 'l%d' % self.lab
            return '{ %s} %s: ' % (self.block(d - 1, loop, sw, outs + [l]), l) + self.E()
        if k < .5:
            self.lab += 1; l = 'b%d' % self.lab; self.cnt += 1; self.decl += 'int c%d = 0; ' % self.cnt
            return '%s: if (c%d++ < 2) { %sif (%s) goto %s; } ' % (l, self.cnt, self.block(d - 1, False, False, outs), self.cond(), l)
        if k < .62: return 'if (%s) { %s} ' % (self.cond(), self.block(d - 1, loop, sw, outs)) + ('else { %s} ' % self.block(d - 1, loop, sw, outs) if r.random() < .4 else '')
        if k < .72: return 'for (int i%d = 0; i%d < 2; i%d++) { %s} ' % ((self.lab,) * 3 + (self.block(d - 1, True, False, outs),))
        if k < .8:
            self.cnt += 1; self.decl += 'int c%d = 0; ' % self.cnt
            return 'while (c%d++ < 2 && %s) { %s} ' % (self.cnt, self.cond(), self.block(d - 1, True, False, outs))
        if k < .86:
            self.cnt += 1; self.decl += 'int c%d = 0; ' % self.cnt
            return 'do { %s} while (++c%d < 2 && %s); ' % (self.block(d - 1, True, False, outs), self.cnt, self.cond())
        if k < .95: return 'switch (x & 3) { case 0: { %s} case 1: { %s} break; default: { %s} } ' % tuple(self.block(d - 1, loop, True, outs) for _ in range(3))
        return 'E(({ %s%d; })); ' % (self.block(0, False, False, []) if d > 1 else 'D(%d); ' % self.n(), self.n())


def rand_prog(rnd, k, d):
    style = rnd.choice(['attr', 'defer', 'defer', 'ctl'])
    g = S(rnd, rnd.random() < .6)
    body = g.block(d, False, False, []) + g.E()
    pre = LOG + CL + {'attr': '', 'defer': DF, 'ctl': DF + DC}[style]
    return T('rnd%d' % k, pre + 'static void f(int x, int y) { %s%s}\nvoid test(void) { f(x, y); E(-1); }' % (g.decl, body), 'int x, int y', 'long o[%d]' % NL, solver_ms=5000, maxpaths=90, timeout=10,
             flags=(rnd.choice([(), (), ('-O0',), ('-fdefer-ts',)])))


FIX = [     # (name, source for both, inputs); H = log and cleanup helpers
    ('retval', 'static void s5(int *p) { *p = 5; E(1); } static int f(int a) { int r __attribute__((cleanup(s5))) = a; return r; } static int g(int a) { int r __attribute__((cleanup(s5))) = a; if (a > 3) return r + 1; { int q __attribute__((cleanup(s5))) = r * 2; return q + r; } } void test(void) { E(f(x)); E(g(x)); E(g(y)); }', 'int x, int y'),
    ('retty', '#define F(T, n) static void c##n(T *p) { *p = 3; E(1); } static T n(int a) { T r __attribute__((cleanup(c##n))) = a; return r; }\nF(char, f1) F(unsigned short, f2) F(long, f3) F(_Bool, f4) F(float, f5) F(double, f6) F(long double, f7)\nvoid test(void) { E(f1(x)); E(f2(x)); E(f3(x)); E(f4(x)); o[40] = f5(x) == (float)x; o[41] = f6(x) == x; o[42] = f7(x) == x; }', 'int x'),
    ('order', 'static void f(int k) { D(1); D(2); { D(3); D(4); E(5); } D(6); if (k) return; D(7); } void test(void) { f(x); E(8); f(y); }', 'int x, int y'),
    ('loop', 'void test(void) { for (int i = 0; i < 4; i++) { int d __attribute__((cleanup(cl_))) = i; if (i == x) continue; int e __attribute__((cleanup(cl_))) = 100 + i; if (i == y) break; E(200 + i); } E(9); }', 'int x, int y'),
    ('nestloop', 'void test(void) { for (int i = 0; i < 2; i++) { D(1); for (int j = 0; j < 2; j++) { D(2); if (j == x) break; if (i == y) goto out; D(3); } D(4); } out: E(5); }', 'int x, int y'),
    ('sw', 'void test(void) { switch (x) { case 1: { D(1); break; } case 2: { D(2); if (y) break; } default: { D(3); } E(4); } E(5); }', 'int x, int y'),
    ('stexpr', 'void test(void) { int r = ({ D(1); int q = x; { D(2); q++; } q; }); E(r); E(({ int q __attribute__((cleanup(cl_))) = x; q * 2; })); if (({ D(3); y; })) E(4); for (int i = 0; ({ D(5); i < 2; }); i++) E(i); }', 'int x, int y'),
    ('stexprret', 'static int f(int x, int y) { D(1); return ({ D(2); if (x) return 7; D(3); y; }) + 1; } void test(void) { E(f(x, y)); E(f(0, y)); }', 'int x, int y'),
    ('ststruct', 'typedef struct { int a, b, c, d, e; } S; static void cs(S *p) { p->a = 9; p->e = 8; } typedef struct { short a; } Q; static void cq(Q *p) { p->a = 9; } void test(void) { S r = ({ S s __attribute__((cleanup(cs))) = { x, 2, 3, 4, y }; s; }); E(r.a); E(r.e); Q q = ({ Q s __attribute__((cleanup(cq))) = { x }; s; }); E(q.a); E(({ S s __attribute__((cleanup(cs))) = { x, 2, 3, 4, y }; s; }).e); }', 'int x, int y'),
    ('stdouble', 'static void cd(double *p) { *p = 9; E(1); } static void cf(float *p) { *p = 9; } static void cl(long double *p) { *p = 9; } void test(void) { o[40] = ({ double d __attribute__((cleanup(cd))) = x; d; }) == x; o[41] = ({ float d __attribute__((cleanup(cf))) = x; d; }) == (float)x; o[42] = ({ long double d __attribute__((cleanup(cl))) = x; d; }) == x; }', 'int x'),
    ('vlaaddr', 'void test(void) { char *prev = 0; for (int i = 0; i < 4; i++) { char v[(x & 15) + 1]; v[0] = i; if (prev) E(prev == v); prev = v; if (i == y) continue; char w[(x & 7) + 1]; w[0] = 1; E(v[0]); } }', 'int x, int y'),
    ('vlanest', 'void test(void) { int a[(x & 3) + 1]; a[0] = 7; { int b[(y & 3) + 2]; b[0] = b[1] = 8; { char c[300]; c[299] = 1; int d[(x & 1) + 1]; d[0] = 9; E(a[0] + b[1] + d[0]); } int e[5 + (y & 1)]; for (int i = 0; i < 5; i++) e[i] = i; E(b[0]); E(b[1]); E(e[4]); } int f[(y & 3) + 1]; f[0] = 3; E(a[0]); E(f[0]); }', 'int x, int y'),
    ('vlaalive', 'void test(void) { int n = (x & 3) + 2; int a[n]; DVL(a) a[0] = 1; { int b[n]; DVL(b) b[0] = 2; if (y) return; b[0] = 3; } a[0] = 4; { int c[n]; c[0] = c[n - 1] = 5; DVL(c) } }', 'int x, int y', '#define DVL(v) int *d##v __attribute__((cleanup(cv_))) = v;\n'),
    ('vlagoto', 'void test(void) { int k = 0; char *p = 0; again: { char v[(x & 7) + 1]; v[0] = k; if (p) E(p == v); p = v; E(v[0]); if (++k < 3) goto again; if (y) goto out; E(77); } out: { char w[(x & 7) + 1]; E(w == p); } E(k); }', 'int x, int y'),
    ('vlasw', 'void test(void) { for (int i = 0; i < 3; i++) { switch ((x + i) & 3) { case 0: { int v[(y & 3) + 1]; v[0] = 5; E(v[0]); break; } case 1: { int w[(y & 3) + 3]; w[2] = 6; E(w[2]); } default: { char q[(y & 1) + 1]; q[0] = 1; E(q[0]); continue; } } E(8); } }', 'int x, int y'),
    ('vlaarr', 'static int sum(int n, int (*a)[n]) { int s = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < n; j++) s += a[i][j] * (i + 1); return s; } void test(void) { int n = (x & 1) + 2; int a[2][n]; for (int i = 0; i < 2; i++) for (int j = 0; j < n; j++) a[i][j] = i + j; { int b[n][2]; b[n - 1][1] = 4; E(b[n - 1][1]); } E(sum(n, a)); }', 'int x'),
    ('vlastexpr', 'void test(void) { int r = ({ int v[(x & 3) + 1]; v[0] = y; v[0] + 1; }); E(r); char *p = 0; for (int i = 0; i < 3; i++) { int k = ({ char v[(x & 7) + 1]; v[0] = i; if (p) E(p == v); p = v; v[0]; }); E(k); } E(({ int v[2]; v[1] = x; v[1]; }) + ({ int w[(y & 1) + 1]; w[0] = 4; w[0]; })); }', 'int x, int y'),
    ('vlacall', 'static int f(int n, int k) { int v[n]; v[n - 1] = k; if (k > 0) return f(n, k - 1) + v[n - 1]; return v[n - 1] + 100; } void test(void) { E(f((x & 3) + 1, 3)); }', 'int x'),
    ('vlastruct', 'typedef struct { int a[5]; } S; static S mk(int n) { int v[n]; v[0] = n; S s = { { v[0], 2, 3 } }; return s; } void test(void) { int v[(x & 3) + 1]; v[0] = 6; S s = mk((y & 3) + 1); E(s.a[0]); E(mk(3).a[2] + v[0]); }', 'int x, int y'),
    ('alloca', 'void test(void) { char *p = __builtin_alloca((x & 7) + 1); p[0] = 4; for (int i = 0; i < 3; i++) { char *q = __builtin_alloca((y & 7) + 1); q[0] = i; E(p[0] + q[0]); E(q == p); } E(p[0]); }', 'int x, int y'),
    ('allocaarg', 'static int f(char *a, char *b, int c) { a[0] = c; b[0] = c + 1; return a[0] + b[0]; } void test(void) { E(f(__builtin_alloca(8), __builtin_alloca(9), x & 31)); E(f(__builtin_alloca(x & 7 | 1), __builtin_alloca(1), 5) + f(__builtin_alloca(3), __builtin_alloca(100), 6)); }', 'int x'),
    ('allocalign', 'void test(void) { for (int i = 0; i < 2; i++) { char *q = __builtin_alloca((x & 3) * 7 + 1); E((long)q & 15); char v[(y & 3) * 9 + 1]; E((long)v & 3); long w[(y & 3) + 1]; E((long)w & 7); _Alignas(16) char u[(x & 3) + 1]; E((long)u & 15); } }', 'int x, int y'),
    ('declcond', 'void test(void) { if (x) D1(1) else D1(2) for (int i = 0; i < 2; i++) D1(3) while (y) { D(4); y = 0; } E(5); }', 'int x, int y', '#define D1(k) { D(k); }\n'),
    ('loopscope', 'static int mk(int k) { E(k); return k; } void test(void) { for (int d __attribute__((cleanup(cl_))) = mk(1), i = 0; i < 2; i++) { D(2); if (x) break; } E(3); }', 'int x'),
    ('recgoto', 'static void f(int k) { D(1); if (k == 1) goto a; { D(2); if (k == 2) goto a; if (k == 3) goto b; { D(3); if (k == 4) goto b; if (k == 5) goto a; if (k == 6) return; } b: E(10); } a: E(11); } void test(void) { f(x); }', 'int x'),
]
# only slimcc has these; the reference spells out the meaning
FIX2 = [
    ('dfblk', 'static int f(int x, int y) { int t = 1; defer { t *= 2; E(t); } defer t += x; if (y) return t; { defer E(50); t = 5; if (x) return t + 1; } return t; } void test(void) { E(f(x, y)); }',
     'static int f(int x, int y) { int t = 1, r; if (y) { r = t; goto o; } t = 5; if (x) { r = t + 1; E(50); goto o; } E(50); r = t; o: t += x; t *= 2; E(t); return r; } void test(void) { E(f(x, y)); }', 'short x, short y'),
    ('dflate', 'static void f(int x) { int v = 1; defer E(v); v = x; if (x > 2) { v = 9; return; } v++; } void test(void) { f(x); }', 'static void f(int x) { int v = 1; v = x; if (x > 2) { v = 9; E(v); return; } v++; E(v); } void test(void) { f(x); }', 'short x'),
    ('dfnest', 'static void f(int x) { defer { defer E(1); E(2); if (x) { defer E(3); E(4); } } E(5); if (x == 2) return; E(6); } void test(void) { f(x); }', 'static void f(int x) { E(5); if (x == 2) goto o; E(6); o: E(2); if (x) { E(4); E(3); } E(1); } void test(void) { f(x); }', 'int x'),
    ('dfloop', 'static void f(int x) { for (int i = 0; i < 3; i++) { defer { int k = 0; while (1) { if (k == 2) break; k++; if (k == x) continue; E(i * 10 + k); } } if (i == x) continue; E(100 + i); if (i + 1 == x) break; } E(7); } void test(void) { f(x); }',
     'static void d(int i, int x) { int k = 0; while (1) { if (k == 2) break; k++; if (k == x) continue; E(i * 10 + k); } } static void f(int x) { for (int i = 0; i < 3; i++) { if (i == x) { d(i, x); continue; } E(100 + i); if (i + 1 == x) { d(i, x); break; } d(i, x); } E(7); } void test(void) { f(x); }', 'int x'),
    ('dfgoto', 'static void f(int x, int y) { defer { int k = 0; a: if (k++ < 2) goto a; if (x) goto b; E(1); b: E(k); } if (y == 1) return; if (y == 2) return; E(9); } void test(void) { f(x, y); f(y, x); }',
     'static void d(int x) { int k = 0; a: if (k++ < 2) goto a; if (x) goto b; E(1); b: E(k); } static void f(int x, int y) { if (y == 1) { d(x); return; } if (y == 2) { d(x); return; } E(9); d(x); } void test(void) { f(x, y); f(y, x); }', 'int x, int y'),
    ('dfmix', 'static void f(int x) { D(1); defer E(2); D(3); int v[(x & 3) + 1]; v[0] = 4; defer E(v[0]); D(5); if (x == 1) return; v[0] = 6; } void test(void) { f(x); }', 'static void f(int x) { D(1); D(2); D(3); int v = 4; int v_ = x == 1 ? 4 : 6; v = v_; int q __attribute__((cleanup(cl_))) = v; D(5); } void test(void) { f(x); }', 'int x'),
    ('dfret', 'static double f(int x) { double d = x; defer d = 0; defer E(3); if (x > 5) return d + 1; return d; } static long double g(int x) { long double d = x; defer { d = 0; E(4); } if (x > 5) return d + 1; return d; } void test(void) { *(double *)&o[40] = f(x); o[41] = g(x) == 3; }', 'static double f(int x) { double d = x, r = d; if (x > 5) r = d + 1; E(3); return r; } static long double g(int x) { long double d = x, r = d; if (x > 5) r = d + 1; E(4); return r; } void test(void) { *(double *)&o[40] = f(x); o[41] = g(x) == 3; }', 'short x'),
    ('dflab', 'static void f(int x, int y) { L: for (int i = 0; i < 2; i++) { defer E(1); for (int j = 0; j < 2; j++) { defer E(2); if (j == x) continue L; if (i == y) break L; E(3); } E(4); } E(5); } void test(void) { f(x, y); }',
     'static void f(int x, int y) { for (int i = 0; i < 2; i++) { D(1); for (int j = 0; j < 2; j++) { D(2); if (j == x) goto c; if (i == y) goto b; E(3); } E(4); c: ; } b: E(5); } void test(void) { f(x, y); }', 'int x, int y'),
    ('retstruct', 'typedef struct { int a; } S1; typedef struct { long a; double b; } S2; typedef struct { int a[9]; } S3; typedef struct { float a, b; char c; } S4; typedef struct { long double a; } S5;\n#define F(T, n, m) static void c##n(T *p) { p->m = 3; E(1); } static T n(int k) { T r __attribute__((cleanup(c##n))) = { 0 }; r.m = k; if (k == 2) return r; return r; }\nF(S1, f1, a) F(S2, f2, a) F(S2, f2b, b) F(S3, f3, a[8]) F(S4, f4, c) F(S5, f5, a)\nvoid test(void) { E(f1(x).a); E(f2(x).a); o[40] = f2b(x).b == x; E(f3(x).a[8]); E(f4(x).c); o[41] = f5(x).a == x; }',
     'typedef struct { int a; } S1; typedef struct { long a; double b; } S2; typedef struct { int a[9]; } S3; typedef struct { float a, b; char c; } S4; typedef struct { long double a; } S5;\n#define F(T, n, m) static void c##n(T *p) { p->m = 3; E(1); } static T n(int k) { T r = { 0 }; r.m = k; T t = r; c##n(&r); return t; }\nF(S1, f1, a) F(S2, f2, a) F(S2, f2b, b) F(S3, f3, a[8]) F(S4, f4, c) F(S5, f5, a)\nvoid test(void) { E(f1(x).a); E(f2(x).a); o[40] = f2b(x).b == x; E(f3(x).a[8]); E(f4(x).c); o[41] = f5(x).a == x; }', 'int x'),
    ('bigloop', 'void test(void) { int s = 0; for (int i = 0; i < 300; i++) { char v[65536 + (x & 1)]; v[0] = i; v[65535] = 1; s += v[0]; if (i & 1) continue; } E(s); }', 'void test(void) { int s = 0; for (int i = 0; i < 300; i++) s += (char)i; E(s); }', 'int x'),
    ('bigloop2', 'void test(void) { int i = 0; again: { char v[65536 + (x & 1)]; v[0] = i; v[65535] = 1; if (++i < 300) goto again; } E(i); }', 'void test(void) { E(300); }', 'int x'),
]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 18)
    b = core.Build()
    tests = []
    for f in FIX:
        n, s, i = f[:3]
        for tag, pre in (('a', ''), ('d', DF)):
            if tag == 'd' and 'D(' not in s: continue
            tests.append(T('x_%s_%s' % (n, tag), LOG + CL + pre + (f[3] if len(f) > 3 else '') + s, i, 'long o[%d]' % NL, solver_ms=8000, maxpaths=300))
    tests += [T('y_' + n, LOG + CL + '#ifdef IN_DUT\n#undef D\n#define D(k) defer E(k)\n#endif\n' + s, i, 'long o[%d]' % NL, ref=LOG + CL + r, flags=('-fdefer-ts',), solver_ms=8000, maxpaths=300) for n, s, r, i in FIX2]
    tests += [rand_prog(rnd, k, rnd.choice([1, 2, 2, 3] if thorough else [1, 2, 2])) for k in range(3000 if thorough else 420)]
    ck.bounds = ['%d fixed shapes and random nests of depth <= %d: blocks, if/else, for, while, do, switch, statement expressions, forward and backward goto, return, break, continue' % (len(FIX) + len(FIX2), 3 if thorough else 2),
                 'scope exits rendered as cleanup attributes, as _Defer, and as _Defer statements containing loops and switches', 'VLA lengths symbolic in 1..8', 'all values of the controlling variables']
    ck.assume = ['reference: clang -O0 code using the cleanup attribute', 'stack addresses are compared only by equality within one program']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
