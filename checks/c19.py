"""values that wait for other computations (temporaries, spilled registers, locals of live scopes) keep their contents"""
import random
import core, equiv
from equiv import T

PRE = '''typedef struct { long a; int b; double d; long double l; char c[9]; } B;
typedef struct { int a; short b; } Q;
typedef struct { double d; long a; } M;
typedef struct { float f; float g; float h; } F;
static long f1(long a) { return a ^ 0x55; }
static long f2(long a, long b) { return a * 3 - b; }
static int f6(char a, short b, int c, long d, unsigned char e, unsigned f) { return a + 2 * b + 3 * c + 5 * (int)d + 7 * e + 11 * (int)f; }
static long f9(long a, long b, long c, long d, long e, long f, long g, long h, long i) { return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * h + 9 * i; }
static double fd(long a, double b) { return a & 1 ? b : -b; }
static double fd9(double a, long i, double b, double c, double d, double e, double f, double g, double h, double j) { return i & 1 ? a : i & 2 ? b : i & 4 ? h : i & 8 ? j : d; }
static float ff(float a, int b) { return b > 3 ? a : -a; }
static long double fl(long double a, long b) { return b & 2 ? a : -a; }
static B mkb(long a, double d) { B r = { a, (int)a + 1, d, d, "abcdefg" }; r.c[3] = a; return r; }
static Q mkq(int a) { Q r = { a, a + 1 }; return r; }
static M mkm(double d, long a) { M r = { d, a }; return r; }
static F mkf(float f) { F r = { f, -f, f }; return r; }
static long gb(B b, long k) { return b.a + b.b * 2 + b.c[3] + k; }
static long gq(Q q, Q r) { return q.a + 3 * r.b; }
static double gm(M m, double d) { return m.a & 1 ? m.d : d; }
static float gf(F m, int k) { return k & 1 ? m.g : m.h; }
static long bits(double d) { union { double d; long l; } u = { d }; return u.l; }
'''


class G:
    def __init__(self, r): self.r, self.v = r, 0

    def I(self, d):
        r = self.r
        if d <= 0: return r.choice(['x', 'y', 'z', 'x', 'y', 'z', 'a[1]', 'a[2]', '*p', '5', '0x123456789L', '-7', 'st.a', 'st.c[3]', 'sb.b', 'gl'])
        k = r.random()
        if k < .34: return '(%s %s %s)' % (self.I(d - 1), r.choice(['+', '-', '^', '&', '|', '+', '-', '==', '<']), self.I(d - 1))
        if k < .38: return '(%s %s %s)' % (self.I(d - 1), r.choice(['<<', '>>']), '(%s & 7)' % self.I(d - 2))
        if k < .41: return '(%s %s 7)' % (self.I(d - 1), r.choice(['/', '%'])) if r.random() < .3 else '(%s)(%s)' % (r.choice(['char', 'short', 'int', 'unsigned', '_Bool', 'unsigned char']), self.I(d - 1))
        if k < .47: return 'f1(%s)' % self.I(d - 1)
        if k < .53: return 'f2(%s, %s)' % (self.I(d - 1), self.I(d - 1))
        if k < .56: return 'f6(%s)' % ', '.join(self.I(d - 2) for _ in range(6))
        if k < .59: return 'f9(%s)' % ', '.join(self.I(d - 3) for _ in range(9))
        if k < .63: return '(%s ? %s : %s)' % (self.I(d - 2), self.I(d - 1), self.I(d - 1))
        if k < .65: return '(%s %s %s)' % (self.I(d - 1), r.choice(['&&', '||']), self.I(d - 1))
        if k < .69: return 'a[%s & 3]' % self.I(d - 1)
        if k < .74: return 'bits(%s)' % self.D(d - 1)
        if k < .78: return '%s.%s' % (self.B(d - 1), r.choice(['a', 'b', 'c[3]']))
        if k < .82: return '%s.%s' % (self.Q(d - 1), r.choice(['a', 'b']))
        if k < .85: return 'gb(%s, %s)' % (self.B(d - 1), self.I(d - 1))
        if k < .88: return 'gq(%s, %s)' % (self.Q(d - 1), self.Q(d - 1))
        self.v += 1; n = self.v
        if k < .93: return '({ long t%d = %s; %s + t%d; })' % (n, self.I(d - 1), self.I(d - 1), n)
        if k < .96: return '({ long t%d[(x & 3) + 2]; t%d[1] = %s; %s - t%d[1]; })' % (n, n, self.I(d - 1), self.I(d - 1), n)
        if k < .98: return '({ long *t%d = __builtin_alloca(16); t%d[1] = %s; %s - t%d[1]; })' % (n, n, self.I(d - 1), self.I(d - 1), n)
        return '*(long[]){ %s, %s }' % (self.I(d - 1), self.I(d - 1))

    def D(self, d):
        r = self.r
        if d <= 0: return r.choice(['u', 'v', 'u', 'v', '2.5', 'st.d', 'mm.d', 'dv[1]', '*dp'])
        k = r.random()
        if k < .3: return '(%s %s %s)' % (self.D(d - 1), r.choice(['+', '-', '*']), self.D(d - 1))
        if k < .36: return '(-%s)' % self.D(d - 1)
        if k < .48: return 'fd(%s, %s)' % (self.I(d - 1), self.D(d - 1))
        if k < .54: return 'fd9(%s, %s, %s)' % (self.D(d - 2), self.I(d - 2), ', '.join(self.D(d - 2) for _ in range(8)))
        if k < .62: return '(%s ? %s : %s)' % (self.I(d - 2), self.D(d - 1), self.D(d - 1))
        if k < .69: return '%s.d' % self.B(d - 1)
        if k < .76: return '%s.d' % self.M(d - 1)
        if k < .82: return 'gm(%s, %s)' % (self.M(d - 1), self.D(d - 1))
        if k < .86: return '(double)%s' % self.Fl(d - 1)
        if k < .9: return 'dv[%s & 1]' % self.I(d - 1)
        self.v += 1; n = self.v
        if k < .95: return '({ double t%d = %s; %s - t%d; })' % (n, self.D(d - 1), self.D(d - 1), n)
        return '(double)(int)(%s)' % self.I(d - 1)

    def Fl(self, d):
        r = self.r
        if d <= 0: return r.choice(['w', '1.5f', 'fv[1]'])
        k = r.random()
        if k < .4: return '(%s %s %s)' % (self.Fl(d - 1), r.choice('+-*'), self.Fl(d - 1))
        if k < .6: return 'ff(%s, %s)' % (self.Fl(d - 1), self.I(d - 1))
        if k < .8: return 'gf(%s, %s)' % (self.F(d - 1), self.I(d - 1))
        return '%s.%s' % (self.F(d - 1), self.r.choice('fgh'))

    def L(self, d):
        r = self.r
        if d <= 0: return r.choice(['lv', 'lv', 'st.l', '1.25L'])
        k = r.random()
        if k < .4: return '(%s %s %s)' % (self.L(d - 1), r.choice('+-*'), self.L(d - 1))
        if k < .55: return 'fl(%s, %s)' % (self.L(d - 1), self.I(d - 1))
        if k < .7: return '(%s ? %s : %s)' % (self.I(d - 2), self.L(d - 1), self.L(d - 1))
        if k < .8: return '%s.l' % self.B(d - 1)
        if k < .9: return '(-%s)' % self.L(d - 1)
        self.v += 1; n = self.v
        return '({ long double t%d = %s; %s + t%d; })' % (n, self.L(d - 1), self.L(d - 1), n)

    def agg(self, d, leaf, mk):
        r = self.r
        if d <= 0: return leaf
        k = r.random()
        if k < .15: return '(%s ? %s : %s)' % (self.I(d - 2), self.agg(d - 1, leaf, mk), self.agg(d - 1, leaf, mk))
        if k < .25: return '(f1(x), %s)' % self.agg(d - 1, leaf, mk)
        if k < .35:
            self.v += 1; n = self.v; return '({ %s t%d = %s; f1(%s); t%d; })' % (mk[2], n, self.agg(d - 1, leaf, mk), self.I(d - 2), n)
        return mk[0](d - 1)

    def B(self, d): return self.agg(d, 'st', (lambda d: 'mkb(%s, %s)' % (self.I(d), self.D(d)), 0, 'B'))
    def Q(self, d): return self.agg(d, 'sb', (lambda d: 'mkq(%s)' % self.I(d), 0, 'Q'))
    def M(self, d): return self.agg(d, 'mm', (lambda d: 'mkm(%s, %s)' % (self.D(d), self.I(d)), 0, 'M'))
    def F(self, d): return self.agg(d, 'sf', (lambda d: 'mkf(%s)' % self.Fl(d), 0, 'F'))


LOC = ('long a[4] = { y, 3, z, x }, *p = &a[2]; static long gl = 77; double dv[2] = { v, 4.0 }, *dp = dv; float fv[2] = { w, 2.0f }; B st = { x, y, u, lv, "q" }; Q sb = { z, x }; M mm = { v, y }; F sf = { w, w, 1.0f }; '
       '(void)p; (void)gl; (void)dp; (void)fv; (void)st; (void)sb; (void)mm; (void)sf; ')
INS = 'int x, int y, long z, double u, double v, float w, long double lv'


def rand_expr(rnd, k, d, lim=520):
    g = G(rnd)
    typ = rnd.choice('IIIIDDLF')
    e = {'I': g.I, 'D': g.D, 'L': g.L, 'F': g.Fl}[typ](d)
    if len(e) > lim or len(e) < 60: return rand_expr(rnd, k, d, lim)
    out = {'I': 'o[0] = %s;', 'D': 'q = %s;', 'L': 'r = %s;', 'F': 's = %s;'}[typ] % e
    return T('ex%d' % k, PRE + 'void test(void) { %s%s o[1] = a[0] + a[1] + a[2] + a[3] + sb.a + st.b; }' % (LOC, out), INS, 'long o[2], double q, float s, long double r', solver_ms=4000, maxpaths=48, timeout=6, traps=False, flags=rnd.choice([(), (), (), ('-fstack-reuse=none',), ('-O0',)]), retry=False)


class Sc:
    """nested scopes; every live object is verified again after inner scopes and calls have come and gone"""
    TY = ['char', 'short', 'int', 'long', 'double', 'B', 'Q', 'char[17]', 'int[5]', 'long[2]', 'M', 'F']

    def __init__(self, r): self.r, self.n, self.k = r, 0, 0

    def decl(self):
        r = self.r; self.n += 1; n = 'v%d' % self.n; t = r.choice(self.TY); val = r.randrange(1, 100)
        src = r.choice(['x', 'y', '(x + %d)' % val, '(y ^ %d)' % val, str(val)])
        if t == 'double': return 'double %s = (%s & 1) + 0.5; ' % (n, src), ('bits(%s)' % n)
        if t == 'B': return 'B %s = mkb(%s, u); ' % (n, src), '%s.a + %s.b + %s.c[3]' % (n, n, n)
        if t == 'Q': return 'Q %s = mkq(%s); ' % (n, src), '%s.a - %s.b' % (n, n)
        if t == 'M': return 'M %s = mkm(u, %s); ' % (n, src), '%s.a' % n
        if t == 'F': return 'F %s = mkf(1.5f); ' % n, '(%s.g < 0)' % n
        if '[' in t:
            b, c = t[:-1].split('['); c = int(c)
            return '%s %s[%d] = { %s, 1, [%d] = %s }; ' % (b, n, c, src, c - 1, src), '%s[0] + 3 * %s[%d]' % (n, n, c - 1)
        al = '_Alignas(%d) ' % r.choice([16, 32, 64]) if r.random() < .12 else ''
        return '%s%s %s = %s; ' % (al, t, n, src), n

    def block(self, d, live):
        r = self.r; s = ''; live = list(live)
        ptrs = []
        for _ in range(r.choice([2, 3, 4, 5])):
            k = r.random()
            if k < .4:
                ds, ex = self.decl(); s += ds; live.append(ex)
            elif k < .5:
                self.n += 1; n = 'p%d' % self.n
                ini, ex = r.choice([('int *%s = (int[]){ x, %d, y };' % (n, self.n), '%s[0] + %s[1] + %s[2]' % (n, n, n)), ('Q *%s = &(Q){ y, %d };' % (n, self.n), '%s->a + %s->b' % (n, n)), ('B *%s = &(B){ .a = x, .c = "xyz" };' % n, '%s->a + %s->c[2]' % (n, n)), ('char *%s = __builtin_alloca(8 + (x & 3)); %s[7] = y;' % (n, n), '%s[7]' % n),
                                    ('long *%s = __builtin_alloca(64); for (int i = 0; i < 8; i++) %s[i] = y + i;' % (n, n), '%s[0] * %s[7]' % (n, n)), ('short %s[(y & 3) + 2]; %s[0] = x; %s[1] = 3; %s[(y & 3) + 1] = x;' % (n, n, n, n), '%s[0] - %s[(y & 3) + 1]' % (n, n))])
                s += ini + ' '; live.append(ex)
            elif k < .62:
                s += self.check(live)
            elif k < .72:
                s += r.choice(['K(gb(mkb(x, u), mkq(y).a)); ', 'K(mkb(y, 1.0).c[3]); ', 'K(f9(x, y, 1, 2, 3, x, 5, y, 6)); ', 'K(({ long t = x; long w[3] = { t, y, t }; w[0] + w[1] + w[2]; })); ', 'K((x ? mkq(x) : mkq(y)).b); ', 'K(((int[]){ x, y })[1]); ', 'K(clob(x)); ', 'K(({ B t = mkb(y, 2.0); t; }).a); '])
            elif d > 0:
                k2 = r.random()
                if k2 < .4: s += '{ %s} ' % self.block(d - 1, live)
                elif k2 < .6: s += 'if (x > y) { %s} else { %s} ' % (self.block(d - 1, live), self.block(d - 1, live))
                elif k2 < .8: self.n += 1; s += 'for (int i%d = 0; i%d < 2; i%d++) { %s} ' % (self.n, self.n, self.n, self.block(d - 1, live + ['i%d' % self.n]))
                elif k2 < .9: s += 'K(({ %sx; })); ' % self.block(d - 1, live)
                else: s += 'switch (x & 1) { case 0: { %s} break; default: { %s} } ' % (self.block(d - 1, live), self.block(d - 1, live))
        return s + self.check(live)

    def check(self, live):
        s = ''
        for e in live: self.k += 1; s += 'K(%s); ' % e
        return s


def rand_scope(rnd, k, d):
    g = Sc(rnd)
    body = g.block(d, [])
    if len(body) > 4000: return rand_scope(rnd, k, d)
    vol = ['K(', 'h = h * 3 + (']
    return T('sc%d' % k, PRE + 'static long h; static int kk; static void K(long v) { h = h * 5 ^ v; if (kk < 30) o[kk] = v; kk++; }\nstatic int clob(int k) { long a[40]; for (int i = 0; i < 40; i++) a[i] = i - 1000; return a[k & 31] + a[39]; }\nvoid test(void) { %s o[30] = kk; }' % body,
             'int x, int y, double u', 'long o[31]', solver_ms=6000, maxpaths=60, timeout=12, traps=False, flags=rnd.choice([(), (), (), ('-fstack-reuse=none',), ('-O0',), ('-fstack-reuse=all',)]))


FIX = [
    ('deepint', 'o[0] = x - (y - (z - (x + (y - (z - (x ^ (y - (z + (x - (y - (z - (x - (y - z)))))))))))));'),
    ('deepcall', 'o[0] = f2(x, f2(y, f2(z, f2(x - 1, f2(y - 2, f2(z - 3, f2(x, y)))))));'),
    ('callright', 'o[0] = x - (y - (z - (x + (y - (z - (x ^ (y - f1(z))))))));'),
    ('callmid', 'o[0] = (x - y) - ((z - f1(x)) - ((y + x) - ((z ^ f1(y)) - ((x - z) - f2(x, y)))));'),
    ('dblspill', 'q = u - (v - (u + (v - (u - (v * (u - (v - (u + (v - (u - v))))))))));'),
    ('dblcall', 'q = u - (v - fd(x, u - (v + fd(y, u - (v - fd(x, v))))));'),
    ('dblint', 'q = u - (v - (x - (y - u) - fd(x - (y - f1(z)), v)));'),
    ('ldspill', 'r = lv - (u + (lv - (v - (lv + (x - (lv - (lv + (lv - (lv - lv)))))))));'),
    ('ldcall', 'r = lv - (fl(lv, x) - (lv - fl(lv - fl(lv, y), x - y)));'),
    ('ldarg', 'o[0] = f2(lv > u, x) + f1(y); r = lv + f1(x);'),
    ('fltspill', 's = w - (w * (w - ff(w - (w + ff(w, x)), y)));'),
    ('structargs', 'o[0] = gb(mkb(x, u), gb(mkb(y, v), gq(mkq(x), mkq(y))));'),
    ('structargs2', 'o[0] = gb((B){ .a = f1(x), .c = { [3] = y } }, f1(z)) - gb(st, gb(*&st, 1));'),
    ('structtmp', 'o[0] = mkb(x, u).c[3] + mkb(y, v).c[f1(0x56) & 3] * 3 + mkb(z, u).a;'),
    ('structcond', 'o[0] = (x ? mkb(y, u) : mkb(z, v)).a - (y ? st : mkb(z, v)).b;'),
    ('structassign', 'B k, m; k = m = mkb(x, u); o[0] = k.a + m.c[3]; k.a = f1(k.b) - (m = mkb(y, v)).a; o[1] = k.a + m.b;'),
    ('structself', 'B k = mkb(x, u); k = mkb(k.a + 1, k.d); k = mkb(gb(k, 2), k.d); o[0] = k.a; o[1] = k.b + k.c[3]; q = k.d;'),
    ('assignself', 'B k[2] = { mkb(x, u), mkb(y, v) }; k[0] = k[1]; k[1] = (B){ .a = k[0].a + 1, .b = k[1].b, .c = { [3] = k[0].c[3] } }; o[0] = k[1].a; o[1] = k[1].b + k[1].c[3];'),
    ('vlaexpr', 'o[0] = x + ({ int t[(x & 3) + 1]; t[0] = y; t[0]; }) - f1(({ char t[(y & 3) + 1]; t[0] = z; t[0]; })) + y;'),
    ('allocaexpr', 'char *c1, *c2; o[0] = (c1 = __builtin_alloca(8), c1[0] = x, c1[0]) + f1((c2 = __builtin_alloca(16), c2[15] = y, c2[15])); o[1] = c1[0] + c2[15];'),
    ('argalloca', 'o[0] = f9(x, y, *(char *)memset_(__builtin_alloca(8), x), 1, z, *(char *)memset_(__builtin_alloca(8), y), x, y, *(char *)memset_(__builtin_alloca(24), z));'),
    ('shiftspill', 'o[0] = (x + (z << ((y + (x & 3)) & 7))) - (z >> ((x - (y & 1)) & 15)) + (f1(x) << (f1(y) & 3));'),
    ('divspill', 'o[0] = (x - (z / ((y & 7) + 1))) - (f1(z) % ((f1(x) & 3) + 1)) + x / ((f1(y) & 7) | 1);'),
    ('idx', 'o[0] = a[f1(x) & 3] - a[(x + (y - f1(z))) & 3] * a[a[a[x & 3] & 3] & 3];'),
    ('idxasg', 'a[f1(x) & 3] = a[f1(y) & 3] - f1(a[f1(z) & 3]); a[a[x & 3] & 3] += f2(a[y & 3], x); *(p - (x & 1)) ^= f1(a[1]); o[0] = a[0] + 3 * a[1] + 5 * a[2] + 7 * a[3];'),
    ('bfspill', 'struct { int a : 7; unsigned b : 20; long c : 40; } t = { x, y, z }; t.a = t.b - f1(t.c); t.c += f2(t.a, t.b); t.b ^= (t.a = f1(x)) - t.c; o[0] = t.a; o[1] = t.b + t.c;'),
    ('manyargs', 'o[0] = f9(f1(x), f2(x, y), f1(z), y, f6(x, y, z, x, y, z), f1(y), f9(x, y, z, 1, 2, 3, f1(x), 5, f1(z)), f1(f1(x)), f2(f1(x), f1(y)));'),
    ('manyfp', 'q = fd9(fd(x, u), f1(y), u + v, fd(y, v), u - v, fd(x, fd(y, u)), v, fd9(u, x, v, u, v, u, v, u, v, u), -u, fd(f1(x), -v));'),
    ('mixargs', 'o[0] = bits(fd9(u, f9(x, y, z, bits(u), bits(v), x, y, z, bits(fd(x, u))), v, u, v, u, v, u, v, u)) - gb(mkb(bits(u), v), bits(u + v));'),
    ('condval', 'o[0] = x + (y ? f1(x) + (z ? f2(y, x) : y) : (x && f1(y)) - (y || f1(z))) + z; q = u + (x ? fd(y, v) : v - u); r = lv + (x ? fl(lv, y) : lv);'),
    ('stexprval', 'o[0] = x - ({ long t = f1(y); for (int i = 0; i < 3; i++) t = t * 2 - f1(i); t; }) - ({ int k = 0; while (k < 2) k++; switch (x & 3) { case 1: k = 7; } k; }) + y; q = u - ({ double t = v; if (x) t = fd(y, t); t; }) + v;'),
    ('ptrchain', 'struct N { struct N *n; long v; } n3 = { 0, x }, n2 = { &n3, y }, n1 = { &n2, z }; o[0] = n1.v - (n1.n->v - n1.n->n->v); n1.n->n->v = n1.v + f1(n1.n->v); o[1] = n3.v;'),
    ('complit', 'long *l1 = (long[]){ x, y }; long *l2 = (long[]){ f1(x), z }; B *b1 = &(B){ .a = y }; f9(x, y, z, 1, 2, 3, 4, 5, 6); { long t[4] = { 1, 2, 3, 4 }; o[1] = t[x & 3]; } o[0] = l1[0] + l1[1] * 3 + l2[0] + l2[1] * 5 + b1->a;'),
    ('complitloop', 'long *l[3]; for (int i = 0; i < 3; i++) { l[i] = (long[]){ x + i, y }; o[0] += l[i][0] * 3 + l[i][1]; { long t[2] = { i, i }; o[1] += t[1]; } o[0] += l[i][0]; }'),
    ('bigframe', 'char big[5000]; big[0] = x; big[4999] = y; long after = z; long k[600]; k[599] = x; o[0] = big[0] + big[4999] * 3 + after + k[599] + f1(x);'),
    ('align', '_Alignas(64) char c1[3] = { x, y, z }; _Alignas(32) long l1 = y; o[0] = c1[0] + c1[2] + l1 + f1(c1[1]); o[1] = ((long)c1 & 63) + ((long)&l1 & 31);'),
    ('alignvla', '_Alignas(64) char c1[3] = { x, y, z }; char vl[(x & 3) + 1]; vl[0] = y; _Alignas(32) long l1 = f1(y); o[0] = c1[0] + c1[2] + l1 + vl[0]; o[1] = ((long)c1 & 63) + ((long)&l1 & 31);'),
]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 19)
    b = core.Build()
    tests = []
    for n, s in FIX:
        tests.append(T('x_' + n, PRE + 'static void *memset_(char *c, int v) { c[0] = v; return c; }\nvoid test(void) { %s%s }' % (LOC, s), INS, 'long o[2], double q, float s, long double r', solver_ms=10000, maxpaths=300, traps=False, retry=True))
    tests += [rand_expr(rnd, k, rnd.choice([3, 4, 4, 5]), 1000 if thorough else 420) for k in range(2500 if thorough else 420)]
    tests += [rand_scope(rnd, k, rnd.choice([1, 2, 2])) for k in range(1500 if thorough else 220)]
    ck.bounds = ['%d fixed shapes; random expressions of depth <= 5 mixing integer, double, float, long double, aggregates, calls with 1-9 arguments, statement expressions, VLA and alloca; random nested scopes of depth <= 2' % len(FIX), 'all values of the 3-7 inputs']
    ck.assume = ['floating operations are uninterpreted (their results are compared, not computed)', 'reference: clang -O0 code of the same program']
    equiv.run_all(ck, b, tests, each=22 if not thorough else 240, total=400 if not thorough else 3000)
