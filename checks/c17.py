"""every sub-expression with side effects is evaluated exactly as often, and in the order, the language fixes"""
import random
import core, equiv
from equiv import T
from gen import ITYPES, ID, BITS, UNS

# C<k>: how often site k was evaluated; L: order log (only used where the order is fixed)
PRE = ('static int n_; static long c_[16];\n'
       'static void L(long k) { if (n_ < 24) o[n_++] = k; }\n'
       'static int e(int k, int v) { c_[k]++; return v; }\n'         # counted, unordered
       'static int s(int k, int v) { L(k); return v; }\n'            # ordered
       'static long ls(int k, long v) { L(k); return v; }\n'
       'static double ds(int k, double v) { L(k); return v; }\n'
       'static void fin(void) { for (int i = 0; i < 16; i++) o[24 + i] = c_[i]; }\n')
OUT = 'long o[40]'

FIX = [
    # sequenced operators
    ('and', 'o[39] = s(1, x) && s(2, y);', 'int x, int y'), ('or', 'o[39] = s(1, x) || s(2, y);', 'int x, int y'), ('comma', 'o[39] = (s(1, x), s(2, y), s(3, z));', 'int x, int y, int z'),
    ('cond', 'o[39] = s(1, x) ? s(2, y) : s(3, z);', 'int x, int y, int z'), ('elvis', 'o[39] = s(1, x) ?: s(2, y);', 'int x, int y'), ('elvisl', 'o[39] = ls(1, x) ?: s(2, y);', 'long x, int y'), ('elvisd', 'o[39] = (ds(1, x) ?: 2.0) > 1.0;', 'double x'),
    ('elvisside', 'int i = x; o[38] = i++ ?: 7; o[39] = i; int *p = (int[]){ x, y }; o[37] = *p++ ?: 9; o[36] = *p;', 'int x, int y'),
    ('chain', 'o[39] = s(1, x) && s(2, y) || s(3, z) && !s(4, x);', 'int x, int y, int z'), ('chain2', 'o[39] = (s(1, x) || s(2, y)) && (s(3, z) ? s(4, x) : s(5, y));', 'int x, int y, int z'),
    ('chainlog', 'if (!(s(1, x) && (s(2, y), s(3, z)))) L(9); else L(10); while (s(4, x) && s(5, !y)) { x = 0; } L(6);', 'int x, int y, int z'),
    ('landval', 'int i = 0; o[30] = x && ++i; o[31] = i; o[32] = y || ++i; o[33] = i; o[34] = (i++, x) && (i++, y); o[35] = i;', 'int x, int y'),
    ('mixtypes', 'o[39] = (s(1, x) && ds(2, y)) + (ds(3, y) || ls(4, z)) ;', 'int x, double y, long z') ,
    ('const0', 'o[39] = (0 && s(1, x)) + (1 || s(2, x)) ; o[38] = (s(3, x), 0) && s(4, x); o[37] = (s(5, x), 1) || s(6, y); o[36] = 1 ? s(7, x) : s(8, y); o[35] = 0 ? s(9, x) : s(10, y);', 'int x, int y'),
    ('const1', 'o[39] = s(1, x) && 0; o[38] = s(2, x) || 1; L(70); o[37] = s(3, x) * 0; L(71); o[36] = s(4, x) & 0; L(72); o[35] = s(5, x) ? 1 : 1; L(73); (void)(s(6, x) && 0); L(74); if (s(7, x) && 0) L(75); if (s(8, x) || 1) L(76); while (s(9, x) && 0) ; do ; while (s(10, y) && 0); for (; s(11, x) && 0;) ;', 'int x, int y'),
    ('zeroops', 'o[30] = s(1, x) - s(1, x); L(50); o[31] = 0 * s(2, x); L(51); o[32] = 0 & s(3, x); L(52); o[33] = s(4, x) << 0; L(53); o[34] = s(5, x) % 1; L(54); o[35] = 0 / (s(6, x) | 1); L(55); o[36] = (_Bool)s(7, x) > 1; L(56); o[37] = (unsigned)s(8, x) < 0u; L(57); o[38] = s(9, x) | -1;', 'int x'),
    ('unused', 's(1, x); (void)s(2, x); s(3, x) + 0; -s(4, x); !s(5, x); (char)s(6, x); s(7, x), s(8, x); s(9, x) ? s(10, x) : s(11, x); s(12, x) && s(13, y); *(volatile int *)&o[s(14, 3)]; ({ s(15, x); s(16, y); }); (struct { int a; }){ s(17, x) }; (int[2]){ s(18, x) }[0]; s(19, x) == 3; &o[s(20, 3)];', 'int x, int y'),
    ('unused2', '(void)(s(1, x) && s(2, y)); (void)(s(3, x) ? s(4, y) : 0); s(5, x) * 0; 0 * s(6, x); s(7, x) == s(7, x); (long)s(8, x); (double)s(9, x); (void)(0 ? s(10, x) : s(11, y)); (void)o[s(12, 2)]; for (s(13, x); n_ < 17; s(14, y)) s(15, x);', 'int x, int y'),
    # assignments: the lvalue is evaluated once
    ('opptr', 'static int v[4]; *(c_[1]++, &v[x & 3]) += e(2, y); *(c_[3]++, &v[1]) ^= e(4, x); for (int i = 0; i < 4; i++) o[i] = v[i];', 'int x, int y'),
    ('opidx', 'int v[6] = { 1, 2, 3, 4, 5, 6 }; int i = x & 3; v[i++] += y; v[i++] *= 3; v[--i] -= 2; o[20] = i; for (int k = 0; k < 6; k++) o[k] = v[k];', 'int x, int y'),
    ('opinc', 'int v[4] = { 1, 2, 3, 4 }; int *p = v; *p++ = x; *p++ += y; (*p)++; ++*p++; o[10] = (*p)--; o[11] = --*p; o[12] = p - v; for (int k = 0; k < 4; k++) o[k] = v[k];', 'int x, int y'),
    ('opbf', 'static struct S { int a : 5; unsigned b : 9; long c : 40; } v[3]; struct S *p = v; (p++)->a += x; (c_[1]++, p)->b = y; (p++)->b |= 3; p[c_[2]++].c -= x; v[e(3, 1)].b++; v[e(4, 1)].a--; o[0] = ++v[e(5, 2)].b; o[1] = v[e(6, 2)].c++; o[2] = p - v; for (int i = 0; i < 3; i++) { o[3 + i] = v[i].a; o[6 + i] = v[i].b; o[9 + i] = v[i].c; }', 'int x, int y'),
    ('opflt', 'static float f[3]; static double d[3]; static long double l[2]; f[e(1, 1)] += x; d[e(2, 2)] -= y; f[e(3, 1)]++; --d[e(4, 2)]; l[e(5, 1)] += 1; l[e(6, 1)]++; o[0] = *(int *)&f[1]; o[1] = *(long *)&d[2]; o[2] = l[1] == 2;', 'int x, int y'),
    ('opbool', 'static _Bool v[3]; v[e(1, 1)] += x; v[e(2, 2)] |= y; v[e(3, 0)]++; v[e(4, 1)] ^= 1; o[0] = v[0]; o[1] = v[1]; o[2] = v[2]; o[3] = v[e(5, 1)]--; o[4] = v[1];', 'int x, int y'),
    ('opptr2', 'static int v[9]; int *pp[2] = { v, v + 3 }; pp[e(1, 1)] += x & 3; pp[e(2, 0)]++; *pp[e(3, 0)]++ = y; o[0] = pp[0] - v; o[1] = pp[1] - v; o[2] = *--pp[e(4, 0)]; o[3] = v[1];', 'int x, int y'),
    ('opnest', 'int a = x, b = y; o[0] = a += b += 3; o[1] = a; o[2] = b; a = b = x; o[3] = a; int v[3] = { 0 }; v[v[1] += 1] += x; o[4] = v[0]; o[5] = v[1]; o[6] = (a = y) + 1; o[7] = (char)(a = x); short h; o[8] = h = x; unsigned char u; o[9] = u = y; o[10] = (u += 200) + 1; _Bool q; o[11] = q = x;', 'int x, int y'),
    ('opchar', 'signed char c = x; unsigned short u = y; o[0] = c++; o[1] = c; o[2] = --u; o[3] = u++; o[4] = u; o[5] = (c += 100); o[6] = (u <<= 3); o[7] = (c >>= 1); o[8] = (c /= 3); o[9] = -c++;', 'int x, int y'),
    ('opstruct', 'typedef struct { int a, b; long c; } S; static S v[3]; S t = { x, y, 3 }; v[e(1, 1)] = t; (c_[2]++, v)[2] = v[e(3, 1)]; S *p = v; *p++ = t; p->b = p[-1].a; o[0] = v[0].a; o[1] = v[1].b; o[2] = v[2].c; o[3] = (v[e(4, 0)] = v[e(5, 2)]).c; o[4] = p - v;', 'int x, int y'),
    ('opcond', '(void)0; static int a, b; *(s(1, x) ? &a : &b) += e(2, y); (s(3, x), a)++; o[30] = a; o[31] = b; o[32] = (s(4, x) ? a : b)++ ? 1 : 2;' .replace(' (s(3, x), a)++;', '').replace('(s(4, x) ? a : b)++', '(*(s(4, x) ? &a : &b))++'), 'int x, int y'),
    ('opvol', 'volatile int v = x; v += 2; v++; o[0] = v; volatile char *p = (volatile char *)&v; *p++ = y; o[1] = *p; o[2] = v; v; v = v;', 'int x, int y'),
    ('optype', 'int i = x; i += 2.5; o[0] = i; unsigned u = y; u -= 1L; o[1] = u; long l = x; l += 3u; o[2] = l; char c = y; c *= 3; o[3] = c; i >>= 1; i <<= (c & 3); i %= 7; i |= 0x100; i &= ~2; o[4] = i;', 'short x, short y'),
    ('opatomic', '_Atomic int a = x; static _Atomic long v[2]; a += 3; a++; o[0] = a--; o[1] = a; v[e(1, 1)] += y; v[e(2, 1)]++; o[2] = v[e(3, 1)] |= 5; v[e(4, 0)] *= 3; o[3] = v[1]; *(c_[5]++, &a) -= 1; o[4] = a;', 'int x, int y'),
    # unevaluated operands
    ('sizeof', 'int i = 0; o[0] = sizeof(i++); o[1] = sizeof i++; o[2] = sizeof(s(1, x)); o[3] = _Alignof(typeof(i++)); __typeof__(i++) j = 3; o[4] = j; o[5] = i; o[6] = sizeof(int[3]); o[7] = sizeof(s(2, 3) + 1L); o[8] = sizeof *(c_[3]++, &i);', 'int x'),
    ('generic', 'int i = 0; o[0] = _Generic(i++, int: s(1, x), long: s(2, x)); o[1] = _Generic(i++, default: 5, long: i++); o[2] = i; o[3] = _Generic(s(3, x), int: 1, default: s(4, x)); o[4] = _Generic((char)0, int: s(5, x), default: 7);', 'int x'),
    ('builtins', 'int i = 0; o[0] = __builtin_types_compatible_p(__typeof__(i++), int); o[1] = i; o[3] = __builtin_offsetof(struct { int a, b[4]; }, b[2]); o[4] = __builtin_expect(s(1, x), 3); o[5] = s(2, x) == __builtin_expect(y, 1);', 'int x, int y'),
    ('vlasize', 'int n = (x & 3) + 1; o[0] = sizeof(int[n++]); o[1] = n; int v[n][s(1, 3)]; o[2] = sizeof v; o[3] = sizeof v[n++]; o[4] = n; o[5] = sizeof(int[s(2, 5)][2]); typedef short T[s(3, 4)]; n = 9; T t; o[6] = sizeof t; o[7] = sizeof(T); o[8] = sizeof v[0]; char *p = (char *)&v[1]; o[9] = p - (char *)v;', 'int x'),
    ('vlaparam', 'o[0] = f(x & 7, 0, 0);', 'int x', 'static int f(int n, int (*a)[s(1, 4)], char b[n++]) { L(n); return sizeof *a + n; }\n'),
    ('vlacast', 'int n = 3; char b[64]; o[1] = sizeof(*(int (*)[s(1, n)])b); typeof(int[s(2, 2)]) *q = 0; o[2] = sizeof *q; o[3] = sizeof(typeof(*q));', 'int x'),
    ('vlacastadd', 'int n = 3; char b[64]; o[0] = (char *)((int (*)[n + (x & 3)])b + 1) - b;', 'int x'),
    ('vlatypeof', 'int n = (x & 3) + 1; int v[n]; typeof(v) w; n = 20; o[0] = sizeof w; typeof(int[n]) *p; n = 3; o[1] = sizeof *p; o[2] = sizeof(typeof(v)); typedef int T[n++]; o[3] = n; T a, b; o[4] = n; o[5] = sizeof a + sizeof b;', 'int x'),
    # initializers
    ('initonce', 'int i = 1; int v[4] = { [2] = i++, [0] = i * 100 > 0 }; struct { int a, b[2]; } t = { .b = { e(1, x) }, .a = e(2, y) }; o[0] = i; o[1] = v[2]; o[2] = t.a; o[3] = t.b[0]; struct { long a; char c[8]; } u = { e(3, x), "ab" }; o[4] = u.a; int *p = (int[]){ e(4, x), e(5, y), 3 }; o[5] = p[0] + p[2]; for (int k = 0; k < 3; k++) { int w = e(6, k); static int q = 5; q++; o[6 + k] = w + q; }', 'int x, int y'),
    ('initrange', 'int i = 0; int v[6] = { [1 ... 4] = 7 + x }; o[0] = v[0] + v[5]; o[1] = v[1]; o[2] = v[4]; o[3] = i;', 'int x'),
    # calls
    ('args', 'o[0] = g(e(1, x), e(2, y), e(3, 3)); o[1] = g(e(4, x), g(e(5, 1), e(6, 2), e(7, 3)), e(8, y)); int i = 0; o[2] = g(x, i++, y); o[3] = i;', 'int x, int y', 'static int g(int a, int b, int c) { return a - 3 * b + 7 * c; }\n'),
    ('argsmany', 'o[0] = h(e(1, x), e(2, y), 3, e(3, 4), 5, e(4, 6), e(5, 7), e(6, 8), e(7, 9), 1.0, e(8, 2));', 'int x, int y', 'static long h(long a, long b, long c, long d, long e_, long f, long g, int hh, short i, double j, int k) { return a + 2 * b + 3 * c + 4 * d + 5 * e_ + 6 * f + 7 * g + 8 * hh + 9 * i + (int)j + 11 * k; }\n'),
    ('fnexpr', 'o[0] = (s(1, x) ? p1 : p2)(3); int (*t[2])(int) = { p1, p2 }; o[1] = t[e(2, y & 1)](4); o[2] = (*t[e(3, 1)])(5); o[3] = (c_[4]++, p1)(e(5, 2));', 'int x, int y', 'static int p1(int a) { return a + 1; } static int p2(int a) { return a * 10; }\n'),
    ('structret', 'o[0] = mk(e(1, x)).b; o[1] = mk(e(2, y)).v[e(3, 1)]; S t = mk(e(4, x)); o[2] = t.a; o[3] = (mk(e(5, 3)), e(6, 4)); o[4] = mk2(e(7, x)).c[2];', 'int x, int y', 'typedef struct { int a, b; int v[2]; } S; static S mk(int k) { c_[8]++; return (S){ k, k + 1, { k + 2, k + 3 } }; } typedef struct { long c[5]; } B; static B mk2(int k) { c_[9]++; return (B){ { k, 2, k + 3 } }; }\n'),
    ('stmtexpr', 'o[0] = ({ s(1, x); int q = s(2, y); q + s(3, 1); }) ; o[1] = e(4, ({ e(5, x); 3; })); int i = 0; o[2] = ({ i++; ({ i++; i; }); }) ; o[3] = i; for (int k = 0; k < 2; k++) o[4] += ({ e(6, k); k + i++; }); ({ if (x) e(7, 1); else e(8, 1); });', 'int x, int y'),
    ('loopcond', 'for (int i = s(1, 0); s(2, i < 2); s(3, i++)) s(4, i); int k = 2; while (s(5, k--)) s(6, k); do s(7, k); while (s(8, ++k < 1)); switch (s(9, x)) { case 0: case 1: s(10, 0); }', 'int x'),
    ('incmix', 'int a = x, b = y; o[0] = a++ + b--; o[1] = a; o[2] = b; o[3] = ++a * 2; o[4] = -(b--) ; o[5] = !(a++); o[6] = a; o[7] = b; o[8] = (a++, a++, a); o[9] = a-- > b++ ? a : b; o[10] = a += b++; o[11] = b;', 'short x, short y'),
    ('ptrside', 'int v[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }; int *p = v; o[0] = *p++ + 10 * x; o[1] = *++p; o[2] = p++[1]; o[3] = p - v; o[4] = (p++, *p); o[5] = *(p += 1); o[6] = p-- - v; o[7] = *p; char *q = (char *)p; q += 4; o[8] = *(int *)q; o[9] = (p++)[x & 1];', 'int x'),
    ('compound', 'struct { int a; } *p; int k = 2; while (k--) { p = (void *)&(struct { int a; }){ e(1, k + x) }; o[k] = p->a; } o[2] = ((int[]){ e(2, 1), e(3, x) })[1]; o[3] = (struct { int a, b; }){ .b = e(4, x) }.b; o[4] = sizeof((int[]){ e(5, 1), 2 });', 'int x'),
    ('casts', 'o[0] = (char)e(1, x); o[1] = (_Bool)e(2, x); o[2] = (long)e(3, x); o[3] = (int)(double)e(4, y); o[4] = (unsigned char)(e(5, x) + e(6, y)); (void)e(7, x); o[5] = !!e(8, x); o[6] = -e(9, y);', 'short x, short y'),
    ('deadbranch', 'if (0) { e(1, x); } if (1) e(2, x); else e(3, y); while (0) e(4, x); for (; 0;) e(5, x); do e(6, x); while (0); o[0] = 0 ? e(7, x) : e(8, y); o[1] = (1, 0) && e(9, x); if (sizeof(e(10, x)) == 4) e(11, 1); switch (2) { case 1: e(12, 1); case 2: e(13, 2); }', 'int x, int y'),
]


class G:
    """random expressions; e(k, v) sites anywhere, ordered sites under sequenced operators only"""

    def __init__(self, r, vs): self.r, self.v, self.k, self.so = r, vs, 0, 0

    def site(self, v):
        self.k += 1
        return 'e(%d, %s)' % (self.k % 16, v)

    def g(self, d):
        r = self.r
        if d <= 0: return self.site(r.choice(self.v)) if r.random() < .6 else r.choice(self.v + ['0', '1', '3', '-2'])
        k = r.random()
        P = lambda: '(%s)' % self.g(d - 1)
        if k < .12: return '%s && %s' % (P(), P())
        if k < .24: return '%s || %s' % (P(), P())
        if k < .36: return '%s ? %s : %s' % (P(), P(), P())
        if k < .42: return '%s ?: %s' % (P(), P())
        if k < .5: return '%s, %s' % (P(), P())
        if k < .66: return '%s %s %s' % (P(), r.choice(['+', '-', '&', '|', '^', '<', '==', '>=', '!=']), P())
        if k < .7: return '%s %s 0' % (P(), r.choice(['*', '&', '&&', '||', '|', '+']))
        if k < .73: return '0 %s %s' % (r.choice(['*', '&', '&&', '||', '|', '+']), P())
        if k < .77: return '1 %s %s' % (r.choice(['&&', '||', '?: ', '| ']), P())
        if k < .83: return '%s%s' % (r.choice(['!', '-', '~', '(char)', '(_Bool)', '(unsigned)', '!!', '(long)']), P())
        if k < .88: self.k += 1; return 'w[%s & 3] %s %s' % (P(), r.choice(['=', '+=', '-=', '^=', '|=']), self.site(self.r.choice(self.v)))
        if k < .91: return 'w[%s & 3]%s' % (P(), r.choice(['++', '--']))
        if k < .94: return 'sizeof(%s) + %s' % (P(), P())
        if k < .97: return '({ %s; %s; })' % (P(), P())
        return '*(%s, &w[%s & 3]) %s 3' % (P(), P(), r.choice(['+=', '=', '^=']))


def rand_prog(rnd, k):
    while True:
        g = G(rnd, ['x', 'y', 'w[2]'])
        es = [g.g(rnd.choice([2, 3])) for _ in range(2)]
        # array updates inside unsequenced operators would be undefined: only pure sites there
        if all(ok(x) for x in es): break
    body = 'o[0] = (%s); ' % es[0] if rnd.random() < .7 else '(void)(%s); ' % es[0]
    body += rnd.choice(['if (%s) o[1] = 1; else o[1] = 2; ', 'o[1] = (%s); ', 'for (int i = 0; i < 2 && (%s); i++) o[1]++; ', 'switch ((%s) & 3) { case 0: o[1] = 5; break; case 1: o[1] = 6; }', '(%s); ', 'return (void)(%s), fin(); ']) % es[1]
    tys = [rnd.choice(['int', 'unsigned', 'short', 'int']) for _ in range(2)]
    return T('rnd%d' % k, PRE + 'static int w[4];\nvoid test(void) { %s for (int i = 0; i < 4; i++) o[4 + i] = w[i]; fin(); }' % body, '%s x, %s y' % tuple(tys), OUT, solver_ms=4000, maxpaths=100, timeout=10, traps=False)


def ok(e):
    """no unsequenced update/read of w: an update operator may only appear in programs without other unsequenced uses"""
    ups = sum(e.count(x) for x in ('] =', '] +=', '] -=', '] ^=', '] |=', ']++', ']--', ') +=', ') =', ') ^='))
    return ups == 0 or (ups == 1 and e.count('w[') == 1)


def run(ck, thorough):
    rnd = random.Random(core.SEED + 17)
    b = core.Build()
    tests = []
    for f in FIX:
        n, st, ins = f[:3]
        d = f[3] if len(f) > 3 else ''
        tests.append(T('x_' + n, PRE + d + 'void test(void) { %s fin(); }' % st, ins, OUT, solver_ms=8000, maxpaths=300, traps=False))
    # compound assignment through a lvalue with side effects: every type x operator
    for ty in ITYPES + ['_Bool', 'float', 'double', 'long double']:
        for op in ['+=', '-=', '&=', '|=', '^=', '<<=', '>>=', '*=', '++', '--', 'p++', 'p--', '=']:
            flt = ty in ('float', 'double', 'long double')
            if flt and op in ('&=', '|=', '^=', '<<=', '>>='): continue
            for lv, decl in [('(*f(x))', ''), ('v[i++]', ''), ('(*p++)', ''), ('q++->m', ''), ('gv[(c_[1]++, x & 1)].m', '')]:
                if rnd.random() > (1 if thorough else .4): continue
                st = {'++': '++%s' % lv, '--': '--%s' % lv, 'p++': '%s++' % lv, 'p--': '%s--' % lv}.get(op, '%s %s %s' % (lv, op, '(y & 7)' if '<<' in op or '>>' in op else 'y'))
                use = rnd.choice(['%s;', 'r = %s;', '(void)(%s);', 'r = (%s, 1);'])
                sh = lambda e: 'o[n++] = (long)(%s);' % e if not flt else 'o[n++] = (%s) == 1; o[n++] = (%s) > 3;' % (e, e)
                src = PRE + 'typedef %s A; struct S { char c; A m; short z; }; static struct S gv[3]; static A v[3]; static A *f(int k) { c_[0]++; return &v[k & 1]; }\n' % ty
                ini = 'v[0] = %s; v[1] = 1; gv[0].m = v[0]; gv[1].m = 5;' % ('a' if not flt else '1')
                src += 'void test(void) { %s int i = 0, n = 4; A *p = v, r = 0; struct S *q = gv; (void)q; (void)p; (void)i; %s ' % (ini, use % st)
                src += sh('v[0]') + sh('v[1]') + sh('gv[0].m') + sh('gv[1].m') + (sh('r') if 'r =' in use else '') + ' o[n++] = i; o[n++] = p - v; o[n++] = q - gv; fin(); }'
                if flt and op == '*=': continue
                tests.append(T('lv_%s_%d_%s_%s' % (ID[ty], len(tests), {'+=': 'add', '-=': 'sub', '&=': 'and', '|=': 'or', '^=': 'xor', '<<=': 'shl', '>>=': 'shr', '*=': 'mul', '=': 'set'}.get(op, op.replace('+', 'i').replace('-', 'd')), use[0]),
                               src, '%s a, int x, int y' % (ty if not flt else 'int'), OUT, solver_ms=6000, traps=False))
    tests += [rand_prog(rnd, k) for k in range(3000 if thorough else 700)]
    ck.bounds = ['%d fixed shapes, compound assignment/increment of 12 operand types through 5 side-effecting lvalues, random expressions of depth <= 3 with counted sites' % len(FIX), 'all values of the 2-3 input variables', '<= 24 ordered events']
    ck.assume = ['order is compared only where C fixes it; other sites are compared by evaluation count', 'reference: clang -O0 code of the same program']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
