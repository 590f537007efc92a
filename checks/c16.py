"""control flow: the sequence of executed statements is logged and compared for every value of the controlling expressions"""
import random
import core, equiv
from equiv import T
from gen import ITYPES, ID, BITS, UNS

LOG = 'static int n_; static void E(long k) { if (n_ < %d) o[n_++] = k; }\n'
NL = 40


class S:
    """random statements; loops are bounded by counters"""

    def __init__(self, r, vars_, std=False):
        self.r, self.v, self.k, self.lab, self.loops, self.sw, self.decl, self.cnt = r, vars_, 0, 0, 0, 0, '', 0
        self.labels = []

    def E(self):
        self.k += 1
        return 'E(%d); ' % self.k

    def cond(self):
        r = self.r; a = r.choice(self.v); b = r.choice(self.v + ['0', '1', '5', '-1', '100', '0x7fffffff', '3000000000', '-2147483647L'])
        k = r.random()
        if k < .5: return '%s %s %s' % (a, r.choice(['<', '<=', '>', '>=', '==', '!=']), b)
        if k < .6: return a
        if k < .68: return '!%s' % a
        if k < .76: return '(%s & %d)' % (a, r.choice([1, 2, 4, 255]))
        if k < .83: return '(%s) && (%s)' % (self.cond(), self.cond())
        if k < .9: return '(%s) || (%s)' % (self.cond(), self.cond())
        if k < .95: return '!((%s) && !(%s))' % (self.cond(), self.cond())
        return r.choice(['0', '1', '!0', '1 && 0', '2 > 1', '(1, 0)', '0 ? 1 : 0'])

    def label(self, ty):
        r = self.r
        bits = BITS[ty]; u = ty in UNS
        lo, hi = (0, (1 << bits) - 1) if u else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        c = r.choice([0, 1, 2, 3, 7, 10, 100, -1, -2, -100, lo, hi, lo + 1, hi - 1, hi // 2, 127, 128, 255, 256, 32767, 65535, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40])
        return max(lo, min(hi, c))

    def lit(self, v):
        if v == -(1 << 63): return '(-9223372036854775807L - 1)'
        if v > (1 << 63) - 1: return '%dUL' % v
        if abs(v) >= 1 << 31: return '%dL' % v if v > 0 else '(%dL)' % v
        return str(v) if v >= 0 else '(%d)' % v

    def switch(self, d, loop, sw):
        r = self.r
        ty = r.choice(ITYPES)
        pty = ty if BITS[ty] >= 32 else 'int'
        used = []; body = ''
        n = r.choice([1, 2, 3, 4, 6])
        dflt = r.randrange(n + 3)
        for i in range(n):
            if i == dflt: body += 'default: ' + self.E() + ('break; ' if r.random() < .5 else '')
            v = self.label(pty if r.random() < .2 else ty)
            w = v
            if r.random() < .3: w = v + r.choice([1, 2, 5, 100, 1 << 20, 1 << 33])
            bits = BITS[pty]; hi = (1 << bits) - 1 if pty in UNS else (1 << (bits - 1)) - 1
            w = min(w, hi)
            if any(not (w < a or v > b) for a, b in used): continue
            used.append((v, w))
            body += 'case %s%s: ' % (self.lit(v), ' ... ' + self.lit(w) if w != v else '') + (self.stmts(d - 1, loop, True) if r.random() < .7 else '')
            if r.random() < .65: body += r.choice(['break; '] * 4 + (['continue; '] if loop else []) + ['return; '])
        return 'switch ((%s)%s) { %s} ' % (ty, r.choice(self.v + ['(%s + 1)' % self.v[0], '(%s ^ %s)' % (self.v[0], self.v[-1])]), body)

    def stmts(self, d, loop=False, sw=False):
        return ''.join(self.stmt(d, loop, sw) for _ in range(self.r.choice([1, 1, 2, 3] if d > 0 else [1])))

    def stmt(self, d, loop, sw):
        r = self.r
        if d <= 0 or r.random() < .15: return self.E()
        k = r.random()
        if k < .08: return 'if (%s) %s; ' % (self.cond(), r.choice((['break', 'continue'] if loop else ['break'] if sw else []) + ['return', 'E(%d)' % (900 + self.k)]))
        if k < .36: return 'if (%s) { %s} ' % (self.cond(), self.stmts(d - 1, loop, sw)) + ('else { %s} ' % self.stmts(d - 1, loop, sw) if r.random() < .6 else '')
        if k < .68: return self.switch(d, loop, sw)
        self.cnt += 1
        c = 'c%d' % self.cnt; self.decl += 'int %s = 0; ' % c
        b = r.choice([1, 2, 3])
        inner = self.stmts(d - 1, True, False)
        cond = self.cond()
        if k < .76: return 'while (%s++ < %d && (%s)) { %s} ' % (c, b, cond, inner)
        if k < .84: return 'do { %s} while (++%s < %d && (%s)); ' % (inner, c, b, cond)
        if k < .93: return 'for (%s = 0; %s < %d; %s++) { if (%s) continue; %s} ' % (c, c, b, c, cond, inner)
        self.lab += 1
        return 'l%d: if (%s++ < %d) { %sif (%s) goto l%d; } ' % (self.lab, c, b, self.stmts(d - 1, False, False), cond, self.lab)


def rand_prog(rnd, k, d):
    ins, vs, decl = [], [], ''
    for i in range(rnd.choice([1, 2, 2, 3])):
        t = rnd.choice(ITYPES); ins.append('%s x%d' % (t, i))
        if rnd.random() < .6: decl += '%s a%d = x%d; ' % (t, i, i); vs.append('a%d' % i)
        else: vs.append('x%d' % i)
    g = S(rnd, vs)
    body = g.stmts(d) + g.E() + g.stmts(d) + g.E()
    return T('rnd%d' % k, LOG % NL + 'void test(void) { %s%s%s}' % (decl, g.decl, body), ', '.join(ins), 'long o[%d]' % NL, solver_ms=8000, maxpaths=80, timeout=10)


def ksw():
    """switch with symbolic case labels; the reference is the if-chain"""
    out = []
    for ty in ITYPES:
        pty = ty if BITS[ty] >= 32 else 'int'
        for kn, kb, ks in (('i', 32, 1), ('u', 32, 0), ('l', 64, 1), ('ul', 64, 0)):
            K = [('K1', kb, ks), ('K2', kb, ks)]
            distinct = 'if ((%s)K1 == (%s)K2) __builtin_trap(); ' % (pty, pty)
            out.append(T('k2_%s_%s' % (ID[ty], kn), LOG % 4 + 'void test(void) { %s a = x; switch (a) { case K1: E(1); break; default: E(2); break; case K2: E(3); } E(4); }' % ty, ty + ' x', 'long o[4]', K=K,
                         ref=LOG % 4 + 'void test(void) { %s%s a = x; if ((%s)a == (%s)K1) E(1); else if ((%s)a == (%s)K2) E(3); else E(2); E(4); }' % (distinct, ty, pty, pty, pty, pty)))
            # narrow labels so that the range arithmetic stays defined
            rng = '(short)K1' if pty not in UNS else '(unsigned short)K1'
            out.append(T('kr_%s_%s' % (ID[ty], kn), LOG % 4 + 'void test(void) { switch (x) { case %s ... %s + 7: E(1); case 70000: E(2); break; } E(4); }' % (rng, rng), ty + ' x', 'long o[4]', K=[K[0]],
                         ref=LOG % 4 + 'void test(void) { %s a = x; %s lo = %s, hi = %s + 7; if (a >= lo && a <= hi) { E(1); E(2); } else if (a == 70000) E(2); E(4); }' % (pty, pty, rng, rng)))
            full = '(%s)K1' % pty
            f2 = '(%s)K2' % pty
            out.append(T('kf_%s_%s' % (ID[ty], kn), LOG % 4 + 'void test(void) { switch (x) { default: E(9); case %s ... %s: E(1); } E(4); }' % (full, f2), ty + ' x', 'long o[4]', K=K,
                         ref=LOG % 4 + 'void test(void) { %s a = x; %s lo = %s, hi = %s; if (lo > hi) __builtin_trap(); if (!(a >= lo && a <= hi)) E(9); E(1); E(4); }' % (pty, pty, full, f2)))
    for kn, kb, ks in (('i', 32, 1), ('u', 32, 0), ('l', 64, 1)):
        K = [('K1', kb, ks)]
        for tag, st in [('if', 'if (K1) E(1); else E(2);'), ('ifn', 'if (!K1) E(1); else if (x) E(2);'), ('and', 'if (K1 && x) E(1); else E(2);'), ('or', 'if (x || K1) E(1); else E(2);'), ('while', 'int c = 0; while (K1) { E(1); if (++c > 2) break; }'),
                        ('do', 'int c = 0; do { E(1); if (++c > 2) break; } while (K1);'), ('for', 'for (int c = 0; K1; c++) { E(c); if (c > 1) break; else continue; }'), ('swc', 'switch (K1) { case 0: E(0); break; case 1: E(1); default: E(2); case -1: E(3); }'),
                        ('mix', 'if ((K1 > 3) == (x > 3)) E(1); if ((x, K1)) E(2); if (x ? K1 : 0) E(3); if (!(x && K1)) E(4);'), ('cond', 'E(K1 ? 1 : 2); E(K1 ? x : 3);'), ('dead', 'if (K1) { goto in; if (0) { in: E(5); } } else { if (0) E(6); }'),
                        ('deadsw', 'switch (x) { if (K1) { case 1: E(1); } else { case 2: E(2); } while (0) { case 3: E(3); } E(4); }')]:
            out.append(T('kc_%s_%s' % (tag, kn), LOG % 8 + 'void test(void) { %s E(9); }' % st, 'int x', 'long o[8]', K=K))
    return out


FIX = [
    ('duff', 'void test(void) { int c = (x & 7); int m = 2; switch (c & 3) { case 0: do { E(0); case 3: E(3); case 2: E(2); case 1: E(1); } while (--m > 0); } }', 'int x'),
    ('cgoto', 'void test(void) { static void *t[] = { &&a, &&b, &&c }; int i = x & 3; if (i == 3) i = 1; goto *t[i]; a: E(1); b: E(2); if (y) goto *(&&c); return; c: E(3); }', 'int x, int y'),
    ('cgotol', 'void test(void) { void *p = x ? &&a : &&b; int k = 0; again: goto *p; a: E(1); p = &&b; if (k++ < 2) goto again; b: E(2); if (y && k++ < 3) { p = &&a; goto *p; } E(3); }', 'int x, int y'),
    ('gotoin', 'void test(void) { if (x) goto in; for (int i = 0; i < 2; i++) { E(1); in: E(2); if (y) break; i = 1; } E(3); }', 'int x, int y'),
    ('gotosw', 'void test(void) { switch (x) { case 1: goto l2; case 2: l2: E(2); break; case 3: { int k = 0; l3: E(3); if (++k < 3) goto l3; } default: E(4); goto l2; } E(5); }', 'int x'),
    ('nestsw', 'void test(void) { switch (x) { case 1: switch (y) { case 1: E(11); break; case 2: E(12); default: E(13); } case 2: E(2); break; case 3: while (1) { E(3); break; } break; default: switch (y) { case 5: return; } E(6); } E(7); }', 'int x, long y'),
    ('swdecl', 'void test(void) { switch (x & 3) { int i; case 0: i = 5; E(i); break; case 1: i = 6; default: i = 7; E(i); } }', 'int x'),
    ('swchar', "void test(void) { switch (x) { case 'a': E(1); break; case '\\377': E(2); break; case 200: E(3); break; case -56: E(4); break; default: E(5); } }", 'char x'),
    ('swuchar', "void test(void) { switch (x) { case 'a': E(1); break; case 255: E(2); break; case -1: E(3); break; case 256 + 97: E(4); break; default: E(5); } }", 'unsigned char x'),
    ('swenum', 'enum E { A, B = 5, C = -3 }; void test(void) { enum E e = x; switch (e) { case A: E(1); case B: E(2); break; case C: E(3); } switch (y) { case A ... B: E(4); } }', 'int x, long y'),
    ('swbool', 'void test(void) { switch (x) { case 0: E(1); break; case 1: E(2); } switch ((_Bool)y) { case 1: E(3); default: E(4); } }', '_Bool x, int y'),
    ('swexpr', 'static int f(int a) { E(50); return a; } void test(void) { switch (f(x) + f(1)) { case 3: E(1); break; case 4: E(2); } switch (x > y) { case 1: E(3); } switch (x ? y : 3) { case 3: E(4); break; default: E(5); } }', 'int x, int y'),
    ('swll', 'void test(void) { switch (x) { case 0x100000000: E(1); break; case 0x7fffffffffffffff: E(2); break; case -0x7fffffffffffffff - 1: E(3); break; case 0: E(4); break; case -1: E(5); break; case 0xffffffff: E(6); } }', 'long x'),
    ('swull', 'void test(void) { switch (x) { case 0x100000000: E(1); break; case 0xffffffffffffffff: E(2); break; case 0x8000000000000000 ... 0x8000000000000010: E(3); break; case 0: E(4); break; case 5 ... 0x100000: E(5); } }', 'unsigned long x'),
    ('swone', 'void test(void) { switch (x) { } switch (x) E(1); switch (x) default: E(2); switch (x) case 3: E(3); switch (x) { default: ; } E(4); }', 'int x'),
    ('emptyloop', 'void test(void) { int i; for (i = 0; i < 3; i++); E(i); while (i-- > 1); E(i); do ; while (++i < 2); E(i); if (x) ; else E(7); }', 'int x'),
    ('contdo', 'void test(void) { int i = 0; do { i++; if (x) continue; E(i); } while (i < 3); E(9); }', 'int x'),
    ('contfor', 'void test(void) { for (int i = 0; i < 3; E(100 + i), i++) { if (x == i) continue; if (y == i) break; E(i); } E(9); }', 'int x, int y'),
    ('forscope', 'void test(void) { int i = 9; for (int i = 0; i < 2; i++) { int i = 5; E(i); } E(i); for (int i = x, j = 0; j < 2 && i; j++, i--) E(j); }', 'int x'),
    ('retmid', 'static int f(int a) { while (1) { if (a > 3) return 1; switch (a) { case 1: return 2; case 2: break; default: return 3; } a += 2; } } void test(void) { E(f(x)); E(f(y) + f(2)); }', 'int x, int y'),
    ('retvoid', 'static void f(int a) { if (a) return; E(1); } static void g(int a) { return f(a); } void test(void) { f(x); g(y); E(3); }', 'int x, int y'),
    ('condchain', 'static int c(int k, int v) { E(k); return v; } void test(void) { if (c(1, x) && c(2, y) || c(3, z) && !c(4, x)) E(10); else E(11); while (c(5, 0) || c(6, y) && c(7, 0)) ; E(c(8, x) ? c(9, y) : c(12, z)); }', 'int x, int y, int z'),
    ('longcond', 'void test(void) { if ((unsigned char)x == 255 || (short)y < -5 && (unsigned)x > 0x80000000) E(1); if (!(x < y) && !(y <= x)) E(2); if (!!x == !!y) E(3); if ((x & y) == 0) E(4); if (x - y) E(5); }', 'int x, int y'),
    ('ptrcond', 'void test(void) { char *p = (char *)x; int *q = 0; if (p) E(1); if (!p) E(2); if (p && !q) E(3); if (p == 0 || q) E(4); E(p ? 5 : 6); while (p) { E(7); p = 0; } for (; !p;) { E(8); p++; } if (p == (char *)1) E(9); if (p > (char *)q) E(10); }', 'long x'),
    ('fcond', 'void test(void) { if (x) E(1); if (!x) E(2); while (y < x) { E(3); break; } if (x && y) E(4); if (x || y) E(5); if (!(x > y)) E(6); if (!(x <= y) == 0) E(7); E(x == y ? 8 : 9); do { E(10); if (n_ > 12) break; } while (x != x); }', 'float x, double y'),
    ('stexpr', 'void test(void) { E(({ int r; if (x) r = 1; else r = 2; r; })); int k = ({ int i; for (i = 0; i < 3; i++) if (i == y) break; i; }); E(k); if (({ E(20); x; })) E(21); switch (({ y; })) { case 2: E(({ E(3); 4; })); } }', 'int x, int y'),
    ('labname', 'typedef int T; void test(void) { goto T; E(1); T: E(2); { if (x) goto b; E(3); b: E(4); } int a = 5; goto a; E(6); a: E(a); }', 'int x'),
]
# constructs clang 18 does not have; the reference spells them out
FIX2 = [
    ('lbreak', 'void test(void) { outer: for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { if (j == x) continue outer; if (i == y) break outer; E(i * 10 + j); } E(5); } E(9); }',
     'void test(void) { for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { if (j == x) goto c; if (i == y) goto b; E(i * 10 + j); } E(5); c: ; } b: E(9); }', 'int x, int y'),
    ('lbreaksw', 'void test(void) { s: switch (x) { case 1: w: while (1) { E(1); switch (y) { case 1: break s; case 2: break w; case 3: E(3); break; default: break w; } E(4); y_ = 0; if (k++) break; } E(5); default: E(6); } E(7); }',
     'void test(void) { switch (x) { case 1: while (1) { E(1); switch (y) { case 1: goto s; case 2: goto w; case 3: E(3); break; default: goto w; } E(4); y_ = 0; if (k++) break; } w: E(5); default: E(6); } s: E(7); }', 'int x, int y'),
    ('lcontdo', 'void test(void) { int i = 0; d: do { i++; while (1) { if (x == i) continue d; if (y == i) break d; break; } E(i); } while (i < 3); E(9); }',
     'void test(void) { int i = 0; do { i++; while (1) { if (x == i) goto c; if (y == i) goto b; break; } E(i); c: ; } while (i < 3); b: E(9); }', 'int x, int y'),
    ('lnest', 'void test(void) { a: while (k++ < 2) { b: for (int i = 0; i < 2; i++) { do { if (x == i) break a; if (y == i) continue b; if (x == 7) continue a; E(i); } while (0); E(20); } E(30); } E(9); }',
     'void test(void) { while (k++ < 2) { for (int i = 0; i < 2; i++) { do { if (x == i) goto a; if (y == i) goto b; if (x == 7) goto c; E(i); } while (0); E(20); b: ; } E(30); c: ; } a: E(9); }', 'int x, int y'),
]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 16)
    b = core.Build()
    tests = [T('x_' + n, LOG % NL + s, i, 'long o[%d]' % NL, solver_ms=8000) for n, s, i in FIX]
    tests += [T('x_' + n, LOG % NL + 'static int k, y_;\n' + s, i, 'long o[%d]' % NL, ref=LOG % NL + 'static int k, y_;\n' + r, solver_ms=8000) for n, s, r, i in FIX2]
    tests += ksw()
    tests += [rand_prog(rnd, k, rnd.choice([1, 2, 2, 2] if not thorough else [1, 2, 2, 3])) for k in range(3000 if thorough else 150)]
    ck.bounds = ['random statement nests of depth <= 3 (if, switch with ranges/default/fallthrough, while, do, for, goto, break, continue, return), loops of <= 3 iterations, <= %d logged events, <= 250 paths' % NL,
                 'switches with two symbolic case labels / symbolic ranges for 8 scrutinee types and 4 label types', 'every value of the controlling variables']
    ck.assume = ['reference: clang -O0 code of the same program, or the if-chain the switch stands for; labelled break/continue against goto']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
