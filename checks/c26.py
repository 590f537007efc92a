"""the options that select how code is generated do not change what the program does"""
import itertools, random
import core, equiv
from equiv import T

# (name, declarations and functions, body, inputs, outputs, parts)
EXT = 'int ei = 5; long el[4] = {1, 2, 3, 4}; struct S { char c; int n; double d; } es = {1, 2, 3.5}; char *ep = "ext"; int ef(int a) { return a * 3 + ei; } double ed(double a, float b) { return a + b; } struct S est(int n) { struct S s = {n, n + 1, n + 2}; return s; } _Thread_local int et = 7; _Thread_local long eta[3] = {1, 2, 3}; int (*efp)(int) = ef; int *eip = &ei; int ev(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); int r = 0; while (n--) r = r * 10 + __builtin_va_arg(ap, int); __builtin_va_end(ap); return r; }'
EXTH = 'struct S { char c; int n; double d; }; extern int ei; extern long el[]; extern struct S es; extern char *ep; int ef(int); double ed(double, float); struct S est(int); extern _Thread_local int et; extern _Thread_local long eta[]; extern int (*efp)(int); extern int *eip; int ev(int, ...);\n'
PR = [
 ('extdata', EXTH, 'ei += x; el[x & 3] = y; es.n = x; es.d += 1; o[0] = ei; o[1] = el[1] + el[3]; o[2] = es.n + es.c; o[3] = (long)es.d; o[4] = *eip + ep[x & 1]; int *p = &ei, *q = &es.n; *q -= 2; o[5] = *p + es.n; o[6] = &el[2] - el;'),
 ('extcall', EXTH, 'o[0] = ef(x); int (*f)(int) = ef; o[1] = f(y); o[2] = efp(x + 1); o[3] = f == efp; f = x ? ef : 0; o[4] = f ? f(2) : 3; struct S s = est(x & 15); o[5] = s.c + s.n; o[6] = est(y & 7).n; o[7] = ev(3, 1, x & 7, 2);'),
 ('extfp', EXTH, 'double d = ed(x, 2.5f); o[0] = d < 3.5; o[1] = (long)ed(1.5, 2.5f); float f = x & 255; double z = 0.0; o[3] = d == z; o[4] = ed(x, 0) < 1e10; long double l = x; o[5] = (int)(l / 4.5L); o[2] = f + 0.25f < 7; o[6] = (x > 0) + (int)es.d;'),
 ('statics', 'static int s = 3; static long t[5] = {9, 8, 7}; static struct { char c; short h; } u = {1, 2}; static int f(int a) { static int n = 4; n += a; return n + s; } static int (*fp)(int) = f; static const char *str[] = {"ab", "cd"}; static int z; static int *zp = &z; static long *tp = t + 2; inline static int un(void) { return 77; }\n', 's += x; t[y & 3] -= x; u.h = y; z = x; o[0] = f(1); o[1] = fp(2) + f(s); o[2] = t[0] + t[1] * 2 + *tp; o[3] = u.c + u.h; o[4] = str[x & 1][y & 1]; o[5] = *zp; o[6] = fp == f; o[7] = &t[1] - t + un();'),
 ('tls', EXTH + '_Thread_local int a = 4; static _Thread_local long b[3] = {1, 2, 3}; static _Thread_local char c; _Thread_local struct { int p; char q[5]; } d; int *ga(void) { return &a; } static int loc(int n) { static _Thread_local int k = 6; k += n; return k; }\n', 'a += x; b[x & 1] = y; c = x; d.q[2] = y; d.p = a; et += x; eta[1] -= y; o[0] = a + et; o[1] = b[0] + b[1] + b[2]; o[2] = c + d.q[2]; o[3] = d.p + *ga(); o[4] = eta[0] + eta[1] * 2; o[5] = loc(x) + loc(1); int *p = &et; *p += 3; o[6] = et; o[7] = &b[2] - b + (&a == ga());'),
 ('tlscall', EXTH + '_Thread_local int a = 4; static int g(int p, int q, int r, long s, char t, short u, int v) { return p + q * 2 + r * 3 + s * 4 + t * 5 + u * 6 + v * 7 + a; }\n', 'o[0] = g(a, x, et, y, a + 1, eta[1], x + a); o[1] = ef(a) + ef(et); o[2] = a + et * (x + a) - eta[x & 1]; double dd = a + 0.5; o[3] = (long)(dd * 2); et = a = x; o[4] = et; o[5] = (a ? et : y) + (a && et); a <<= 1; o[6] = a++ + --et; o[7] = a;'),
 ('weak', 'int w __attribute__((weak)); int wf(void) __attribute__((weak)); extern int wu __attribute__((weak)); int wd __attribute__((weak)) = 6; int wg(int) __attribute__((weak)); int wg(int a) { return a + 1; }\n', 'o[0] = &wu ? 5 : 6; o[1] = wf ? 7 : 8; w += x; o[2] = w; wd ^= y; o[3] = wd; o[4] = wg(x); int (*p)(int) = wg; o[5] = p(y); int *q = &wd; o[6] = *q; if (wf) o[7] = wf();'),
 ('tent', 'int a; int a; long b[]; int c = 3; int c; static int d; static int d; extern int e; int e; struct T t; struct T { int p; char q; } t; char b2[3]; long b[4];\n', 'a = x; b[1] = y; d += x; e = y; t.p = x; t.q = y; b2[x & 1] = 3; o[0] = a + b[0] + b[1]; o[1] = c; o[2] = d + e; o[3] = t.p + t.q; o[4] = b2[0] + b2[1] * 2; int *p = &a; *p += 1; o[5] = a; o[6] = sizeof b; o[7] = &b[2] - b;'),
 ('vis', 'int h __attribute__((visibility("hidden"))) = 3; __attribute__((visibility("hidden"))) int hf(int a) { return a + h; } int pv __attribute__((visibility("protected"))) = 4; int di __attribute__((visibility("default"))) = 5; static int al(void) __attribute__((alias("tgt"))); int tgt(void) { return h + pv + di; } int sec __attribute__((section(".mydata"))) = 8;\n', 'h += x; pv -= y; di ^= x; sec += y; o[0] = hf(x); o[1] = pv + di; o[2] = tgt(); int (*f)(int) = hf; o[3] = f(2); o[4] = sec; int *p = &pv; o[5] = *p;'.replace('o[2] = tgt();', 'o[2] = tgt() + al();')),
 ('ptrinit', EXTH + 'static int s[4] = {1, 2, 3, 4}; int g[3] = {5, 6, 7}; int *p1 = s + 2, *p2 = &g[1], *p3 = &ei, *p4[] = {s, g + 2, &s[3], 0}; int (*f1)(int) = ef; static int sf(int a) { return a - 1; } int (*f2[])(int) = {sf, ef, &sf}; char *c1 = "hello" + 1, *c2[2] = {"x", &"yz"[1]}; long *l1 = el + 2; struct { int *p; char *c; } st = {&g[2], "q"}; double *dp = &es.d; long dif = (long)sizeof(s);\n', 'o[0] = *p1 + p2[x & 1] + *p3; o[1] = *p4[x & 1] + p4[2][0] + !p4[3]; o[2] = f1(x) + f2[0](y) + f2[1](2) + f2[2](3); o[3] = c1[0] + c2[0][0] + c2[1][0]; o[4] = *l1; o[5] = *st.p + st.c[0]; o[6] = (long)*dp; o[7] = dif + (f2[0] == sf);'),
 ('swi', '', 'int r = 0; switch (x) { case 0: r = 1; break; case 1 ... 5: r = 2; case 7: r += 3; break; case -3: r = 9; break; case 1000: r = 4; default: r += 5; } o[0] = r; static void *t[] = {&&a, &&b, &&c}; goto *t[(unsigned)y % 3]; a: r += 10; b: r += 20; c: o[1] = r; void *q = x ? &&d : &&e; goto *q; d: o[2] = 1; e: o[3] = 2; for (int i = 0; i < (x & 3); i++) { if (i == 1) continue; o[4] += i + 1; }'),
 ('scopes', 'static void put(int *p, int v) { *p = v; }\n', 'int s = x; { int a[3] = {x, y, 1}; put(&a[1], 5); o[0] = a[0] + a[1] + a[2]; } { long b = y; char c[5] = "abc"; int d; put(&d, x); o[1] = b + c[1] + d; } { int e; put(&e, s); { int f = e + 1; put(&f, f + y); o[2] = e * 2 + f; } { int g = 3, h[2]; put(h, g); put(h + 1, e); o[3] = g + h[0] + h[1]; } o[4] = e; } for (int i = 0; i < 2; i++) { int k = i; put(&k, k + x); o[5] += k; int l[2] = {k}; o[6] += l[0] + l[1]; } o[7] = s;'),
 ('scopes2', 'struct B { long v[5]; }; static struct B mk(int n) { struct B b = {{n, n + 1, n + 2, n + 3, n + 4}}; return b; } static long sum(struct B b) { return b.v[0] + b.v[2] * 3 + b.v[4]; }\n', 'int *p; long t = 0; if (x) { int a = y; p = &a; *p += 2; t += a; } else { long a = y; long *q = &a; *q -= 2; t += a; } { struct B b = mk(x); t += sum(b); } { struct B c = mk(y), d = c; d.v[2] = x; t += sum(d) - sum(c); } o[0] = t; o[1] = sum(mk(1)) + mk(x).v[3] + ({ struct B e = mk(y); e.v[1]; }); { char s[9] = {x}; struct B f = mk(s[0] + s[8]); o[2] = sum(f); } o[3] = (struct B){{x, y}}.v[1] + ((struct B){{3}}).v[4]; int *r = &(int){x}; { int u = 7; int *w = &u; *w = y; o[4] = u + *r; }'),
 ('alloca', 'static void put(char *p, int v) { *p = v; }\n', 'int n = (x & 3) + 1; { char v[n]; put(v, y); v[n - 1] = 3; o[0] = v[0] + sizeof v; } { int w[n + 1]; w[0] = x; w[n] = y; { char z[n]; put(z, 5); o[1] = z[0]; } o[2] = w[0] + w[n]; } char *a = __builtin_alloca(n + 8); put(a, x); a[n + 7] = 6; { int k = 4; int *kp = &k; *kp += y; o[3] = k; } o[4] = a[0] + a[n + 7];'),
 ('consts', 'static inline int sq(int a) { return a * a; }\n', 'int k = 3 + 4 * 2; o[0] = x * 8 + k; o[1] = x / 4 + y % 16; o[2] = (x + 0) * 1 + (y | 0) + (x & -1) + (x ^ 0); o[3] = (unsigned)x / 7 + y / -5; o[4] = x - -3 + (y << 3 >> 1); o[5] = (x == y) + !x * 2 + (x < 5 && y > 3) * 4; o[6] = (char)x + (short)y + (unsigned char)(x + 1); if (0) o[7] = 1; else o[7] = 2; if (1 || x) o[7] += 4; while (0) o[7]++; o[7] += 1 ? x : y; o[0] += sq(k);', ),
 ('arith', '', 'long a = x, b = y; unsigned u = x, v = y; char c = x; o[0] = a * b + (u > v) + (u >> (v & 31)); o[1] = (a < b ? a : b) - c * 5; int i = x; i += y; i ^= c; i <<= 2; o[2] = i++ + --i; short s = y; s += 1; o[3] = s; unsigned long w = u; w *= 0x100000001UL; o[4] = w >> 7; o[5] = -a + ~b + !u; _Bool t = x & 2; t ^= 1; o[6] = t + (t ? 10 : 20); o[7] = (v ? u / v : 0) + (v ? u % v : 1);'),
 ('addr', EXTH + 'struct N { struct { short a[3]; struct S s[2]; } m[2]; int *p; }; static struct N n; struct N gn;\n', 'struct N l, *q = &l; n.m[x & 1].a[2] = y; gn.m[1].s[x & 1].n = x; q->m[0].s[1].c = y; q->p = &q->m[0].s[x & 1].n; *q->p = 4; n.p = &gn.m[1].s[0].n; o[0] = n.m[0].a[2] + n.m[1].a[2]; o[1] = gn.m[1].s[0].n + gn.m[1].s[1].n * 2; o[2] = l.m[0].s[1].c + *l.p; o[3] = *n.p; n = gn; o[4] = n.m[1].s[1].n; l = n; o[5] = q->m[1].s[0].n; struct S *sp = &gn.m[1].s[1]; sp--; o[6] = sp->n + (sp == gn.m[1].s); el[0] = es.n; o[7] = *(el + (x & 1));'),
 ('str', 'char g[] = "glob"; static char *t = "tab"; const char *f(void) { return __func__; } int *cl = (int[]){3, 4, 5}; static struct Q { char *s; int n; } *qp = &(struct Q){"cl", 6};\n', 'char l[] = "local", *p = "lit" "eral"; g[0] = x; l[1] = y; o[0] = g[0] + g[3] + l[1] + l[4]; o[1] = p[x & 3] + t[y & 1]; o[2] = f()[0] + __func__[1]; cl[1] = x; o[3] = cl[0] + cl[1] + cl[2]; o[4] = qp->s[1] + qp->n; qp->n = y; o[5] = qp->n; o[6] = sizeof l + sizeof g; int *w = (int[2]){x, y}; o[7] = w[0] - w[1];'),
 ('fnptr', EXTH + 'static int a1(int x) { return x + 1; } int a2(int x) { return x * 2; } typedef int F(int); F *tab[3] = {a1, a2, ef}; static F *pick(int n) { return n == 0 ? a1 : n == 1 ? &a2 : *ef; } int cb(F *f, int n) { return f(n) + (*f)(n + 1); }\n', 'o[0] = tab[(unsigned)x % 3](y & 255); o[1] = pick(x & 3)(y & 255); o[2] = cb(a1, x & 255) + cb(a2, y & 255) + cb(ef, 3); F *p = tab[0]; o[3] = p == a1; p = a2; o[4] = p(x & 255) + (&p)[0](1); o[5] = pick(1) == a2; o[6] = (x ? a1 : a2)(y & 255); o[7] = (0, a2)(4) + (*&a1)(5);'),
 ('atomic', EXTH + '_Atomic int a = 3; static _Atomic long b; _Thread_local _Atomic short c = 4;\n', 'a += x; b = y; b++; c -= x; o[0] = a; o[1] = b; o[2] = c; o[3] = a++ + --b; a |= 5; o[4] = a; c *= 3; o[5] = c; o[6] = __atomic_exchange_n(&ei, x, 5) + ei;'.replace('__atomic_exchange_n(&ei, x, 5) + ei', 'ei')),
 ('bits', 'struct F { int a : 5; unsigned b : 9; long c : 40; } f = {1, 2, 3}; static struct F s; _Thread_local struct F t = {3, 4, 5};\n', 'f.a = x; f.b += y; s.c = x; t.b = y; t.a++; t.c -= x; o[0] = f.a + f.b * 2; o[1] = f.c + s.c; o[2] = t.a + t.b; o[3] = t.c; s = f; o[4] = s.b; struct F *p = &t; p->b ^= 3; o[5] = t.b; o[6] = ++f.a; o[7] = p->c++;'),
 ('cond', EXTH, 'o[0] = (x ? ei : et) + (y ? el : eta)[1]; o[1] = x && ef(x) || y; int *p = x > y ? &ei : &et; *p = 9; o[2] = ei + et; o[3] = (x ?: ei) + (ep ? ep[0] : 0); if (ei && (et || x)) o[4] = 1; if (!ef || y) o[5] = 2; o[6] = ef ? 3 : 4; struct S s = x ? es : est(3); o[7] = s.n;'),
]
PIC = [(), ('-fPIC',), ('-fpie',), ('-fno-pic',), ('-fpic', '-fPIE')]
OPT = [(), ('-O0',), ('-O2',)]
MISC = [(), ('-fstack-reuse=none',), ('-ffunction-sections', '-fdata-sections'), ('-fcommon',), ('-fno-common',), ('-fstack-reuse=all', '-fdata-sections'), ('-g',), ('-fvisibility=hidden',), ('-g', '-ffunction-sections', '-fcommon')]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 26)
    b = core.Build()
    tests = []
    for name, decl, body, *_ in PR:
        src = decl + 'void test(void) { ' + body + ' }\n'
        usesext = 'ef(' in decl
        parts = [(EXT, 'R')] if usesext else []
        tls = '_Thread_local' in decl
        pics = PIC + ([('-femulated-tls',), ('-femulated-tls', '-fPIC')] if tls else [])
        combos = list(itertools.product(pics, OPT, MISC))
        if not thorough:      # every position mode, and each further option somewhere
            ms = MISC[:]; rnd.shuffle(ms)
            combos = [(p, OPT[(i + j) % 3], ms[(i * 2 + j) % len(ms)]) for i, p in enumerate(pics) for j in range(2)] + [(rnd.choice(pics), OPT[1], ms[-1])]
        for k, fl in enumerate(combos):
            f = fl[0] + fl[1] + fl[2]
            emu = '-femulated-tls' in f
            nopie = '-fno-pic' in f
            # with emulated TLS every part goes through slimcc, which otherwise is the reference compiler's code
            pp = [(x, 'D' if emu else w) for x, w in parts] if k % 3 else [(x, 'D') for x, w in parts]
            tests.append(T('%s_%d_%s' % (name, k, ''.join(f).replace('-f', '_').replace('=', '_')), src, 'int x, int y', 'long o[8]', parts=pp, flags=f or ('-std=c17',), traps=False, timeout=60,
                           ldflags=('-no-pie',) if nopie else ('-pie',)))
    ck.bounds = ['%d programs x option combinations (%s): all values of two int inputs' % (len(PR), 'position modes x optimisation x 9 sets of other options' if thorough else 'every position mode with sampled other options')]
    ck.assume = ['reference: clang -O0 code of the same program', 'linking as one executable; symbol interposition between shared objects is not modelled']
    equiv.run_all(ck, b, tests, each=80 if not thorough else 240, total=600 if not thorough else 3000)
