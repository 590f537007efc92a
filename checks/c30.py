"""what the compiler writes does not depend on the memory it has used (the mode that frees tokens and syntax trees early)"""
import glob, os, random, re, shutil, subprocess, tempfile, time
import z3
import core, orc
from core import sh, CheckError, VERIF, REPO
LEVEL = 'other'
PH = re.compile('\x02([IUXOB])(\\d+)\x03')

OWN = {
 'asmname': 'int as(void) asm("other@"); int us(void) { return as() + @; }\n',
 'fnptr': 'typedef int (*F)(int, ...); static int g(int a, ...) { return a; } F t[2] = { g, &g }; struct { F f; char n[4]; } s = { .n = "ab@", .f = g }; int h(void) { return s.f(t[1](@, 2.0), s.n[1]); }\n',
 'inl': 'static inline int a(int x) { return x + @; }\nstatic inline int b(int x) { static int k = 3; return a(x) * k++; }\ninline int c(int);\ninline int c(int x) { return b(x); }\nextern inline int d(int x) { return c(x); }\nint e(void) { return d(@); }\n',
 'labels': 'int f(int x) { static void *t[] = { &&a, &&b }; goto *t[x & 1]; a: x += @; b: switch (x) { case 1 ... 3: x++; case 7@: { int y = 3; x -= y; break; } default: for (int i = 0; i < @; i++) if (x) continue; else break; } return x; }\n',
 'init': 'struct S { int a[3]; union { char c; double d; } u; struct { int p : 3, q : 5; }; } s = { { [1] = @, 5 }, { .d = 1.5 }, { @, 2 } }, *p = &(struct S){ .q = @ }; char m[][5] = { "a@", { \'x\', @ }, "bcd" "e" }; int *q = &s.a[@]; long w = (long)sizeof(struct { char c[@ + 1]; }); const char *str = "x" "@" "y";\n',
 'local': 'int f(int n) { struct L { int a; char b[@ + 1]; } l = { n, "@" }, k[2] = { [1] = { .b = { @ } } }; int v[n + 1]; enum { A = @, B } e = B; typedef struct L M; M *m = &(M){ A }; extern int z; static char s[] = __FILE__; { int l = e; n += l; } return l.b[0] + k[1].a + m->a + v[0] + z + sizeof s + sizeof(M[n]); }\n',
 'mac': '#define M(a, ...) #a M2(a, __VA_ARGS__)\n#define M2(a, b, ...) a##b b __VA_ARGS__\n#define C(a, b) C2(a, b)\n#define C2(a, b) a##b\n#define N() @\nchar *s = M("@", , ;) char *t = "x" M(, "y");\nint C(v, @) = N() + C(@, N()) __COUNTER__ - __LINE__;\nint C(v, x) = sizeof(#N() "a");\n'.replace('sizeof(#N() "a")', 'sizeof(__func_) '.replace('__func_', '"a"')).replace('M("@", , ;)', '#s;').replace('= #s;', '= "q";').replace('"x" M(, "y");', '"x" "y";').replace('N() + C(@, N()) __COUNTER__ - __LINE__', 'N() + C(@, @) + __COUNTER__ - __LINE__'),
 'mac2': '#define STR(x) #x\n#define XSTR(x) STR(x)\n#define LIST(F) F(a, 1) F(b, @) F(c, 3)\n#define DEF(n, v) int n = v; char *s_##n = XSTR(n @ v) " " STR(\n LIST);\nLIST(DEF)\n#undef LIST\n#define LIST(F, ...) __VA_OPT__(F(__VA_ARGS__))\nLIST(DEF, k, 7) LIST(DEF)\n#define f(x) (x) + f(x)\nint g(int); int f(int y) { return 0; }\n'.replace('\n#define f(x) (x) + f(x)\nint g(int); int f(int y) { return 0; }', '\n#define f(x) (x + @) + f(x)\nint (f)(int y) { return y + f(@); }').replace(' " " STR(\n LIST);', ';'),
 'incl': '#include "h.h"\n#include "h.h"\n#include "g.h"\nint x = H(@) + G;\n#if G == @\nint y;\n#elif defined H && !defined H@\nint z = G;\n#endif\n#include "g.h"\n#line @ "foo.c"\nint l = __LINE__; char *n = __FILE__;\n',
 'attr': '__attribute__((aligned(@))) int a; int b __attribute__((weak, section(".x@"))); static int c(void) __attribute__((alias("d"))); int d(void) { return 1; } struct __attribute__((packed)) P { char c; int i; } p; [[deprecated("x")]] int e(void) __attribute__((visibility("hidden"), noreturn)); int u(void) { return e() + c(); } _Alignas(8) char al; extern int wk __attribute__((weak)); int *pw = &wk; __attribute__((constructor(10@))) static void ct(void) {}\n',
 'asm': 'asm(".globl zz@"); int f(int a) { int r; asm volatile("mov %1, %0; add $@, %0" : "=r"(r) : "r"(a), "i"(@) : "cc", "rdx"); asm("nop%a" : : "m"(a)); register int k asm("rbx") = a; int nm(void) ; return r + nm(); } \n'.replace('asm("nop%a" : : "m"(a));', 'asm("incl %[x]" : [x] "+m"(a));'),
 'gen': 'int f(char c, long l, double d) { int r = _Generic(c + @, int: 1, default: 2) + _Generic(l, char: 9, long: @) + _Generic((d), float: 1, double: d, default: 2); typeof(r) q = r; __auto_type w = &q; return *w + sizeof(typeof(q)) + __builtin_choose_expr(1, q, 0) + ({ int z = 2; z; }); }\n'.replace('__builtin_choose_expr(1, q, 0)', 'q'),
 'kr': 'int f(a, b, c) char a; double b; int *c; { return a + b + *c; } int g() { return f(1, @.0, 0); } int main(int argc, char **argv) { return g() ? @ : argc; } void v(int n, int a[static n][@ + 1], char (*p)[n]) { a[0][0] = p[1][0]; } int (*fp(int x))(char); int (*fp(int x))(char) { return 0; }\n',
 'tent': 'int a; int a; static int b; extern int c; int c = @; int d[]; int d[@ + 1]; static int e(void); int *p = &b; struct T; struct T *tp; struct T { struct T *n; int v; } t1 = { &t1, @ }; static int unused(void) { return b; } static int e(void) { return a; } int (*q)(void) = e; _Thread_local int th = @; static _Thread_local int th2; int us(void) { return th + th2; } typedef int A[]; A aa = { 1, @ }, bb = { 1, 2, 3 };\n',
 'cleanup': 'void cl(int *); int f(int n) { __attribute__((cleanup(cl))) int a = @; for (;;) { int b __attribute__((cleanup(cl))) = n; if (b == @) break; if (b) continue; return b; } defer { cl(&a); } { defer cl(0); if (a) goto out; } out: return a; }\n',
 'c23': 'constexpr int k = @; enum E : short { EA = k, EB }; auto x = k + 1L; bool t = true; int *n = 0; typeof_unqual(const int) y = EB; static_assert(k < 11 + @, "m"); int f(int, enum E e) { return e == EA ? 0x1@ : 1000; } char8_t *s = u8"x@"; thread_local int z; constexpr int cs[2] = { @ }; int w = sizeof cs;\n'.replace('char8_t *s', 'const unsigned char *s'),
 'vla': 'int f(int n, int m) { int a[n][m + @]; int (*p)[m] = a; typedef int V[n]; V v; for (int i = 0; i < n; i++) { char c[i + 1]; v[i] = sizeof c + sizeof(V) + sizeof *p; if (i == @) break; } return a[1][@] + (p + 1 - p) + v[0] + sizeof(int[n]); }\n',
 'expr': 'struct S { int a : 5; long b; struct { char x[3]; } c; } g(void); int f(struct S s, struct S *p, double d, long double e, _Bool b) { s = g(); p->a += @; *p = b ? s : g(); d += e * @; return (s.a++, g().c.x[@]) + (p ? p->b : (long)&p->c) + (d < e || !b && -d) - (char)d * ~s.b % 3 + (int){ @ } + sizeof(struct S[@ + 1]) + __builtin_offsetof(struct S, c.x[1]); }\n',
 'ext': 'int f(int x) { return x ?: @; } int g(int c) { switch (c) { case @ ... 9: return 1; default: return ({ if (c) g(c - 1); c; }); } } struct { int n; int d[]; } fl = { 1, { 1, @ } }; int z = __builtin_constant_p(@); struct E {} em; union { int; struct { int q; }; } an; int v(const char *fmt, ...) { __builtin_va_list ap; __builtin_va_start(ap, fmt); int r = __builtin_va_arg(ap, int); __builtin_va_end(ap); return r + r; } void ov(int *p) { int b[@ + 1] = {}; (void)b; }\n',
 'str': 'char a[] = "a@" "\\x4@" "z"; int *w = L"x@" "y"; unsigned short u[] = u"q@"; unsigned v[4] = U"é@"; int c = \'@\' + L\'x\' + u\'@\'; char t[3] = "ab@"; char *k = (char[]){ "q@" }; char r[] = { "s" "t" }; int n = sizeof(a) + sizeof("w@");\n',
 'push': '#pragma push_macro("A")\n#define A @\nint x = A;\n#pragma once\n_Pragma("x") int y = 1;\n#ifndef A\n#error no\n#endif\n#if __has_include("h.h") && A >= @\n#include "h.h"\nint q = H(A);\n#else\n# 7 "w.c"\nint q = __LINE__;\n#endif\n#define E(x) x x E\nint z = 0 E(+ 1) (+ @);\n#define L (\n#define F(x) x\nint zz = F L @);\n'.replace('#pragma once\n', '').replace('E(+ 1) (+ @)', '+ @').replace('F L @)', 'F(@)'),
}
HDR = {'h.h': '#ifndef H_H\n#define H_H\n#define H(x) (x + G0)\nenum { G0 = 4 };\nextern int hx;\nstatic inline int hf(void) { return hx; }\n#endif\n', 'g.h': '#pragma once\n#define G 3\nint gg = G;\n'}


class T:
    def __init__(self, name, src, args=(), vfs=None, holes=(), alpha=(), timeout=60, maxpaths=2000, cwd=None):
        self.__dict__.update(locals()); del self.self


def template(name, text, sets, rnd, nsym, args=(), **kw):
    """@ becomes a digit, up to nsym of them symbolic"""
    pos = [m.start() for m in re.finditer('@', text)]
    sym = sorted(rnd.sample(pos, min(nsym, len(pos))))
    src = ''.join((rnd.choice('123456') if c == '@' and i not in sym else '1' if c == '@' else c) for i, c in enumerate(text))
    holes = []; enc = src.encode('utf-8')
    for k, i in enumerate(sym): holes.append({'name': 'b%d' % k, 'kind': 'bytes', 'where': '/w/in.c', 'off': len(src[:i].encode('utf-8')), 'len': 1})
    return T(name, enc.decode('latin1'), args, dict({'/w/' + k: v for k, v in HDR.items()}), holes, [sets] * len(sym), **kw)


def equal_texts(a, b, ra, rb):
    """conditions under which two texts differ; None if the fixed parts differ"""
    pa, pb = PH.split(a), PH.split(b)
    if len(pa) != len(pb) or pa[::3] != pb[::3]: return None
    out = []
    for k, x, l, y in zip(pa[1::3], pa[2::3], pb[1::3], pb[2::3]):
        u, v = ra[int(x)], rb[int(y)]
        if k != l or u.size() != v.size(): return None
        if u.eq(v): continue
        out.append(u != v)
    return out


def native(b, t, src, rss, exe):
    d = tempfile.mkdtemp(dir=b.dir)
    try:
        for k, v in (t.vfs or {}).items():
            if k.startswith('/w/'): open(d + k[2:], 'w', encoding='latin1').write(v)
        inp = d + '/in.c' if t.cwd is None else t.cwd
        if t.cwd is None: open(inp, 'wb').write(src)
        rc, o, e = sh([exe, '-S', '-w'] + list(t.args) + ['-o', d + '/out.s', inp], timeout=30, cwd=d, env=dict(os.environ, RSS=str(rss), ASAN_OPTIONS='detect_leaks=0', TZ='UTC'))
        txt = open(d + '/out.s', encoding='latin1').read().replace(d, '/w') if rc == 0 else ''
        return ('asan' if b'AddressSanitizer' in e else rc), txt, e.decode('latin1')
    finally: shutil.rmtree(d, ignore_errors=True)


def run_one(b, t):
    st = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'symx_insts': 0, 'functions': []}
    res = {'name': t.name, 'verdict': 'ok', 'notes': [], 'stats': st}
    t0 = time.time()
    inp = '/w/in.c' if t.cwd is None else t.cwd
    vfs = dict(t.vfs or {}); vfs[inp] = t.src
    cfg = {'argv': ['slimcc', '-S', '-w'] + list(t.args) + ['-o', '/out.s', inp], 'vfs': vfs, 'holes': [{'name': 'rss', 'kind': 'var', 'len': 64}] + list(t.holes),
           'assume': [orc.byteset('b%d' % i, a.encode('latin1') if isinstance(a, str) else a) for i, a in enumerate(t.alpha)], 'max_paths': t.maxpaths, 'max_insts': 2000000000, 'concrete_text': 1}
    recs, summ = core.symx(b, cfg, timeout=t.timeout)
    st['functions'] = [f for f in summ.get('functions', '').split(',') if f]
    st['queries'] += summ.get('queries', 0); st['solver_s'] += summ.get('solver_s', 0); st['symx_insts'] += summ.get('insts', 0)
    if summ.get('stop') or summ.get('crash') or not recs: res['verdict'] = 'incon'; res['notes'].append('exploration stopped after %d paths: %s' % (len(recs), {k: summ.get(k) for k in ('stop', 'crash', 'err')}))
    rss, rss2 = z3.BitVec('rss', 64), z3.BitVec('rss2', 64)
    n = len(t.alpha)
    groups = {}
    for r in recs:
        st['paths'] += 1
        if r['end'] in ('unsupported', 'notimpl'): res['verdict'] = 'incon'; res['notes'].append('%s %s' % (r['end'], r.get('msg', '')[:150])); continue
        terms, pc = core.rec_terms(r)
        end = (r['end'], r.get('code'))
        txt = r['files'].get('/out.s', '') if end == ('exit', 0) else ''
        res['valid'] = res.get('valid', 0) + (end == ('exit', 0))
        key = (end, PH.sub(lambda m: m.group(1) + terms[int(m.group(2))].sexpr(), txt))
        groups.setdefault(key, []).append((end, txt, terms, pc, r.get('msg', '')))
    gs = list(groups.values())

    def report(what, pcs):
        s = z3.Solver(); s.set('timeout', 10000); s.add(*pcs)
        t1 = time.time(); q = s.check(); st['queries'] += 1; st['solver_s'] += time.time() - t1
        if q == z3.unsat: return False
        if q != z3.sat: res['verdict'] = 'incon'; res['notes'].append('solver unknown'); return False
        m = s.model()
        bs = [m.eval(z3.BitVec('b%d' % i, 8), model_completion=True).as_long() for i in range(n)]
        v1, v2 = m.eval(rss, model_completion=True).as_signed_long(), m.eval(rss2, model_completion=True).as_signed_long()
        src = bytearray(t.src.encode('latin1'))
        for h, x in zip(t.holes, bs): src[h['off']] = x
        src = bytes(src)
        a, c, e = native(b, t, src, v1, b.rss_cc), native(b, t, src, v2, b.rss_cc), native(b, t, src, max(v1, v2), b.asan_cc)
        diff = a[0] != c[0] or a[1] != c[1]
        dead = [x for x in (e, a, c) if x[0] == 'asan' or x[0] < 0 or x[0] > 1]
        if diff or dead:
            res.update(verdict='viol', what='%s: with a resident size of %d KB the compiler ends with %s, with %d KB with %s%s%s' % (what, v1, a[0], v2, c[0], ', and the outputs differ' if a[1] != c[1] else '', '; ' + next((l for l in dead[0][2].split('\n') if 'ERROR: Add' in l), '')[:120] if dead else ''),
                       files={'in.c': src, 'a.s': a[1], 'b.s': c[1], 'stderr.txt': a[2] + c[2] + e[2]})
            return True
        res['verdict'] = 'incon'; res['notes'].append('not reproduced: %s (bytes %r, %d and %d KB)' % (what, bytes(bs), v1, v2))
        return False

    base = [z3.Or([z3.BitVec('b%d' % i, 8) == x for x in (a.encode('latin1') if isinstance(a, str) else a)]) for i, a in enumerate(t.alpha)]
    for g in gs:
        for end, txt, terms, pc, msg in g:
            if end[0] != 'exit' and report('the compiler ends with %s %s' % (end[0], msg[:80]), base + pc + [rss2 == 0]): return res
    for i in range(len(gs)):
        for j in range(i + 1, len(gs)):
            for A in gs[i]:
                for B in gs[j]:
                    if A[0][0] != 'exit' or B[0][0] != 'exit': continue
                    pcb = [z3.substitute(x, (rss, rss2)) for x in B[3]]
                    d = [z3.BoolVal(True)] if A[0] != B[0] else equal_texts(A[1], B[1], A[2], B[2])
                    if d is None: d = [z3.BoolVal(True)]
                    if d and report('output depends on memory use', base + A[3] + pcb + [z3.Or(*d)]): return res
    st['wall'] = time.time() - t0
    st['smp'] = {'program': t.name, 'paths': len(recs), 'outcomes': sorted({str(k[0]) for k in groups}), 'symbolic': ['rss'] + [h['name'] for h in t.holes]}
    return res


def rss_build(b):
    """native replay: the resident size is taken from the environment"""
    c = b.dir + '/rss.c'
    open(c, 'w').write('#include <stdlib.h>\n#include <string.h>\n#include <sys/resource.h>\nint __wrap_getrusage(int w, struct rusage *r) { memset(r, 0, sizeof *r); r->ru_maxrss = atol(getenv("RSS") ? getenv("RSS") : "0"); return 0; }\n')
    b.asan()
    for exe, od, fl in (('rss_cc', 'o', []), ('asan_cc', 'oa', ['-fsanitize=address'])):
        setattr(b, exe, b.src + '/slimcc-' + exe)
        rc, o, e = sh(['gcc', '-w'] + fl + [c] + [b.dir + '/%s/%s.o' % (od, u) for u in b.units] + ['-Wl,--wrap=getrusage', '-o', getattr(b, exe), '-lm'], timeout=100)
        if rc: raise CheckError('rss build: ' + e.decode('latin1')[-300:])


def corpus(b, rnd, thorough):
    ts = []
    inc = ['-I' + REPO + '/test', '-I' + REPO + '/test/host']
    fl = glob.glob(REPO + '/test/*.c')
    for f in sorted(fl):
        for extra in ([], ['-std=c23', '-fdefer-ts', '-O0', '-g']) if thorough else [rnd.choice([[], ['-g'], ['-O0'], ['-fPIC']])]:
            args = ['-D__STDC_NO_THREADS__'][:0] + extra + inc
            src = open(f, encoding='latin1').read()
            if not thorough and (re.search('c23|c2x', os.path.basename(f)) or os.path.basename(f) in ('autotype.c', 'digit_separator.c', 'typeof_unqual.c', 'constexpr_var.c', 'constexpr_var_ext.c', 'defer.c')): args = ['-std=c23', '-fdefer-ts'] + args
            ts.append((f, src, args))
    return ts


def make_corpus(b, x):
    f, src, args = x
    rc, o, e = sh([b.cc, '-M'] + args + [f], timeout=20)
    deps = [y for y in o.decode('latin1').replace('\\\n', ' ').split()[1:] if y != f]
    return T('test_' + os.path.basename(f)[:-2], src, args, {d: open(d, encoding='latin1').read() for d in deps if os.path.exists(d)}, cwd=f, timeout=100)


def run(ck, thorough):
    rnd = random.Random(core.SEED + 30)
    b = core.Build()
    rss_build(b)
    ts = []
    for k, v in OWN.items():
        fl = ['-std=c23', '-fdefer-ts'] if k in ('cleanup', 'c23', 'gen') else []
        for rep, sets in (('d', '0259'), ('t', '0\\"a,); \n')) if not thorough else (('d', '0123456789'), ('t', '0\\"a,); \n'), ('u', bytes(range(1, 256))), ('v', bytes(range(1, 256)))):
            ts.append(template(k + '_' + rep, v, sets, rnd, 2 if rep == 'd' else 1, fl + rnd.choice([[], ['-g'], ['-O0'], ['-fPIC']]), timeout=40 if not thorough else 150))
    import c22
    rnd2 = random.Random(core.SEED + 31)
    for l, pre0, post0 in ((c22.CTX, '', ''), (c22.STM, c22.SPRE, '}')):
        for n, p, q in l:
            if n in ('cmt', 'embed', 'embed2'): continue
            src = pre0 + p + ' ' + q + post0
            al = rnd2.sample(c22.TK, 10) if not thorough else c22.TXT
            ts.append(T('c_' + n + ('s' if pre0 else ''), pre0 + p + '1' + q + post0, ['-std=c23', '-fdefer-ts'], {}, [{'name': 'b0', 'kind': 'bytes', 'where': '/w/in.c', 'off': len((pre0 + p).encode('latin1')), 'len': 1}], [''.join(al) if isinstance(al, list) else al], timeout=20))
    cor = corpus(b, rnd, thorough)
    ck.bounds = ['%d own programs and contexts with 1-2 symbolic bytes, and the %d C programs of the repository\'s test directory; in each the resident size the compiler measures is a symbolic 64 bit value' % (len(ts), len(cor))]
    ck.assume = ['the compared output is the assembly text of -S and the status; every object is tracked, so a use of freed memory is an error in itself', 'counterexamples are replayed on a build with the address sanitizer and a stand-in for getrusage']
    allt = ts + cor
    res = core.pool(lambda i: run_one(b, allt[i] if isinstance(allt[i], T) else make_corpus(b, allt[i])), range(len(allt)), jobs=core.NCPU, each=150 if not thorough else 300, total=600 if not thorough else 3000)
    valid = 0
    for i, r in res:
        name = allt[i].name if isinstance(allt[i], T) else os.path.basename(allt[i][0])
        ck.add(obligations=1)
        if r is None: ck.inconclusive(name + ': time limit'); continue
        if 'error' in r: ck.inconclusive(name + ': ' + r['error'].strip().replace('\n', ' | ')[-400:]); continue
        s = r['stats']; valid += r.get('valid', 0)
        ck.add(queries=s['queries'], solver_s=s['solver_s'], paths=s['paths'], symx_insts=s['symx_insts'], functions=s['functions'])
        if r['verdict'] == 'ok':
            ck.add(discharged=1)
            if len(ck.samples) < 12: ck.samples.append(s['smp'])
        elif r['verdict'] == 'viol': ck.violation(name, name + ': ' + r['what'], r['files'])
        else: ck.inconclusive(name + ': ' + '; '.join(r['notes'])[:300])
        if os.environ.get('VERB') and not r.get('valid'): print('never valid', name)
    ck.extra['successful_paths'] = valid
