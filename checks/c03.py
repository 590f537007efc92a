import random, re
import core, equiv
from equiv import T
from gen import *

KT = [('i', 32, 1, '%s'), ('u', 32, 0, '%s'), ('l', 64, 1, '%s'), ('ul', 64, 0, '%s'), ('sc', 32, 1, '(signed char)%s'), ('us', 32, 1, '(unsigned short)%s'), ('s', 32, 1, '(short)%s'), ('b', 32, 0, '(_Bool)%s'), ('uc', 64, 1, '(unsigned char)%s')]
EX = ['A + B', 'A - B', 'A * B', 'A / B', 'A %% B', 'A & B', 'A | B', 'A ^ B', 'A << B', 'A >> B', 'A < B', 'A <= B', 'A > B', 'A >= B', 'A == B', 'A != B',
      'A && B', 'A || B', 'A ? B : 3', 'A ?: B', '-A', '~A', '!A', '+A', '(A, B)', '(short)A', '(unsigned char)A', '(_Bool)A', '(int)A', '(unsigned)A', '(long)A', '(signed char)A >> 1',
      'A == 0 || B / A > 2', 'A != 0 && B %% A', '(A > B ? A : B)', '(A < B) - (A > B)', '(A & 1) ? -1 : A', '((unsigned)A >> 3) + B', '(A ^ B) < 0', '-(unsigned char)A', '~(unsigned short)B + A', '(0 && A / 0) + A', '(1 || A / 0) - A', 'A ? 1 : 1U', '(A - B) / 2', '(unsigned)A / 3', '(long)A * 5 %% 7', 'sizeof(A + B)', 'A << 1 >> 1', '(char)A == A']
EX = [e.replace('%%', '%') for e in EX]
CTX = {
    'static': ('static long s = E;', 'o[0] = s;'),
    'staticarr': ('static long s[3] = { [1] = E };', 'o[0] = s[0] + s[1]; o[1] = s[2];'),
    'staticsh': ('static short s = E; static _Bool b = E; static unsigned char c = E;', 'o[0] = s; o[1] = b; o[2] = c;'),
    'staticint': ('static int s = E; static unsigned u = E;', 'o[0] = s; o[1] = u;'),
    'enum': ('enum { EN = (int)(E) };', 'o[0] = EN;'),
    'enumty': ('enum en : long { EN = (long)(E), EO };', 'o[0] = EN;'),
    'if': ('', 'if (E) o[0] = 1; else o[0] = 2;'),
    'cond': ('', 'o[0] = (E) ? x : 5; o[1] = (E) ? 7 : x;'),
    'expr': ('', 'o[0] = E;'),
    'loc': ('', 'long l = E; short h = E; o[0] = l; o[1] = h;'),
    'array': ('', 'char a[((E) & 7) + 1]; o[0] = sizeof a;'),
    'constexpr': ('static constexpr long c = (long)(E);', 'o[0] = c + 1;'),
    'constexpr2': ('', 'constexpr long c = (long)(E); static int d = (int)c; o[0] = d;'),
    'ptr': ('static char g[9]; static char *p = g + (short)(E);', 'o[0] = p - g;'),
    'ptr2': ('static int g[9]; static long p = (long)((char *)&g[2] + (int)(E));', 'o[0] = p - (long)g;'),
    'bf': ('static struct { int a : 5; unsigned b : 7; long c : 33; } s = { E, E, E };', 'o[0] = s.a; o[1] = s.b; o[2] = s.c;'),
    'while': ('', 'o[0] = 3; while (E) { o[0] = 4; break; } do o[1]++; while ((E) && o[1] < 2);'),
    'sassert': ('#ifdef IN_DUT\n_Static_assert((E), "");\n#endif\n', '\n#ifdef IN_REF\nif (!(E)) __builtin_trap();\n#endif\no[0] = 1;'),
    'sassertn': ('#ifdef IN_DUT\n_Static_assert(!(E), "");\n#endif\n', '\n#ifdef IN_REF\nif ((E)) __builtin_trap();\n#endif\no[0] = 1;'),
    'constp': ('', 'o[0] = __builtin_constant_p(1) ? (long)(E) : 0;'),
}
REFCTX = {      # how the reference computes the same thing with run-time values
    'static': 'long s = E; o[0] = s;', 'staticarr': 'o[0] = E; o[1] = 0;', 'staticsh': 'short s = E; _Bool b = E; unsigned char c = E; o[0] = s; o[1] = b; o[2] = c;',
    'staticint': 'int s = E; unsigned u = E; o[0] = s; o[1] = u;', 'enum': 'o[0] = (int)(E);', 'enumty': 'o[0] = (long)(E);', 'if': None, 'cond': None, 'expr': None, 'loc': None, 'array': 'o[0] = ((E) & 7) + 1;', 'constexpr': 'o[0] = (long)(E); o[0] += 1;',
    'constexpr2': 'long c = (long)(E); o[0] = (int)c;', 'ptr': 'o[0] = (short)(E);', 'ptr2': 'o[0] = (long)(int)(E) + 8;', 'bf': 'struct { int a : 5; unsigned b : 7; long c : 33; } s = { E, E, E }; o[0] = s.a; o[1] = s.b; o[2] = s.c;', 'while': None, 'sassert': None, 'sassertn': None, 'constp': 'o[0] = (long)(E);',
}


def prog(name, ctx, e, K, **kw):
    fs, st = CTX[ctx]
    src = fs.replace('E;', '(%s);' % e) if False else sub(fs, e)
    rs = REFCTX[ctx]
    ref = ('' if rs is not None else sub(fs, e)) + '\nvoid test(void) { %s }' % sub(rs if rs is not None else st, e)
    kas = ()
    if ctx in ('sassert', 'sassertn'): pass
    return T(name, src + '\nvoid test(void) { %s }' % sub(st, e), 'int x', 'long o[3]', K=K, ref=ref, timeout=25, flags=('-std=c23',), **kw)


def sub(s, e):

    return re.sub(r'\bE\b', lambda m: '(%s)' % e, s)


def run(ck, thorough):
    rnd = random.Random(core.SEED + 2)
    b = core.Build()
    tests = []
    ctxs = list(CTX)
    for ei, ex in enumerate(EX):
        for ki, ka in enumerate(KT):
            nl = re.search(r'[/%]', ex) and re.search(r'\bB\b', ex)
            if nl and ka[0] in ('l', 'ul', 'u') and not thorough: continue
            for kb in KT if thorough else rnd.sample([k for k in KT if not nl or k[0] in ('sc', 'us', 's', 'b', 'uc')], 1):
                e = re.sub(r'\b[AB]\b', lambda m: '(' + (ka[3] % 'K1' if m.group(0) == 'A' else kb[3] % 'K2') + ')', ex)
                K = [('K1', ka[1], ka[2])] + ([('K2', kb[1], kb[2])] if re.search(r'\bB\b', ex) else [])
                cs = rnd.sample([c for c in ctxs if not nl or c not in ('while', 'cond', 'if')], 6 if thorough else 1 + (ki % 3 == ei % 3))
                if 'sizeof' in ex: e = '(%s) + (int)K1' % e.replace('K1', '3').replace('K2', '4L'); K = [('K1', ka[1], ka[2])]
                for c in cs:
                    if ex[1] in '&|' and ex[0] in '01' and c.startswith('sassert'): continue
                    tests.append(prog('e%d_%s_%s_%s' % (ei, ka[0], kb[0], c), c, e, K, solver_ms=10000 if thorough else 4000, traps='*' not in ex))
    for k in range(600 if thorough else 60):
        ka, kb = rnd.choice(KT), rnd.choice(KT)
        g = Expr(rnd, ['(' + ka[3] % 'K1' + ')', '(' + kb[3] % 'K2' + ')'], muls=1, divs=1)
        e = g.gen(rnd.choice([2, 3, 3]))
        K = [('K1', ka[1], ka[2])] * ('K1' in e) + [('K2', kb[1], kb[2])] * ('K2' in e)
        if not K: continue
        tests.append(prog('r%d' % k, rnd.choice(ctxs), e, K, solver_ms=8000 if thorough else 4000))
    # floating constants: exact cases and innocuous roundings
    fl = [('ff', 'static float s = (float)K1;', 'o[0] = *(int *)&s;', 'float s = (float)K1; o[0] = *(int *)&s;'),
          ('fd', 'static double s = K1;', 'o[0] = *(long *)&s;', 'double s = K1; o[0] = *(long *)&s;'),
          ('fdi', 'static long s = (long)((double)(int)K1);', 'o[0] = s;', None), ('fcmp', 'static int s = (double)(int)K1 < 1.5;', 'o[0] = s;', None),
          ('fcmp2', 'static int s = (float)(short)K1 >= (short)K2;', 'o[0] = s;', None), ('fneg', 'static double s = -(double)(int)K1;', 'o[0] = *(long *)&s;', 'double s = -(double)(int)K1; o[0] = *(long *)&s;'),
          ('fcond', 'static float s = K1 ? 1.25f : (float)(short)K2;', 'o[0] = *(int *)&s;', 'float s = K1 ? 1.25f : (float)(short)K2; o[0] = *(int *)&s;'),
          ('fnot', 'static int s = !(double)(int)K1;', 'o[0] = s;', None), ('fbool', 'static _Bool s = (float)(int)K1;', 'o[0] = s;', None),
          ('fi', 'static int s = (int)((float)(short)K1 + 0.5f);', 'o[0] = s;', None), ('fge', 'static int s = (double)(int)K1 >= (double)(unsigned)K2;', 'o[0] = s;', None),
          ('fland', 'static int s = (float)(int)K1 && (double)(short)K2;', 'o[0] = s;', None)]
    for tag, fs, st, rs in fl:

        for kn, kb, ks in (('i', 32, 1), ('u', 32, 0), ('l', 64, 1), ('ul', 64, 0)):
            K = [('K1', kb, ks)] + ([('K2', 32, 1)] if 'K2' in fs else [])
            r = rs if rs else fs.replace('static ', '') + ' ' + st
            if tag in ('ff', 'fd') and kn == 'ul': continue     # the reference's own unsigned long sequence: decided in C15
            tests.append(T('%s_%s' % (tag, kn), fs + ' void test(void) { %s }' % st, '', 'long o[1]', K=K, ref='void test(void) { %s }' % r, mode='real', timeout=60, solver_ms=40000))
    ck.bounds = ['two symbolic constants of 32/64 bits per expression; %d operator shapes, %d evaluation contexts, %d operand types; random expressions of depth <= 3' % (len(EX), len(CTX), len(KT)),
                 'floating folding: conversions, comparisons and operations whose translation-time precision provably cannot differ']
    ck.assume = ['translation-time evaluation of double arithmetic may use more precision (C permits it) and is not compared', 'reference: the same expression executed at run time by clang -O0 code, undefined cases excluded']
    equiv.run_all(ck, b, tests, each=90 if not thorough else 240, total=600 if not thorough else 3200)
