"""pointer and array addressing: the address computed for every index, pointer value and array bound"""
import random
import core, equiv
from equiv import T
from gen import ITYPES, ID

PRE = '#ifdef IN_REF\n#define PD(p, q) (((long)(p) - (long)(q)) / (long)sizeof(*(p)))\n#else\n#define PD(p, q) ((p) - (q))\n#endif\n'
# element types: (tag, declarations, how to declare a pointer to the element named P)
ELEM = [('char', '', 'char *P'), ('short', '', 'short *P'), ('int', '', 'int *P'), ('long', '', 'long *P'), ('bool', '', '_Bool *P'), ('float', '', 'float *P'), ('double', '', 'double *P'), ('ld', '', 'long double *P'),
        ('s3', 'struct s3 { char c[3]; };', 'struct s3 *P'), ('s5', 'struct s5 { char c[5]; };', 'struct s5 *P'), ('s12', 'struct s12 { int a, b, c; };', 'struct s12 *P'), ('s24', 'struct s24 { long a; char b; void *c; };', 'struct s24 *P'),
        ('s100', 'struct s100 { int a[25]; };', 'struct s100 *P'), ('s64k', 'struct s64k { char a[65536]; };', 'struct s64k *P'), ('s3g', 'struct s3g { char a[3000000000]; };', 'struct s3g *P'), ('un', 'union un { short a[3]; char b[7]; };', 'union un *P'),
        ('a3', '', 'int (*P)[3]'), ('a35', '', 'short (*P)[3][5]'), ('pp', '', 'char **P'), ('pa', '', 'int *(*P)[4]'), ('fp', '', 'void (**P)(void)'), ('en', 'enum en { E0 };', 'enum en *P'), ('en8', 'enum en8 : char { E8 };', 'enum en8 *P'),
        ('al', 'struct al { _Alignas(32) char c; };', 'struct al *P'), ('bf', 'struct bf { int a : 3; long b : 40; };', 'struct bf *P'), ('s256', 'struct s256 { char c[256]; };', 'struct s256 *P'), ('s16', 'struct s16 { long a, b; };', 'struct s16 *P'), ('s2', 'struct s2 { char a, b; };', 'struct s2 *P')]
IT = ITYPES + ['_Bool', 'char', 'long long']
PF = [('add', 'o[0] = (long)(p + i);'), ('radd', 'o[0] = (long)(i + p);'), ('sub', 'o[0] = (long)(p - i);'), ('idx', 'o[0] = (long)&p[i];'), ('ridx', 'o[0] = (long)&i[p];'), ('aa', 'p += i; o[0] = (long)p;'), ('as', 'p -= i; o[0] = (long)p;'),
      ('aaval', 'o[0] = (long)(p += i); o[1] = (long)p;'), ('nidx', 'o[0] = (long)&p[-i];'), ('inc', 'o[0] = (long)p++ + i; o[1] = (long)p; o[2] = (long)++p;'), ('dec', 'o[0] = (long)p-- + i; o[1] = (long)p; o[2] = (long)--p;'),
      ('dadd', 'o[0] = (long)&*(p + i); o[1] = (long)&(*p);'), ('idx1', 'o[0] = (long)&p[i + 1]; o[1] = (long)(p + i - 1);'), ('idx2', 'o[0] = (long)&(p + i)[2]; o[1] = (long)(&p[i] - 3);'), ('cond', 'o[0] = (long)(i ? p + i : p);'),
      ('ptrptr', 'void *v = &p; *(char **)v += 8; o[0] = (long)(p + i);'), ('idxexpr', 'o[0] = (long)&p[(i ^ 5) & 1023]; o[1] = (long)&p[i * 2];'), ('elvis', 'o[0] = (long)((p + i) ?: p);'), ('call', 'o[0] = (long)(g() + i); o[1] = (long)&g()[i];'),
      ('cast', 'o[0] = (long)((char *)p + i); o[1] = (long)((short *)(p + 1) - i);'), ('comma', 'o[0] = (long)(p + (1, i)); o[1] = (long)((0, p) + i);'), ('gp', 'gp = p; gp += i; o[0] = (long)gp; o[1] = (long)&gp[i];'), ('member', 'struct { char c; void *v; TP; } m = {1, 0, p}, *q = &m; q->P += i; o[0] = (long)m.P; o[1] = (long)&q->P[i]; o[2] = (long)(m.P - i);'),
      ('stmt', 'o[0] = (long)(({ p; }) + ({ i; })); o[1] = (long)&({ p; })[i];')]


def pt(e, name): return e[2].replace('P', name)


def run(ck, thorough):
    rnd = random.Random(core.SEED + 21)
    b = core.Build()
    tests = []
    for ei, e in enumerate(ELEM):
        for fi, (tag, st) in enumerate(PF):
            its = IT if thorough else rnd.sample(IT, 1 if ei % 2 else 2)
            for it in its:
                src = PRE + e[1] + '\n%s; %s { return %s; }\n' % ('static ' + pt(e, 'gp'), 'static ' + pt(e, 'g(void)') if '(' not in e[2] else 'static __typeof__(gp) g(void)', '(void *)x')
                st2 = st.replace('TP', pt(e, 'P'))
                src += 'void test(void) { %s = (void *)x; %s i = y; %s }' % (pt(e, 'p'), it, st2)
                tests.append(T('%s_%s_%s' % (e[0], tag, ID[it]), src, 'long x, %s y' % it, 'long o[3]', traps=False, timeout=40))
        # differences and comparisons
        src = PRE + e[1] + 'void test(void) { %s = (void *)x, %s = (void *)y; o[0] = PD(p, q); o[1] = p < q; o[2] = p >= q; o[3] = p == q; o[4] = p != q; o[5] = !p; o[6] = p && q; if (p > q) o[7] = 1; if (p <= q) o[7] += 2; }' % (pt(e, 'p'), pt(e, '(q)') if False else pt(e, 'q').replace(pt(e, 'q').split('q')[0].split('*')[0], '', 1).strip() if '(' not in pt(e, 'q') else '(*dummy)')
        decl = '%s = (void *)x; %s = (void *)y;' % (pt(e, 'p'), pt(e, 'q'))
        src = PRE + e[1] + '\nvoid test(void) { %s o[0] = PD(p, q); o[1] = p < q; o[2] = p >= q; o[3] = p == q; o[4] = p != q; o[5] = !p; o[6] = p && q; if (p > q) o[7] = 1; if (p <= q) o[7] += 2; }' % decl
        tests.append(T('diff_' + e[0], src, 'long x, long y', 'long o[8]', traps=False, timeout=60, pre=('in_x - in_y == z3.SignExt(32, z3.Extract(31, 0, in_x - in_y))',) if e[0] in ('s3g',) else ()))
        tests.append(T('cmpz_' + e[0], PRE + e[1] + '\nvoid test(void) { %s o[0] = p ? 1 : 2; if (q) o[1] = 5; while (p) { o[2]++; break; } o[3] = !!p + (p == 0) * 2 + (0 != q) * 4; _Bool t = q; o[4] = t; o[5] = (p || q); o[6] = (int)(long)p; o[7] = (unsigned char)(long)q; }' % decl, 'long x, long y', 'long o[8]', traps=False))
        # constant indices of every value
        for kt, kb, ks in (('i', 32, 1), ('u', 32, 0), ('l', 64, 1)):
            if not thorough and (ei + len(kt) + kb) % 3: continue
            if e[0] == 's3g' and kb == 64: continue
            tests.append(T('kidx_%s_%s' % (e[0], kt), PRE + e[1] + '\nvoid test(void) { %s = (void *)x; o[0] = (long)&p[K]; o[1] = (long)(p - K); p += K; o[2] = (long)p; }' % pt(e, 'p'), 'long x', 'long o[3]', K=[('K', kb, ks)], traps=False, timeout=40))
            tests.append(T('kidx2_%s_%s' % (e[0], kt), PRE + e[1] + '\nvoid test(void) { %s = (void *)x; int i = y; o[0] = (long)&p[i + K]; o[1] = (long)(&p[K] + i); o[2] = (long)&(p + K)[-1]; }' % pt(e, 'p'), 'long x, int y', 'long o[3]', K=[('K', kb, ks)], traps=False, timeout=40))
    # several dimensions, members, nested aggregates
    md = [('m2', '', 'int (*p)[7] = (void *)x; o[0] = (long)&p[i][j]; o[1] = (long)p[i]; o[2] = (long)(*(p + i) + j); o[3] = (long)(p[i] + j); o[4] = sizeof p[i];'),
          ('m3', '', 'short (*p)[3][5] = (void *)x; o[0] = (long)&p[i][j][2]; o[1] = (long)p[i][j]; o[2] = (long)*(*(p + i) + j); o[3] = (long)&p[1][j][i]; o[4] = (long)(&p[i][j] + 1);'),
          ('mem', 'struct a { char c; struct b { int x[4]; long y[3]; } d[5]; short e; };', 'struct a *p = (void *)x; o[0] = (long)&p[i].d[j].y[1]; o[1] = (long)&p->d[i].x[j]; o[2] = (long)&(p + i)->e; o[3] = (long)&(*p).d[j]; o[4] = (long)(p[i].d + j)->y;'),
          ('un', 'union a { char c[3]; struct { short s; long l[2]; } d; };', 'union a *p = (void *)x; o[0] = (long)&p[i].d.l[j]; o[1] = (long)&p[j].c[i]; o[2] = (long)(p + i + j);'),
          ('pp', '', 'int **p = (void *)x; o[0] = (long)&p[i]; p += j; o[1] = (long)p; o[2] = (long)(p - i);'),
          ('cast', '', 'char *p = (void *)x; o[0] = (long)&((int *)p)[i]; o[1] = (long)((long (*)[3])p + j); o[2] = (long)&((struct { char a; int b[3]; } *)p)[i].b[j];'),
          ('void', '', 'void *p = (void *)x; o[0] = (long)(p + i); p += j; o[1] = (long)p; p++; o[2] = (long)p; o[3] = (long)(p - 3); o[4] = (p + 1) == (void *)x;'),
          ('fn', 'void fx(void);', 'void (*p)(void) = (void *)x; o[0] = (long)(p + i); p -= j; o[1] = (long)p; o[2] = sizeof *p;'),
          ('offs', 'struct a { char c; struct b { int x[4]; long y[3]; } d[5]; short e; };', 'o[0] = __builtin_offsetof(struct a, d[2].y[1]); o[1] = (long)&((struct a *)0)->d[i].x[j]; o[2] = __builtin_offsetof(struct a, e); o[3] = (char *)&((struct a *)x)->e - (char *)x;'),
          ('anon', 'struct a { int k; union { struct { char p, q[3]; int r; }; long s; }; struct { short t[2][3]; } u; };', 'struct a *p = (void *)x; o[0] = (long)&p[i].q[j]; o[1] = (long)&p->u.t[i][j]; o[2] = (long)&p[j].r; o[3] = (long)&p[i].s;'),
          ('amp', '', 'int (*p)[7] = (void *)x; o[0] = (long)(&p[i] + j); o[1] = (long)&(&p[i])[j][1]; o[2] = (long)&*&p[i][j]; o[3] = (long)*&*p;'),
          ('neg', '', 'long *p = (void *)x; o[0] = (long)&p[-i]; o[1] = (long)&p[~j]; o[2] = (long)&p[-1 - i]; o[3] = (long)(p + -j);'),
          ('typeof', '', '__typeof__(int[3][4]) *p = (void *)x; __typeof__(p[0][0]) *q = p[0]; o[0] = (long)&q[i]; o[1] = (long)&p[j]; o[2] = sizeof *q; auto r = p + i; o[3] = (long)r; o[4] = (long)(r - j);')]
    for tag, fs, st in md:
        for a, c in ((('int', 'long'), ('unsigned char', 'short'), ('unsigned', 'signed char'), ('long', 'unsigned short'), ('unsigned long', 'int')) if thorough else rnd.sample([('int', 'long'), ('unsigned char', 'short'), ('unsigned', 'signed char'), ('unsigned long', 'int')], 2)):
            tests.append(T('md_%s_%s_%s' % (tag, ID[a], ID[c]), PRE + fs + '\nvoid test(void) { %s i = y; %s j = z; %s }' % (a, c, st), 'long x, %s y, %s z' % (a, c), 'long o[5]', traps=False, timeout=40, flags=('-std=c23',)))
    # variably modified types: bounds are run-time values
    vm = [('v1', 'int n = y; int (*p)[n] = (void *)x; o[0] = (long)&p[i]; o[1] = (long)(p + 1); o[2] = sizeof *p; o[3] = (long)&p[i][j];', 0),
          ('v2', 'short n = y; long (*p)[n][3] = (void *)x; o[0] = (long)&p[i][j]; o[1] = (long)&p[1][i][2]; o[2] = sizeof p[0]; o[3] = sizeof p[0][0];', 0),
          ('v3', 'unsigned char n = y; char m = j; m &= 15; m++; short (*p)[n][m] = (void *)x; o[0] = (long)&p[i][1][1]; o[1] = (long)(p[i] + 2); o[2] = sizeof *p; o[3] = sizeof **p; p++; o[4] = (long)p;', 0),
          ('v4', 'int n = y; typedef int R[n]; n = 3; R *p = (void *)x; o[0] = (long)(p + i); o[1] = sizeof(R); n = 100; o[2] = sizeof *p; p -= j; o[3] = (long)p;', 0),
          ('v5', 'int n = y; int (*p)[n] = (void *)x, (*q)[n] = p; q = p; q++; o[0] = (long)q; q += i; o[1] = (long)q; q--; o[2] = (long)q; o[3] = q > p; o[4] = (long)*q;', 0),
          ('v6', 'fv(y, (void *)x, i, j);', 'static void fv(int n, int a[n][n], int i, long j) { o[0] = (long)&a[i][j]; o[1] = (long)a[i]; o[2] = sizeof a[0]; o[3] = (long)(a + i); a++; o[4] = (long)a; }\n'),
          ('v7', 'fw(y, 3, (void *)x, i, j);', 'static void fw(long n, short m, char (*a)[m][n], int i, long j) { o[0] = (long)&a[i][j]; o[1] = (long)&a[i][1][j]; o[2] = sizeof *a; o[3] = (long)(*a + i); }\n'),
          ('v8', 'int n = y; o[0] = sizeof(int[n]); o[1] = sizeof(char[n][3]); n++; o[2] = sizeof(long[n - 1]); o[3] = sizeof(struct { int a; }[n]); int (*p)[n] = (void *)x; __typeof__(*p) *q = (void *)p; o[4] = (long)(q + i);', 0),
          ('v10', 'int n = y; int (*p)[n] = (void *)x, (*q)[n] = (void *)w0; o[0] = PD(p, q); o[1] = p < q; q = p + i; o[2] = (long)q; o[3] = sizeof(*q); o[4] = sizeof(*p + 1);', 0),
          ('v11', 'unsigned n = v; o[0] = sizeof(int[n]); int (*p)[n] = (void *)x; o[1] = (long)(p + i); o[2] = sizeof(char[n][7]); o[3] = (long)&p[j][i]; o[4] = sizeof(short[3][n]);', 0),
          ('v9', 'int n = y; struct S { char c[6]; } (*p)[n] = (void *)x; o[0] = (long)&p[i][j].c[2]; o[1] = (long)(&p[1][i] + j); o[2] = sizeof *p;', 0)]
    for tag, st, fs in vm:
        for a in ('int', 'unsigned char', 'long', 'short') if thorough else ('int', 'unsigned char'):
            tests.append(T('vm_%s_%s' % (tag, ID[a]), PRE + (fs or '') + 'void test(void) { %s i = z; long j = w; %s }' % (a, st), 'long x, unsigned short y, %s z, short w, long w0, unsigned v' % a, 'long o[5]', traps=False, timeout=60, pre=('z3.UGE(in_y, 1)', 'z3.ULT(in_y, 32767)') if tag == 'v2' else ('z3.UGE(in_y, 1)', 'z3.ULT(in_y, 200)') if tag == 'v3' else ('z3.UGE(in_y, 1)', 'z3.UGE(in_v, 1)')))
    # accesses through the computed address
    acc = [('rw', 'int a[5] = {1, 2, 3, 4, 5};', 'a[i] = y; o[0] = a[j]; o[1] = a[0] + a[4] * 16; o[2] = *(a + i);', 5, 5), ('rwp', 'short a[4][3] = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}};', 'a[i][j] = y; o[0] = a[j][i & 1]; o[1] = a[1][1]; o[2] = (*(a + i))[j];', 4, 3),
           ('rws', 'struct { char c; long l[3]; short s; } a[3] = {{1, {2, 3, 4}, 5}};', 'a[i].l[j] = y; a[j].s = i; o[0] = a[i].l[j]; o[1] = a[0].s + a[2].s; o[2] = a[0].l[0] + a[0].l[1];', 3, 3), ('rwq', 'char a[6] = "hello"; char *p = a + 2;', 'p[i - 2] = y; o[0] = p[j - 2]; o[1] = *p++; o[2] = *--p + p[1]; o[3] = p - a;', 5, 5),
           ('vla', 'int n = i + 1; int a[n]; for (int k = 0; k < n; k++) a[k] = k * 3;', 'a[i] = y; o[0] = a[0]; o[1] = sizeof a; o[2] = a[n - 1]; o[3] = &a[n] - a;', 3, 3),
           ('vla2', 'int n = i + 1, m = j + 1; char g1 = 7; short a[n][m]; char g2 = 9; for (int k = 0; k < n; k++) for (int l = 0; l < m; l++) a[k][l] = k * 8 + l;', 'a[i][j] = y; o[0] = a[0][0]; o[1] = sizeof a; o[2] = a[n - 1][m - 1] + a[i][0]; o[3] = g1 * 16 + g2; o[4] = sizeof a[0];', 2, 2),
           ('vla3', 'int n = i + 1; char a[n]; long b[n]; a[i] = 1; b[0] = 2; b[i] = 3; a[0] = 4;', 'o[0] = a[i]; o[1] = b[i]; o[2] = b[0] + a[0]; o[3] = ((long)a & 15) + ((long)b & 15); o[4] = y;', 3, 3),
           ('ptr2d', 'int a[3] = {1, 2, 3}, c[3] = {4, 5, 6}; int *p[2] = {a, c}; int **q = p;', 'p[i & 1][j] = y; o[0] = q[j & 1][i]; o[1] = **(q + 1); o[2] = *q[0]; *q++ += 1; o[3] = **q;', 3, 3)]
    for tag, d, st, ni, nj in acc:
        for a in ('int', 'unsigned char', 'long', 'short', 'unsigned') if thorough else rnd.sample(['int', 'unsigned char', 'long', 'short'], 2):
            tests.append(T('acc_%s_%s' % (tag, ID[a]), 'void test(void) { %s i = z, j = w; %s %s }' % (a, d, st), 'int y, %s z, %s w' % (a, a), 'long o[5]', timeout=60, pre=('z3.ULT(in_z, %d)' % ni, 'z3.ULT(in_w, %d)' % nj)))
    ck.bounds = ['%d element types x %d pointer expressions x index types (quick: sampled); all 64-bit pointer values and all index values' % (len(ELEM), len(PF)), 'variable array bounds: all positive values for addressing; arrays of at most 3x3 for actual accesses', 'constant indices: every 32/64-bit value']
    ck.assume = ['reference: clang -O0 code of the same program; pointer difference in the reference is byte difference divided by the element size', 'pointers are arbitrary integers: only the computed address is compared, except in the acc_ family']
    equiv.run_all(ck, b, tests, each=80 if not thorough else 240, total=600 if not thorough else 3000)
