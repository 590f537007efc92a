"""initializers: contents of static and automatic objects for every value of the element initializers"""
import random
import core, equiv
from equiv import T

INTS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool', 'enum E']


class G:
    """random aggregate types and initializers"""

    def __init__(self, rnd, auto): self.r, self.auto, self.n = rnd, auto, 0

    def nm(self): self.n += 1; return 'm%d' % self.n

    def scalar(self):
        k = self.r.random()
        if k < .7: return ('i', self.r.choice(INTS))
        if k < .8: return ('f', self.r.choice(['float', 'double']))
        if k < .9: return ('p', 'char *')
        return ('i', self.r.choice(['int', 'char', 'long']))

    def typ(self, d, inunion=False):
        k = self.r.random()
        if d <= 0 or k < .3: return self.scalar()
        if k < .42: return ('s', self.r.choice(['char', 'char', 'unsigned char', 'unsigned short', 'int', 'unsigned']), self.r.choice([1, 2, 3, 4, 5]))
        if k < .62: return ('a', self.typ(d - 1), self.r.choice([1, 2, 3]))
        if k < .74: return ('u', self.r.sample([('i', 'int'), ('i', 'unsigned'), ('a', ('i', 'short'), 2), ('a', ('i', 'unsigned char'), 4), ('t', [('ua', ('i', 'short')), ('ub', ('i', 'unsigned short'))]), ('f', 'float')], 3))
        return self.struct(d)

    def struct(self, d):
        ms = []
        for i in range(self.r.choice([1, 2, 3, 3, 4])):
            if self.r.random() < .2:
                b, w = self.r.choice([('int', 32), ('unsigned', 32), ('long', 64), ('short', 16), ('unsigned char', 8), ('_Bool', 1)])
                ms.append((self.nm(), ('b', b, self.r.randint(1, w))))
                if self.r.random() < .3: ms.append(('', ('b', b, self.r.choice([0, 1, 1]) if w > 1 else 1)))
            else:
                t = self.typ(d - 1)
                ms.append((self.nm() if t[0] not in 'tu' or self.r.random() < .7 else '', t))
        if not any(n for n, t in ms): ms.append((self.nm(), ('i', 'int')))
        return ('t', ms)

    def decl(self, t, name):
        if t[0] in 'ifp': return '%s %s' % (t[1], name)
        if t[0] == 's': return '%s %s[%d]' % (t[1], name, t[2])
        if t[0] == 'b': return '%s %s : %d' % (t[1], name, t[2])
        if t[0] == 'a': return self.decl(t[1], '%s[%d]' % (name, t[2]))
        ms = t[1] if t[0] == 't' else self.umem(t)
        return '%s { %s } %s' % ('struct' if t[0] == 't' else 'union', ' '.join(self.decl(m, n) + ';' for n, m in ms), name)

    def umem(self, t):
        """names of union members (stable)"""
        if not hasattr(self, 'un'): self.un = {}
        if id(t) not in self.un: self.un[id(t)] = ([(self.nm(), m) for m in t[1]], t)
        return self.un[id(t)][0]

    def members(self, t): return [(n, m) for n, m in (t[1] if t[0] == 't' else self.umem(t)) if not (m[0] == 'b' and not n)]

    def names(self, t):
        """designatable member paths of a struct: (list of names visible, type) with anonymous members looked through"""
        out = []
        for n, m in self.members(t):
            if n: out.append((n, m))
            else: out += self.names(m)
        return out

    def access(self, t, e):
        """every scalar of the object as an expression of type long"""
        if t[0] == 'i' or t[0] == 'b': return ['(long)%s' % e]
        if t[0] == 'p': return ['(%s - g)' % e]
        if t[0] == 'f': return ['*(%s *)&%s' % ('int' if t[1] == 'float' else 'long', e)]
        if t[0] == 's': return ['(long)%s[%d]' % (e, i) for i in range(t[2])]
        if t[0] == 'a': return [x for i in range(t[2]) for x in self.access(t[1], '%s[%d]' % (e, i))]
        return [x for n, m in self.members(t) for x in self.access(m, '%s.%s' % (e, n) if n else e)]

    def value(self, t):
        r = self.r
        if t[0] in 'ib':
            k = r.random()
            if k < .45: return r.choice(['K1', 'K2'])
            if k < .6: return r.choice(['K1 + 1', '-K1', 'K1 ^ K2', '(char)K1', 'K2 & 255', '~K2', 'K1 ? 3 : K2', '(K1 < K2)', '(short)K2 - 1', '!K1'])
            if k < .75 and self.auto: return r.choice(['x', 'y', 'x + y', 'x - K1', '(short)y', 'x < y', 'id(x)'])
            return str(r.choice([0, 1, 2, 7, -1, 100, 200, 'sizeof(int)', "'a'", 'E2', '(_Bool)5', '3L']))
        if t[0] == 'f': return r.choice(['1.5f', '2', '-0.25', '3.0', '1e10', '7u', '-3', '0.0'])
        if t[0] == 'p': return r.choice(['g', 'g + 3', '&g[5]', 'g + (signed char)K1', '(g + 2) + 1', '(char *)(g + 1)', '&g[4] - 1', '(char *)&gi[1] - ((char *)gi - (char *)gi) - (4 + ((char *)gi - (char *)gi)) + 0 == 0 ? g : g + 1' if self.auto else 'g + 9'])

    def string(self, t):
        n = self.r.randint(0, t[2]); s = ''.join(self.r.choice('abcXYZ019') for _ in range(n))
        pre = {'char': '', 'unsigned char': '', 'unsigned short': 'u', 'int': 'L', 'unsigned': 'U'}[t[1]]
        if t[1] == 'char' and self.r.random() < .2: pre = 'u8'
        if n >= 2 and self.r.random() < .3: return '%s"%s" %s"%s"' % (pre, s[:1], pre, s[1:])
        if n >= 1 and self.r.random() < .3: return '%s"\\x4%s' % (pre, self.r.choice('1234567')) + ('" "' if n > 1 else '') + s[1:] + '"'
        return '%s"%s"' % (pre, s)

    def leaves(self, t):
        if t[0] in 'ifpb': return [t]
        if t[0] == 's': return [('i', t[1])] * t[2]
        if t[0] == 'a': return self.leaves(t[1]) * t[2]
        ms = self.members(t)
        if t[0] == 'u': ms = ms[:1]
        return [x for n, m in ms for x in self.leaves(m)]

    def flat(self, t, part=False):
        """initializers of t without braces (string literals allowed for character arrays)"""
        if t[0] == 's' and self.r.random() < .5: return [self.string(t)]
        if t[0] in 'ifpb': return [self.value(t)]
        out = []
        subs = [t[1]] * t[2] if t[0] == 'a' else [('i', t[1])] * t[2] if t[0] == 's' else [m for n, m in self.members(t)][:1 if t[0] == 'u' else None]
        for i, s in enumerate(subs):
            if out and s[0] not in 'ifpb' and self.r.random() < .3: out.append(self.braced(s))
            else: out += self.flat(s)
            if part and self.r.random() < .2: break
        return out

    def init(self, t):
        if t[0] in 'ifpb': return self.value(t) if self.r.random() < .9 or t[0] == 'b' else '{ %s }' % self.value(t)
        if t[0] == 's' and self.r.random() < .6: return self.string(t) if self.r.random() < .7 else '{ %s }' % self.string(t)
        return self.braced(t)

    def path(self, t, d=2, again=False):
        """(designator text, designated type, leaf types that follow it inside t); again: only scalars, not in unions"""
        for _ in range(8):
            self.viau = t[0] == 'u'
            p = self.path1(t, d)
            if not again or p[1][0] in 'ifpb' and not self.viau: return p
        return None

    def path1(self, t, d):
        if t[0] == 'u': self.viau = True
        r = self.r
        if t[0] in 'as':
            sub = t[1] if t[0] == 'a' else ('i', t[1])
            i = r.randrange(t[2])
            j = i
            if r.random() < .15 and i + 1 < t[2]: j = r.randint(i + 1, t[2] - 1)
            ds = '[%d]' % i if i == j else '[%d ... %d]' % (i, j)
            later = self.leaves(sub) * (t[2] - 1 - j)
        else:
            ns = self.members(t)
            i = r.randrange(len(ns))
            n, sub = ns[i]
            later = [] if t[0] == 'u' else [x for _, m in ns[i + 1:] for x in self.leaves(m)]
            if not n:      # anonymous member: designate through it
                ds, s2, l2 = self.path1(sub, 0)
                return ds, s2, l2 + later
            ds = '.' + n
            j = i
        if d and sub[0] in 'tuas' and r.random() < .5 and ' ... ' not in ds:
            d2, s2, l2 = self.path1(sub, d - 1)
            return ds + d2, s2, l2 + later
        return ds, sub, later

    def braced(self, t):
        r = self.r
        if t[0] in 'ifpb': return '{ %s }' % self.value(t)
        if r.random() < .08: return '{}'
        items = []
        if t[0] == 's' and r.random() < .5: return '{ %s }' % self.string(t)
        if r.random() < .55:
            subs = [t[1]] * t[2] if t[0] == 'a' else [('i', t[1])] * t[2] if t[0] == 's' else [m for n, m in self.members(t)][:1 if t[0] == 'u' else None]
            k = len(subs) if r.random() < .6 else r.randint(1, len(subs))
            for i, s in enumerate(subs[:k]):
                if s[0] not in 'ifpb' and r.random() < .4: items += self.flat(s, part=i == k - 1)
                else: items.append(self.init(s))
        # designated items, each followed by values for the next subobjects
        if not items or r.random() < .4:
            for _ in range(r.choice([1, 1, 2, 3])):
                p = self.path(t, again=bool(items))
                if not p: break
                ds, s, later = p
                if items and any(l[0] == 'X' for l in later): break
                items.append('%s = %s' % (ds, self.init(s)))
                for l in later[:r.choice([0, 0, 1, 2, 3])]: items.append(self.value(l))
        return '{ %s%s }' % (', '.join(items), ',' if r.random() < .2 else '')


PRE = 'extern char g[16]; extern int gi[4]; enum E { E0, E1, E2 = -3 };\nstatic int id(int a) { return a; }\n#ifdef IN_REF\n#define STATIC\n#else\n#define STATIC static\n#endif\n'


def ks(s): return [k for k in (('K1', 32, 1), ('K2', 64, 1)) if k[0] in s]


def program(rnd, name, auto):
    while 1:
        g = G(rnd, auto)
        t = g.struct(3) if rnd.random() < .7 else g.typ(3)
        if t[0] in 'ifp': continue
        acc = g.access(t, 'v')
        if not 1 <= len(acc) <= 40: continue
        unk = t[0] == 'a' and rnd.random() < .3
        ini = g.braced(t)
        d = g.decl(t, 'v')
        break
    kind = rnd.choice(['plain', 'plain', 'clit', 'ret', 'arr', 'copy']) if auto else rnd.choice(['static', 'static', 'scope'])
    outs = ' '.join('o[%d] = %s;' % (i, a) for i, a in enumerate(acc)) + ' o[%d] = sizeof v;' % len(acc)
    n = len(acc) + 1
    td = 'typedef %s;\n' % g.decl(t, 'TT')
    if kind == 'clit': body = 'TT v = (TT)%s; ' % ini if t[0] in 'tu' else 'TT *q = &(TT)%s; TT v; for (int i = 0; i < sizeof v; i++) ((char *)&v)[i] = ((char *)q)[i]; ' % ini
    elif kind == 'ret' and t[0] in 'tu': td += 'static TT mk(int x, long y) { return (TT)%s; }\n' % ini; body = 'TT v = mk(x, y); '
    elif kind == 'arr': body = 'char c1 = 5; TT v = %s; char c2 = 6; o[%d] = c1 * 8 + c2; ' % (ini, n); n += 1
    elif kind == 'copy': body = 'TT w = %s; TT v; for (int i = 0; i < sizeof v; i++) ((char *)&v)[i] = ((char *)&w)[i]; ' % ini
    elif kind in ('static', 'scope'):
        return T(name, PRE + td + '#ifndef IN_REF\n%s\n#endif\nvoid test(void) {\n%s\n %s }' % ('static char pad1 = 1; static TT v = %s; static char pad2 = 2;' % ini if kind == 'static' else '', '\n#ifdef IN_REF\nTT v = %s;\n#endif\n' % ini if kind == 'static' else 'STATIC TT v = %s;' % ini, outs),
                 'int x, long y, char g[16], int gi[4]', 'long o[%d]' % (n + 1), K=ks(ini), traps=False, timeout=40, flags=('-std=c23',))
    else: body = 'TT v = %s; ' % ini
    return T(name, PRE + td + 'void test(void) { %s%s }' % (body, outs), 'int x, long y, char g[16], int gi[4]', 'long o[%d]' % (n + 1), K=ks(ini), traps=False, timeout=40, flags=('-std=c23',))


# (name, file scope, body, reference body or None)
SPECIAL = [
    ('kdes', '', 'STATIC int a[9] = { [K1 & 7] = 5, 6 }; for (int i = 0; i < 9; i++) o[i] = a[i];', 'int a[9] = {0}; a[K1 & 7] = 5; a[(K1 & 7) + 1] = 6; for (int i = 0; i < 9; i++) o[i] = a[i];'),
    ('kdes2', '', 'int a[9] = { 1, 2, 3, 4, [K1 & 7] = x, y }; for (int i = 0; i < 9; i++) o[i] = a[i];', 'int a[9] = {1, 2, 3, 4}; a[K1 & 7] = x; a[(K1 & 7) + 1] = y; for (int i = 0; i < 9; i++) o[i] = a[i];'),
    ('krange', '', 'STATIC short a[8] = { [K1 & 3 ... 5] = K2 }; for (int i = 0; i < 8; i++) o[i] = a[i];', 'short a[8] = {0}; for (int i = K1 & 3; i < 6; i++) a[i] = K2; for (int i = 0; i < 8; i++) o[i] = a[i];'),
    ('klen', '', 'STATIC char a[] = { [K1 & 15] = 1 }; o[0] = sizeof a; o[1] = a[sizeof a - 1];', 'o[0] = (K1 & 15) + 1; o[1] = 1;'),
    ('klen2', '', 'char a[] = { [K1 & 7] = 1, 2, [2] = 3 }; o[0] = sizeof a; o[1] = a[2];', 'int k = K1 & 7; int n = k + 2; if (n < 3) n = 3; o[0] = n; o[1] = 3;'),
    ('kbf', 'struct B { int a : 5; unsigned b : 11; long c : 37; _Bool d : 1; };', 'STATIC struct B v = { K1, K2, K1, K2 }, w = { .c = K2, .a = K1 }; o[0] = v.a; o[1] = v.b; o[2] = v.c; o[3] = v.d; o[4] = w.a; o[5] = w.b; o[6] = w.c; o[7] = w.d;', None),
    ('kbf2', 'struct B { unsigned short a : 3, b : 13; int : 0; signed char c : 7; int : 0; long d : 64; } __attribute__((packed));', 'STATIC struct B v[2] = { { K1, K2, 3, K2 }, { .d = K1, .b = K1 } }; for (int i = 0; i < 2; i++) { o[i * 4] = v[i].a; o[i * 4 + 1] = v[i].b; o[i * 4 + 2] = v[i].c; o[i * 4 + 3] = v[i].d; }', None),
    ('kall', '', 'STATIC char a = K1; STATIC short b = K1; STATIC int c = K2; STATIC long d = K1; STATIC _Bool e = K2; STATIC unsigned char f = K2; STATIC unsigned long h = K1; STATIC unsigned i = K2; o[0] = a; o[1] = b; o[2] = c; o[3] = d; o[4] = e; o[5] = f; o[6] = h; o[7] = i;', None),
    ('addr', 'int arr[10]; struct S { int a; struct { char c; long l[3]; } b; } st;', 'STATIC long p[] = { (long)&arr[3], (long)(arr + 9), (long)&st.b.l[2], (long)&st.b, (long)((char *)&arr[4] - 3), (long)&arr, (long)*&arr }; o[0] = p[0] - (long)arr; o[1] = p[1] - (long)arr; o[2] = p[2] - (long)&st; o[3] = p[3] - (long)&st; o[4] = p[4] - (long)arr; o[5] = p[5] - (long)arr; o[6] = p[6] - (long)arr;', None),
    ('addrk', 'char big[16];', 'STATIC char *p = big + (short)K1; STATIC char *q = &big[(signed char)K2]; STATIC int *r = (int *)big + (short)K1; STATIC char *s[2] = { big - (signed char)K1, 0 }; o[0] = p - big; o[1] = q - big; o[2] = (char *)r - big; o[3] = s[0] - big; o[4] = (long)s[1];', None),
    ('fn', 'int f1(int a) { return a + 1; } int f2(int a) { return a * 2; }', 'STATIC int (*t[])(int) = { f1, &f2, [3] = *f1, [2] = 0 }; STATIC struct { int k; int (*f)(int); } s = { .f = f2 }; o[0] = t[0](x); o[1] = t[1](5); o[2] = t[3](x) + !t[2]; o[3] = s.f(7) + s.k; o[4] = sizeof t;', None),
    ('str', '', 'STATIC char *p = "hello", *q = "a\\0b" "c"; STATIC char a[] = "xyz", b[3] = "xyz", c[6] = "xyz", d[] = { "pq" }; o[0] = p[1] * 256 + p[5]; o[1] = q[2] * 65536 + q[3] * 256 + q[4]; o[2] = sizeof a; o[3] = b[2] + sizeof b; o[4] = c[2] * 256 + c[3] + c[5]; o[5] = sizeof d + d[1]; o[6] = sizeof "ab" "c"; o[7] = "hello"[x & 3];', None),
    ('strs', '', 'STATIC struct { char s[4]; char *p; char t[2][3]; } v[2] = { { "abc", "de", "fg", "hi" }, { { \'a\' }, 0, { "jk" } } }; o[0] = v[0].s[2]; o[1] = v[0].p[1]; o[2] = v[0].t[1][0]; o[3] = v[1].s[0]; o[4] = v[1].s[1]; o[5] = v[1].t[0][1]; o[6] = v[1].t[1][0];', None),
    ('flex', 'struct F { int n; short d[]; };\n#ifndef IN_REF\nstatic struct F f = { 3, { K1, K2, 7 } }; static struct F h = { .n = 4, .d = { [2] = K1 } };\n#endif\n', '\n#ifdef IN_REF\nshort fd[3] = { K1, K2, 7 }, hd[3] = { [2] = K1 }; o[0] = 3; o[1] = fd[0]; o[2] = fd[1]; o[3] = fd[2]; o[4] = hd[0]; o[5] = hd[2];\n#else\no[0] = f.n; o[1] = f.d[0]; o[2] = f.d[1]; o[3] = f.d[2]; o[4] = h.d[0]; o[5] = h.d[2];\n#endif\n', None),
    ('flexs', 'struct F { char n; char d[]; };\nstatic struct F f = { 3, "hello" }; static char nx = 9;\n', 'o[0] = f.n; for (int i = 0; i < 6; i++) o[i + 1] = f.d[i]; o[7] = nx; o[8] = sizeof f;', None),
    ('union', 'union U { char c; int i; long l; struct { short a, b; } s; };', 'STATIC union U v[4] = { { K1 }, { .l = K2 }, { .s.b = K1, }, { .i = K2 } }; o[0] = v[0].c; o[1] = v[1].l; o[2] = v[2].s.b; o[3] = v[3].i; o[4] = v[2].s.a;', None),
    ('unionover', 'union U { int i; short s[2]; }; struct W { union U u; int k; };', 'STATIC struct W v = { .u.i = 0x12345678, .u.s[1] = K1, K2 }; o[0] = v.u.s[1]; o[1] = v.k;', 'o[0] = (short)K1; o[1] = (int)K2;'),
    ('clit', 'struct S { int a; long b[2]; };', 'STATIC struct S *p = &(struct S){ K1, { K2 } }; STATIC int *q = (int[]){ K1, 2, K2 }; STATIC char *s = (char[]){ "abc" }; o[0] = p->a; o[1] = p->b[0]; o[2] = p->b[1]; o[3] = q[0]; o[4] = q[2]; o[5] = s[1]; o[6] = sizeof (int[]){ 1, 2, 3 }; o[7] = ((struct S){ .b = { [1] = x } }).b[1];', None),
    ('clits', 'struct S { int a; short b; };\n#ifndef IN_REF\nstatic struct S s1 = (struct S){ K1, K2 }; static struct S s2[2] = { (struct S){ K1 }, { .b = K2 } }; struct S *sp = &(struct S){ 5, K1 }; int ci = (int){ K2 };\n#endif\n', '\n#ifdef IN_REF\no[0] = (int)K1; o[1] = (short)K2; o[2] = (int)K1; o[3] = 0; o[4] = (short)K2; o[5] = (short)K1; o[6] = (int)K2;\n#else\no[0] = s1.a; o[1] = s1.b; o[2] = s2[0].a; o[3] = s2[0].b; o[4] = s2[1].b; o[5] = sp->b; o[6] = ci;\n#endif\n', None),
    ('tls', '#ifndef IN_REF\n#define TL static _Thread_local\n#else\n#define TL\n#endif\n', 'TL int a = K1; TL short b[3] = { 1, K2 }; TL long z; ++z; o[0] = a; o[1] = b[0]; o[2] = b[1]; o[3] = b[2]; ', 'o[0] = (int)K1; o[1] = 1; o[2] = (short)K2; o[3] = 0;'),
    ('bss', 'static int z1[20]; static struct { char c; long l; } z2; static int z3 = 0; int com;', 'o[0] = z1[x & 15] + z2.l + z2.c + z3 + com; o[1] = sizeof z1;', None),
    ('align', 'static _Alignas(64) char al = 3; static char c1 = 1; static long l1 = 2; static struct { char c; } __attribute__((aligned(32))) v = { 4 };', 'o[0] = (long)&al & 63; o[1] = (long)&v & 31; o[2] = (long)&l1 & 7; o[3] = al + c1 + l1 + v.c;', None),
    ('zerobig', 'struct Z { int a[100]; char c; };', 'struct Z v = { { [50] = x }, .c = y }; long s = 0; for (int i = 0; i < 100; i++) s += i == 50 ? 0 : v.a[i]; o[0] = s; o[1] = v.a[50]; o[2] = v.c;', None),
    ('selfref', '', 'int a = 5; int *p = &p == 0 ? 0 : &a; struct { void *s; int k; } v = { &v, x }; o[0] = v.s == &v; o[1] = *p; o[2] = v.k;', None),
    ('selfstat', 'static struct N { struct N *n; int v; } n1 = { &n1, 5 }, n2 = { &n1, 6 }; static void *vp = &vp;', 'o[0] = n1.n == &n1; o[1] = n2.n->v; o[2] = vp == (void *)&vp;', None),
    ('scalarbr', '', 'STATIC int a = { K1 }; int b = { x }; STATIC long c = { K2, }; long e = {}; o[0] = a; o[1] = b; o[2] = c; o[3] = e;', None),
    ('arrinit', '', 'struct S { int a[3]; } s = { { 1, x, 3 } }; struct S t[2] = { s, { 7 } }; struct { struct S s; int k; } u = { s, 9 }, w = { .k = 3, .s.a[0] = 4 }; o[0] = t[0].a[1]; o[1] = t[1].a[0] + t[1].a[2]; o[2] = u.s.a[1] + u.k; o[3] = w.s.a[0];', None),
    ('override', '', 'STATIC int a[5] = { 1, 2, [1] = K1, 3, [0] = K2, [4] = 9, [3] = 8 }; for (int i = 0; i < 5; i++) o[i] = a[i];', None),
    ('nest', '', 'STATIC struct { int a[2][3]; struct { char c; short d[2]; } e[2]; } v = { .a[1][1] = K1, K2, .e[0] = { 1, 2, 3 }, { .d[1] = K1 }, }; o[0] = v.a[1][1]; o[1] = v.a[1][2]; o[2] = v.e[0].d[1]; o[3] = v.e[1].d[1]; o[4] = v.a[0][0] + v.e[1].c;', None),
    ('wide', '', 'STATIC unsigned short u[] = u"a\\u00e9\\U0001F600"; STATIC unsigned U[] = U"\\U0001F600z"; STATIC int L[] = L"\\x1234"; o[0] = sizeof u; o[1] = u[1]; o[2] = u[2] * 65536L + u[3]; o[3] = U[0]; o[4] = sizeof U; o[5] = L[0]; o[6] = sizeof L;', None),
    ('constx', '', 'constexpr int c1 = 7; constexpr struct { int a; short b[2]; } cs = { 3, { 4, 5 } }; STATIC int a[c1 - 5] = { cs.a, cs.b[1] }; o[0] = a[0]; o[1] = a[1]; o[2] = sizeof a;', 'o[0] = 3; o[1] = 5; o[2] = 8;'),
    ('embedded', '', 'STATIC const char s[] = __FILE__ "x", t[] = __func__ == 0 ? "" : ""; o[0] = sizeof t;', 'o[0] = 1;'),
]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 11)
    b = core.Build()
    tests = []
    for n, fs, body, ref in SPECIAL:
        if n == 'embedded': continue
        src = PRE + fs + 'void test(void) { %s }' % body
        tests.append(T('sp_' + n, src, 'int x, long y, char g[16], int gi[4]', 'long o[10]', K=ks(fs + body), ref=(PRE + fs + 'void test(void) { %s }' % ref) if ref else None, traps=False, timeout=60, flags=('-std=c23', '-fenable-universal-char'), maxpaths=1200))
    for n, v in (('a', 'K1'), ('b', 'x'), ('c', 'K1 ? x : 3')):
        for opt in ((), ('-O0',)):
            tests.append(T('aut_%s%s' % (n, 'O' * len(opt)), PRE + 'void test(void) { struct { char a; struct { int b : 7, c : 9; long d; } e[2]; unsigned char f[5]; double h; } v = { V, { { V, V, V }, { .c = V } }, { V, [3] = V } }; o[0] = v.a; o[1] = v.e[0].b; o[2] = v.e[0].c; o[3] = v.e[0].d; o[4] = v.e[1].b; o[5] = v.e[1].c; o[6] = v.e[1].d; o[7] = v.f[0] + v.f[1] * 256 + v.f[3] * 65536; o[8] = *(long *)&v.h; }'.replace('V', v),
                           'int x, long y, char g[16], int gi[4]', 'long o[9]', K=ks(v), traps=False, flags=('-std=c23',) + opt))
    N = 2500 if thorough else 330
    for k in range(N):
        tests.append(program(rnd, 'r%d' % k, auto=k % 2 == 0))
    bad = 0
    ck.bounds = ['%d random aggregate types of nesting <= 3 and at most 40 scalars with a random initializer each (designators, ranges, overrides, brace elision, strings); %d special forms' % (N, len(SPECIAL)), 'the values of the element initializers: two symbolic constants and two symbolic variables']
    ck.assume = ['reference: the same initializer of an automatic object compiled by clang -O0 with the constants in variables', 'padding and the inactive bytes of unions are not compared']
    equiv.run_all(ck, b, tests, each=80 if not thorough else 240, total=600 if not thorough else 3000)
