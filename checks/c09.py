"""layout of structures and unions: sizes, alignments, offsets and bit positions as functions of symbolic
bit-field widths, array lengths and alignments"""
import random
import core, equiv
from equiv import T

SC = [('char', 1, 1), ('short', 2, 2), ('int', 4, 4), ('long', 8, 8), ('_Bool', 1, 1), ('float', 4, 4), ('double', 8, 8), ('void *', 8, 8), ('long double', 16, 16), ('unsigned short', 2, 2), ('unsigned char', 1, 1)]
BF = [('int', 4), ('unsigned', 4), ('long', 8), ('unsigned long', 8), ('short', 2), ('unsigned short', 2), ('char', 1), ('unsigned char', 1), ('long long', 8)]


class L:
    """a random aggregate: its declaration and the C code computing its layout with run-time values"""

    def __init__(self, rnd, kmax=3):
        self.r, self.n, self.code, self.outs, self.K, self.pre, self.kmax, self.probe = rnd, 0, '', [], [], [], kmax, None

    def tmp(self): self.n += 1; return 'v%d' % self.n

    def mem(self): self.n += 1; return 'm%d' % self.n

    def k(self, lo, hi):
        """a symbolic constant in [lo, hi] (None when there are enough)"""
        if len(self.K) >= self.kmax: return str(self.r.randint(lo, min(hi, lo + 40)))
        n = 'K%d' % (len(self.K) + 1)
        self.K.append((n, 32, 1))
        self.pre.append('%s >= %d' % (n, lo)); self.pre.append('%s <= %d' % (n, hi))
        return n

    def al(self, e, a): return '((%s + %s - 1) & -(long)(%s))' % (e, a, a)

    def typ(self, d):
        """(prefix declaration text before the name, text after it, size expression, alignment expression)"""
        r = self.r
        k = r.random()
        if d > 0 and k < .25:
            t, s, a = self.agg(d - 1)
            return t, '', s, a
        n, s, a = r.choice(SC)
        if k < .5:
            ln = self.k(1, 100000) if r.random() < .6 else str(r.randint(1, 9))
            if d > 0 and r.random() < .3: return n, '[%s][3]' % ln, '(%d * (long)%s)' % (s * 3, ln), str(a)
            return n, '[%s]' % ln, '(%d * (long)%s)' % (s, ln), str(a)
        if k < .56 and d > 0:
            t, s, a = self.agg(d - 1)
            ln = str(r.randint(1, 4))
            return t, '[%s]' % ln, '(%s * %s)' % (s, ln), a
        return n, '', str(s), str(a)

    def agg(self, d, top=False):
        r = self.r
        un = r.random() < .22
        packed = r.random() < .18
        bits, sz, alg = self.tmp(), self.tmp(), self.tmp()
        self.code += 'long %s = 0, %s = 0, %s = %d;\n' % (bits, sz, alg, 1)
        ms = ''
        path = []
        for i in range(r.choice([1, 2, 3, 4, 5]) if top else r.choice([1, 2, 3])):
            if r.random() < (.5 if top else .3):
                n, s = r.choice(BF)
                unnamed = r.random() < .2
                w = self.k(0 if unnamed else 1, s * 8) if r.random() < .75 else str(r.randint(0 if unnamed else 1, s * 8))
                nm = '' if unnamed else self.mem()
                ms += '%s %s : %s; ' % (n, nm, w)
                if packed and not un: self.nopack = True
                U = s * 8
                if un:
                    self.code += 'MAXI(%s, ((long)%s + 7) / 8);\n' % (sz, w)
                else:
                    t = self.tmp()
                    z = self.tmp()
                    if packed: self.code += 'long %s = -(long)(%s == 0); %s = (%s & ~%s) | (%s & %s);\n' % (z, w, bits, bits, z, self.al(bits, str(U)), z)
                    else:
                        self.code += 'long %s = -(long)(%s / %d != (%s + (long)%s - 1) / %d) | -(long)(%s == 0);\n' % (z, bits, U, bits, w, U, w)
                        self.code += '%s = (%s & ~%s) | (%s & %s);\n' % (bits, bits, z, self.al(bits, str(U)), z)
                    if nm and top: self.bfpos = getattr(self, 'bfpos', []) + [(nm, self.snap(bits))]
                    self.code += '%s += (long)%s;\n' % (bits, w)
                if not unnamed and not packed: self.code += 'MAXI(%s, %d);\n' % (alg, s)
                continue
            pre, post, ms_, ma = self.typ(d)
            nm = self.mem()
            anon = pre.startswith(('struct', 'union')) and not post and r.random() < .25
            aa = None
            if not anon and r.random() < .2 and not (packed and pre.startswith(('struct', 'union'))):
                aa = r.choice(['4', '8', '16', '2', '32'])
                if r.random() < .3:
                    kk = self.k(0, 5); aa = '(1 << %s)' % kk
            att = ' __attribute__((aligned(%s)))' % aa if aa else ''
            ms += '%s %s%s%s; ' % (pre, '' if anon else nm, post, att)
            eff = self.tmp()
            if packed and aa: self.code += 'long %s = %s;\n' % (eff, aa)
            elif packed: self.code += 'long %s = 1;\n' % eff
            else:
                self.code += 'long %s = %s;\n' % (eff, ma)
                if aa: self.code += 'MAXI(%s, %s);\n' % (eff, aa)
            if un: self.code += 'MAXI(%s, %s); MAXI(%s, %s);\n' % (sz, ms_, alg, eff)
            else:
                b8 = self.al(bits, '(8 * %s)' % eff)
                self.code += '%s = %s;\n' % (bits, b8)
                if top and not anon: self.outs.append((nm, self.snap(bits + ' / 8')))
                self.code += '%s += 8 * (%s); MAXI(%s, %s);\n' % (bits, ms_, alg, eff)
        post = ''
        if r.random() < .12:
            aa = r.choice(['2', '8', '16', '64'])
            post = ' __attribute__((aligned(%s)))' % aa
            self.code += 'MAXI(%s, %s);\n' % (alg, aa)
        if un: self.code += '%s = %s;\n' % (sz, self.al(sz, alg))
        else: self.code += '%s = %s / 8;\n' % (sz, self.al(bits, '(8 * %s)' % alg))
        kw = ('union' if un else 'struct') + (' __attribute__((packed%s))' % (', aligned(%s)' % aa if post else '') if packed else post)
        return kw + ' { ' + ms + '}', sz, alg

    def snap(self, v):
        t = self.tmp(); self.code += 'long %s = %s;\n' % (t, v); return t


MAXI = '#define MAXI(a, b) do { long b_ = (b); long c_ = -(long)(a < b_); a = (a & ~c_) | (b_ & c_); } while (0)\n'


def program(rnd, name, thorough):
    while 1:
        g = L(rnd, rnd.choice([1, 1, 2, 2, 2, 3]) if not thorough else 3)
        t, sz, al = g.agg(2, top=True)
        if not g.K: continue
        if 'struct  {' in t: continue
        break
    tag = t.split(' ')[0]
    decl = 'typedef %s TT;\n' % t
    items = ['sizeof(TT)', '_Alignof(TT)'] + ['__builtin_offsetof(TT, %s)' % n for n, _ in g.outs] + ['sizeof(TT[3])']
    vals = [sz, al] + [v for _, v in g.outs] + ['3 * ' + sz]
    dut = decl + 'static long tab[] = { %s };\nvoid test(void) { for (int i = 0; i < %d; i++) o[i] = tab[i]; }' % (', '.join(items), len(items))
    ref = MAXI + 'void test(void) {\n%s %s }' % (g.code, ' '.join('o[%d] = %s;' % (i, v) for i, v in enumerate(vals)))
    return mk(name, dut, ref, len(items), g)


def mk(name, dut, ref, n, g, timeout=7):
    import re
    kas = []
    for p in g.pre:
        m = re.match(r'(\w+) (>=|<=) (-?\d+)', p)
        kas.append('(%s %s (_ bv%d 32))' % ('bvsge' if m.group(2) == '>=' else 'bvsle', m.group(1), int(m.group(3))))
    return T(name, dut, '', 'long o[%d]' % n, K=g.K, ref=ref, pre=tuple(g.pre), kassume=kas, traps=False, timeout=timeout, flags=('-std=c23',), maxpaths=3000)


def bitprog(rnd, name):
    """where each bit-field lies: the bytes of a static object with all bits of one field set"""
    g = L(rnd, 3)
    nf = rnd.choice([2, 3, 3])
    fs = []
    bits = 'b'
    g.code = 'long b = 0;\n'
    ms = ''
    which = rnd.randrange(nf)
    if rnd.random() < .3: ms += 'char c0; '; g.code += 'b = 8;\n'
    tot = 0
    for i in range(nf):
        n, s = rnd.choice(BF)
        w = g.k(1, s * 8) if i < 2 or rnd.random() < .5 else str(rnd.randint(1, s * 8))
        z = rnd.random() < .12
        U = s * 8
        if z: ms += '%s : 0; ' % n; g.code += 'b = (b + %d) & -%dL;\n' % (U - 1, U)
        ms += '%s f%d : %s; ' % (n, i, w)
        zt = g.tmp()
        g.code += 'long %s = -(long)(b / %d != (b + (long)%s - 1) / %d); b = (b & ~%s) | (((b + %d) & -%dL) & %s);\n' % (zt, U, w, U, zt, U - 1, U, zt)
        if i == which:
            pos, wid = g.snap('b'), w
        g.code += 'b += (long)%s;\n' % w
        tot += s * 2
    ms += 'char end; '
    tot += 2
    N = (tot + 15) // 8
    sg = '' if rnd.random() < .5 else '1 ? -1 : '
    dut = 'struct S { %s };\nstatic union { struct S s; unsigned long w[%d]; } v = { { .f%d = -1 } };\nvoid test(void) { for (int i = 0; i < %d; i++) o[i] = v.w[i]; o[%d] = __builtin_offsetof(struct S, end); }' % (ms, N, which, N, N)
    ref = 'void test(void) {\n%s long p = %s, w = %s;\n' % (g.code, pos, wid)
    ref += ''.join('o[%d] = bitsof(%d, p, w);\n' % (i, 64 * i) for i in range(N)) + 'o[%d] = (b + 7) / 8; }' % N
    ref = 'static unsigned long bitsof(long base, long p, long w) { unsigned long r = 0; for (int i = 0; i < 64; i++) { unsigned long in = (base + i >= p) & (base + i < p + w); r |= in << i; } return r; }\n' + ref
    return mk(name, dut, ref, N + 1, g, timeout=60)


def run(ck, thorough):
    rnd = random.Random(core.SEED + 9)
    b = core.Build()
    n1, n2 = (1500, 300) if thorough else (170, 16)
    tests = [program(rnd, 's%d' % i, thorough) for i in range(n1)] + [bitprog(rnd, 'b%d' % i) for i in range(n2)]
    if thorough:
        for t in tests: t.timeout = 120
    g = L(rnd, 1)
    k = g.k(0, 3)
    tests.append(mk('packed_member', 'struct M { long x; };\nstruct __attribute__((packed)) S { char c; struct M m __attribute__((aligned(1 << %s))); };\nvoid test(void) { o[0] = __builtin_offsetof(struct S, m); }' % k, 'void test(void) { o[0] = 1L << %s; }' % k, 1, g))
    ck.bounds = ['%d random declarations of structures and unions (nesting <= 3, at most 5 members per level) with up to 3 symbolic parameters: bit-field widths (all valid values), array lengths (1..100000), alignments (1..32)' % n1, '%d structures of bit-fields with symbolic widths: position of every bit' % n2]
    ck.assume = ['oracle: the System V x86-64 layout rules written as run-time arithmetic (checks/c09.py), agreeing with clang on the concrete instances tried while it was developed']
    equiv.run_all(ck, b, tests, each=80 if not thorough else 240, total=600 if not thorough else 3000)
