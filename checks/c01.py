import random
import core, equiv
from equiv import T
from gen import *

ARITH = ['+', '-', '*', '&', '|', '^']
CMP = ['<', '<=', '>', '>=', '==', '!=']


def pair_programs(rnd, thorough):
    out = []
    types = ALLI
    for ia, A in enumerate(types):
        for ib, B in enumerate(types):
            for rep in range(3 if thorough else 1):
                fa, fb = rnd.choice(FNAMES), rnd.choice(FNAMES)
                f1, d1, e1 = operand(fa, A, 'x', 1)
                f2, d2, e2 = operand(fb, B, 'y', 2)
                nm = '%s_%s_%s_%s_%d' % (ID[A], ID[B], fa, fb, rep)
                hdr = f1 + f2
                ins = '%s x, %s y' % (A, B)
                k = 0
                def prog(tag, exprs, otype='long'):
                    body = ' '.join('o[%d] = %s;' % (i, x) for i, x in enumerate(exprs))
                    return T(nm + '_' + tag, hdr + 'void test(void) { %s %s %s }' % (d1, d2, body), ins, '%s o[%d]' % (otype, len(exprs)))
                out.append(prog('arith', ['%s %s %s' % (e1, o, e2) for o in ARITH] + ['-(%s)' % e1, '~(%s)' % e1, '!(%s)' % e1, '+(%s)' % e1]))
                out.append(prog('cmp', ['%s %s %s' % (e1, o, e2) for o in CMP]))
                out.append(prog('logic', ['%s && %s' % (e1, e2), '%s || %s' % (e1, e2), '(%s) ? %s : 1' % (e1, e2), '!(%s)' % e2]))
                out.append(prog('condcmp', ['(%s %s %s) ? 3 : 4' % (e1, o, e2) for o in rnd.sample(CMP, 3)]))
                out.append(prog('div', ['%s / %s' % (e1, e2), '%s %% %s' % (e1, e2)]))
                out.append(prog('shift', ['%s << %s' % (e1, e2), '%s >> %s' % (e1, e2)]))
                if is_lvalue(fa):
                    ops = ['+', '-', '&', '|', '^', '*']
                    body, n = '', 0
                    for o in ops:
                        body += 'o[%d] = (%s %s= %s); o[%d] = %s; %s = x;' % (n, e1, o, e2, n + 1, e1, e1 if fa not in ('global', 'gptr') else 'z = 0; x')
                        n += 2
                    if fa in ('global', 'gptr'):
                        body = body.replace('z = 0; x = x;', '')
                    out.append(T(nm + '_asg', hdr + 'void test(void) { %s %s %s }' % (d1, d2, body), ins, 'long o[%d]' % n + (', %s x_' % A)))
                    out.append(T(nm + '_asgsh', hdr + 'void test(void) { %s %s o[0] = (%s <<= %s); o[1] = %s; %s = %s; o[2] = (%s >>= %s); }' % (d1, d2, e1, e2, e1, e1, 'x', e1, e2), ins, 'long o[3]'))
                    out.append(T(nm + '_asgdiv', hdr + 'void test(void) { %s %s o[0] = (%s /= %s); o[1] = %s; o[2] = (%s %%= %s); }' % (d1, d2, e1, e2, e1, e1, e2), ins, 'long o[3]'))
                    if ib == 0 or thorough:
                        out.append(T(nm + '_incdec', hdr + 'void test(void) { %s %s o[0] = %s++; o[1] = %s; o[2] = %s--; o[3] = %s; o[4] = ++%s; o[5] = --%s; ++%s; o[6] = %s; %s--; %s--; o[7] = %s; }' % ((d1, d2) + (('(%s)' % e1),) * 11), ins, 'long o[8]'))
                out.append(T(nm + '_conv', hdr + 'void test(void) { %s %s o[0] = (%s)%s; %s w = %s; o[1] = w; w = (%s)(%s + 1); o[2] = w; o[3] = (%s)(unsigned char)%s; o[4] = (long)(%s)%s >> 3; }' % (d1, d2, B, e1, B, e1, B, e1, B, e1, B, e1), ins, 'long o[5]'))
    return out


def conv_programs():
    """every integer conversion of an operand that instructions can address directly, in every kind of consumer"""
    out = []
    for A in ALLI:
        for B in ALLI:
            hdr = 'typedef %s A; typedef %s B; static struct { char c; A m; A v[3]; } g; static long fl(long p) { return p; } static int fi(int k, int p) { return p + k; } static B fb(B p) { return p; } static long fx(int a, int b, long c, B d) { return d; }\n' % (A, B)
            forms = ['x', 'l', 's.m', 'g.m', 'g.v[1]', 's.v[2]', '*p', 'p[i]', 'q->m']
            uses = ['(B)E', '(long)((B)E + 1)', '(B)E < 5', '(long)(B)E & -256L', 'fl((B)E)', 'fi(2, (B)E)', 'fb(E)', '-(B)E', '(unsigned)(B)E >> 3', 'fx(1, 2, 3, E)', '(long)(unsigned)(B)E', 'y + (B)E', '(B)E == y', '(_Bool)(B)E', '(B)(E + 1)', 'y ? (B)E : 7', '~(B)E', 'y ^ (B)E', '(B)E - y', '(y, (B)E)', '(short)(B)E', '(B)E + 3u', '(B)E >> 1', '!(B)E']
            st, n = '', 0
            for f in forms:
                for u in uses[::1]:
                    if (hash_(A + B + f + u) & 7) and (f != 'l' or hash_(u + A + B) & 1): continue
                    st += 'o[%d] = %s; ' % (n, u.replace('E', f)); n += 1
                if f in ('l', 'g.m'):
                    st += '{ B w = %s; o[%d] = w; w = 0; w = %s; o[%d] = w; long z = (B)%s; o[%d] = z; z = 0; z = (B)%s; z += (B)%s; o[%d] = z; w |= %s; o[%d] = w; w -= %s; o[%d] = w; } ' % (f, n, f, n + 1, f, n + 2, f, f, n + 3, f, n + 4, f, n + 5); n += 6
            out.append(T('cv_%s_%s' % (ID[A], ID[B]), hdr + 'void test(void) { A l = x, *p = &l; int i = 0; struct { char c; A m; A v[3]; } s = { 1, x, { 2, 3, x } }, *q = &s; g.m = x; g.v[1] = x; %s }' % st, '%s x, int y' % A, 'long o[%d]' % n, traps=False, solver_ms=4000, timeout=20))
    return out


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def random_programs(rnd, n):
    out = []
    for k in range(n):
        nv = rnd.choice([2, 3, 3, 4])
        ins, fs, ds, vs = [], '', '', []
        for i in range(nv):
            A = rnd.choice(ALLI)
            f, d, e = operand(rnd.choice(FNAMES), A, 'x%d' % i, i + 1)
            ins.append('%s x%d' % (A, i)); fs += f; ds += d + ' '; vs.append('(%s)' % e)
        g = Expr(rnd, vs, muls=1, divs=1)
        body = ''
        m = 3
        for j in range(m): body += 'o[%d] = %s; ' % (j, g.gen(rnd.choice([2, 3, 3, 4])))
        ot = rnd.choice(['long', 'long', 'int', 'unsigned char', 'short', '_Bool'])
        out.append(T('rnd%d' % k, fs + 'void test(void) { %s%s}' % (ds, body), ', '.join(ins), '%s o[%d]' % (ot, m), solver_ms=8000, maxpaths=300))
    return out


def run(ck, thorough):
    rnd = random.Random(core.SEED)
    b = core.Build(bitcode=False)
    ck.bounds = ['one binary/unary/assignment operation per statement for every ordered pair of 11 integer types, operands reached through %d forms (chosen per pair by the seed)' % len(FNAMES),
                 'random nested expressions of depth <= 4 over <= 4 variables', 'all operand values (no bound on values)']
    ck.assume = ['reference semantics: clang -O0 code of the same source with undefined cases trapping (excluded)', 'x86-64 instruction semantics as encoded in lib/asmx.py',
                 'programs whose run the reference leaves undefined are excluded']
    tests = conv_programs() + pair_programs(rnd, thorough) + random_programs(rnd, 1500 if thorough else 250)
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=500 if not thorough else 3000)
