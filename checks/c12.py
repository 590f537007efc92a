"""calls between code compiled by slimcc and code compiled by clang, both directions"""
import random
import core, equiv
from equiv import T

INT = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool', 'char']
LEAF = INT + ['float', 'float', 'double', 'double', 'char *', 'int *', 'enum En']


class Gen:
    def __init__(self, rnd):
        self.r, self.types, self.n = rnd, '', 0
        self.ins, self.pos = {}, {}

    def val(self, ty):
        """an expression of type ty reading a fresh input"""
        if ty.endswith('*'): return '(%s)%s' % (ty, self.val('long'))
        if ty == 'enum En': return '(enum En)' + self.val('unsigned')
        nm = {'_Bool': 'xb', 'long double': 'xld', 'float': 'xf', 'double': 'xd', 'unsigned': 'xu'}.get(ty) or {1: 'xc', 2: 'xs', 4: 'xi', 8: 'xl'}[equiv.SIZES[ty]]
        t = {'xb': '_Bool', 'xld': 'long double', 'xf': 'float', 'xd': 'double', 'xc': 'signed char', 'xs': 'short', 'xi': 'int', 'xl': 'long', 'xu': 'unsigned'}[nm]
        k = self.ins.setdefault(nm, [t, 0])
        k[1] += 1
        e = '%s[%d]' % (nm, k[1] - 1)
        return e if t == ty else '(%s)%s' % (ty, e)

    def struct(self, depth=0):
        """(C type name, leaves [(path, type)])"""
        r = self.r
        self.n += 1
        nm = 'S%d' % self.n
        union = r.random() < .15
        mem, leaves = '', []
        pk = ' __attribute__((packed))' if r.random() < self.packed else ''
        size = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
        homog = r.random()
        fam = ['float'] if homog < .12 else ['double'] if homog < .2 else ['signed char', 'unsigned char'] if homog < .33 else ['short', 'char'] if homog < .4 else ['float', 'double', 'int'] if homog < .55 else ['long double', 'double'] if homog < .6 else LEAF
        for i in range(size):
            k = r.random()
            m = 'm%d' % i
            if depth < 2 and k < .12:
                t, L = self.struct(depth + 1)
                mem += '%s %s; ' % (t, m)
                sub = [(m + '.' + p, ty) for p, ty in L]
            elif k < .27:
                ty = r.choice(fam); n = r.choice([1, 2, 2, 3, 5])
                mem += '%s %s[%d]; ' % (ty, m, n)
                sub = [('%s[%d]' % (m, j), ty) for j in range(n)]
            elif k < .35 and fam is LEAF and not pk:
                w = r.randrange(1, 30)
                mem += 'int %s : %d; ' % (m, w)
                sub = [(m, 'bit%d' % w)]
            elif k < .38 and fam is LEAF and not depth:
                ty = r.choice(['int', 'double', 'char']); al = r.choice([8, 16, 16, 32])
                mem += '_Alignas(%d) %s %s; ' % (al, ty, m)
                sub = [(m, ty)]
            else:
                ty = r.choice(fam)
                mem += '%s %s; ' % (ty, m)
                sub = [(m, ty)]
            if union: leaves = sub if not leaves or r.random() < .5 else leaves
            else: leaves += sub
        self.types += '%s %s%s { %s};\n' % ('union' if union else 'struct', pk, nm, mem)
        return ('union ' if union else 'struct ') + nm, leaves
    packed = 0.0

    def out(self, ty, e, kind, outs):
        base = {'float': 'of', 'double': 'od', 'long double': 'old'}.get(ty, 'o')
        outs[base + kind] = outs.get(base + kind, 0) + 1
        return '%s[%d] = %s%s; ' % (base + kind, outs[base + kind] - 1, '(long)' if base == 'o' else '', e)


def outdecl(outs):
    ty = {'of': 'float', 'od': 'double', 'old': 'long double', 'o': 'long'}
    return ', '.join('%s %s[%d]' % (ty[k[:-1]], k, n) for k, n in outs.items())


def prog(rnd, name, dut, nargs, packed=0.0, scalars=False, ptr=False, focus=None):
    """dut: 'caller' or 'callee' is compiled by slimcc"""
    g = Gen(rnd); g.packed = packed
    outs = {}
    def mk():
        k = rnd.random()
        if focus == 'int': return rnd.choice(INT), None
        if focus == 'fp': return rnd.choice(['float', 'double', 'double', 'int']), None
        if scalars or k < .55: return rnd.choice(INT + ['float', 'double', 'float', 'double', 'long double', 'char *', 'enum En']), None
        return g.struct()
    params = [mk() for _ in range(nargs)]
    ret = mk() if rnd.random() < .8 else ('void', None)
    # callee
    body = ''
    for i, (ty, L) in enumerate(params):
        if L is None: body += g.out(ty, 'a%d' % i, 'a', outs)
        else:
            for p, t in L: body += g.out(t, 'a%d.%s' % (i, p), 'a', outs)
    body = 'oa[0] = (long)__builtin_frame_address(0) & 15; '.replace('oa[0]', 'al[0]') + body if dut == 'caller' else body
    def setv(lv, ty, L):
        if L is None: return '%s = %s; ' % (lv, g.val(ty))
        s = ''
        for p, t in L: s += '%s.%s = %s; ' % (lv, p, g.val('int' if t.startswith('bit') else t))
        return s
    if ret[0] != 'void':
        if ret[1] is None: body += rnd.choice(['return %s; ' % g.val(ret[0]), '%s r; %s return r; ' % (ret[0], setv('r', *ret))])
        else: body += '%s r; ' % ret[0] + setv('r', *ret) + 'return r; '
    proto = '%s f(%s)' % (ret[0], ', '.join('%s a%d' % (t, i) for i, (t, _) in enumerate(params)) or 'void')
    # caller
    c = ''
    args = []
    for i, (ty, L) in enumerate(params):
        if L is None:
            m = rnd.random()
            if m < .5: args.append(g.val(ty))
            elif m < .65 and ty in INT: args.append('(%s)%d' % (ty, rnd.choice([0, 1, -1, 127, 200])))
            else: c += '%s v%d; ' % (ty, i) + setv('v%d' % i, ty, L); args.append('v%d' % i)
        else:
            c += '%s v%d; ' % (ty, i) + setv('v%d' % i, ty, L)
            m = rnd.random()
            if m < .15:
                g.types += 'static %s id%d(%s v) { return v; }\n' % (ty, i, ty)
                args.append('id%d(v%d)' % (i, i)); continue
            args.append('v%d' % i if m < .6 else '*&v%d' % i if m < .8 else '(xi0 ? v%d : v%d)' % (i, i))
    call = 'f(%s)' % ', '.join(args)
    if ptr: c += '%s = f; ' % proto.replace(' f(', ' (*fp)(', 1); call = 'fp' + call[1:]
    if ret[0] == 'void': c += call + '; '
    elif ret[1] is None: c += g.out(ret[0], call, 'r', outs)
    else:
        if rnd.random() < .75 or len(ret[1]) > 1:
            c += '%s r = %s; ' % (ret[0], call)
            for p, t in ret[1]: c += g.out(t, 'r.' + p, 'r', outs)
        else: c += g.out(ret[1][0][1], call + '.' + ret[1][0][0], 'r', outs)
    hdr = 'enum En { En0 };\n' + g.types
    callee = hdr + proto + ' { %s}\n' % body
    caller = hdr + proto + ';\nvoid test(void) { %s}\n' % c
    ins = ', '.join(['int xi0'] + ['%s %s[%d]' % (t, nm, n) for nm, (t, n) in g.ins.items()])
    outs = ', '.join(x for x in [outdecl(outs), 'long al[1]'] if x)
    src, part = (caller, callee) if dut == 'caller' else (callee, caller)
    return T(name, src, ins, outs, parts=[(part, 'R')], traps=False, solver_ms=8000, maxpaths=64)


def boundary():
    """objects that end right before an unmapped page, and special shapes"""
    out = []
    for n in range(1, 17):
        st = 'struct S { char c[%d]; };\nextern struct S s; ' % n
        use = ' '.join('o[%d] = a.c[%d];' % (i, i) for i in range(n))
        out.append(T('bp%d' % n, st + 'void f(struct S); void g(int, struct S); struct S *p = &s; void test(void) { f(s); g(1, *p); }', 'raw%d s' % n, 'long o[16], long p1[16]',
                     parts=[(st + 'void f(struct S a) { %s } void g(int k, struct S a) { %s }' % (use, use.replace('o[', 'p1[')), 'R')], traps=False))
        out.append(T('br%d' % n, st + 'struct S f(void) { return s; } struct S g(struct S *p, int k) { return k ? *p : s; }', 'raw%d s, int k' % n, 'raw%d o, raw%d p1' % (n, n),
                     parts=[(st + 'struct S f(void), g(struct S *, int); extern struct S o, p1; void test(void) { o = f(); p1 = g(&s, k); }', 'R')], traps=False))
    return out


KINDS = [('i', 'int a', 'I'), ('il', 'long a', 'I'), ('d', 'double a', 'D'), ('f', 'float a', 'F'), ('ff', 'float a, b', 'FF'), ('fff', 'float a, b, c', 'FFF'), ('dd', 'double a, b', 'DD'), ('id', 'long a; double b', 'ID'), ('di', 'double a; long b', 'DI'),
         ('ii', 'long a, b', 'II'), ('fi', 'float a; int b; float c', 'FIF'), ('ld', 'long double a', 'L'), ('iii', 'int a, b, c', 'III'), ('mem', 'long a, b, c', 'III'), ('dfi', 'double a; float b; int c', 'DFI'), ('c3', 'char a[3]', None), ('u', 'int a; float b', 'IF')]


def threshold(rnd, thorough):
    """every class of structure after every number of used integer and floating registers"""
    out = []
    for gp in (0, 3, 4, 5, 6, 7):
        for fp in (0, 5, 6, 7, 8, 9):
            for dut in ('caller', 'callee'):
                ks = rnd.sample(KINDS, len(KINDS)) if thorough else rnd.sample(KINDS, 9)
                hdr = 'extern long xl[]; extern double xd[]; extern float xf[]; extern long double xld[]; extern long ol[]; extern double od[]; extern float of[]; extern long double old[];\n'
                callee, caller, no = '', '', {'I': 0, 'D': 0, 'F': 0, 'L': 0}
                for j, (kn, mem, lv) in enumerate(ks):
                    st = 'struct K%d { %s; }' % (j, mem)
                    hdr += st + ';\n'
                    pre = ['long g%d' % i for i in range(gp)] + ['double d%d' % i for i in range(fp)]
                    rnd.shuffle(pre)
                    post = rnd.sample(['long t0', 'double t1', 'struct K%d t2' % j], 3)
                    ret = rnd.choice(['void', 'struct K%d' % j])
                    ps = pre + ['struct K%d s' % j] + post
                    proto = '%s f%d(%s)' % (ret, j, ', '.join(ps))
                    body, args, ctr = '', [], {'I': 0, 'D': 0, 'F': 0, 'L': 0}
                    def o(t, e):
                        no[t] += 1
                        return 'o%s[%d] = %s; ' % ({'I': 'l', 'D': 'd', 'F': 'f', 'L': 'ld'}[t], no[t] - 1, e)
                    def leaves(e): return [('I', e + '.a[%d]' % i) for i in range(3)] if lv is None else [(c, e + '.' + 'abc'[i]) for i, c in enumerate(lv)]
                    cs = ''
                    for p in ps:
                        ty, nm = p.rsplit(' ', 1)
                        if ty.startswith('struct'):
                            for t, e in leaves(nm): body += o(t, e)
                            cs += '%s %s; ' % (ty, nm)
                            for t, e in leaves(nm):
                                cs += '%s = x%s[%d]; ' % (e, {'I': 'l', 'D': 'd', 'F': 'f', 'L': 'ld'}[t], ctr[t] % 24); ctr[t] += 1
                            args.append(nm)
                        else:
                            t = 'I' if ty == 'long' else 'D'
                            body += o(t, nm); args.append('x%s[%d]' % ('l' if t == 'I' else 'd', ctr[t] % 24)); ctr[t] += 1
                    callee += '%s { %s%s}\n' % (proto, body, 'return t2; ' if ret != 'void' else '')
                    hdr += proto + ';\n'
                    caller += '{ %s%sf%d(%s); ' % (cs, '' if ret == 'void' else 'struct K%d r = ' % j, j, ', '.join(args))
                    if ret != 'void':
                        for t, e in leaves('r'): caller += o(t, e)
                    caller += '} '
                src, part = hdr + 'void test(void) { %s}' % caller, hdr + callee
                if dut == 'callee': src, part = part, src
                out.append(T('th_%s_%d_%d' % (dut, gp, fp), src, 'long xl[24], double xd[24], float xf[24], long double xld[24]',
                             ', '.join('%s o%s[%d]' % (c, n, no[k] or 1) for k, n, c in [('I', 'l', 'long'), ('D', 'd', 'double'), ('F', 'f', 'float'), ('L', 'ld', 'long double')]),
                             parts=[(part, 'R')], traps=False, solver_ms=8000, maxpaths=8))
    return out


def run(ck, thorough):
    rnd = random.Random(core.SEED + 12)
    b = core.Build(bitcode=False)
    tests = boundary() + threshold(rnd, thorough)
    n = 6000 if thorough else 1500
    for i in range(n):
        dut = rnd.choice(['caller', 'callee'])
        tests.append(prog(rnd, '%s%d' % (dut, i), dut, rnd.choice([0, 1, 1, 2, 2, 3, 4, 6, 8]), packed=.1, ptr=rnd.random() < .2))
    for i in range(n // 4):
        dut = rnd.choice(['caller', 'callee'])
        tests.append(prog(rnd, 'sc%d' % i, dut, rnd.choice([5, 6, 7, 8, 9, 10, 12, 16, 20]), scalars=True, focus=rnd.choice([None, 'int', 'fp'])))
    ck.bounds = ['every class of structure (17 shapes, 9 per program in the quick tier) after 0..7 integer and 0..9 floating arguments', 'random signatures of <= 8 mixed parameters (<= 20 scalar ones); structures/unions of <= 5 members, nesting depth 2, arrays of <= 5, bit-fields, alignments up to 32, some packed; caller or callee by slimcc',
                 'every argument and result value (floating values as bit patterns)']
    ck.assume = ['the other side of each call is clang -O0 code for the x86-64 System V ABI', 'padding is not compared']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
