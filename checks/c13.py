"""variadic functions and their callers, compiled by slimcc on one side and clang on the other"""
import random
import core, equiv
from equiv import T
from c12 import Gen, outdecl, KINDS

VT = ['int', 'unsigned', 'long', 'unsigned long', 'double', 'double', 'int', 'char *', 'long double', 'S']
NAMED = ['int', 'long', 'double', 'float', 'char *', 'unsigned char', 'S', 'long double']


def prog(rnd, name, dut):
    g = Gen(rnd); outs = {}
    def mk(L):
        t = rnd.choice(L)
        return g.struct() if t == 'S' else (t, None)
    mode = rnd.choice(['mix', 'int', 'fp', 'mix', 'struct'])
    pool = {'mix': VT, 'int': ['int', 'long', 'char *', 'unsigned'], 'fp': ['double'], 'struct': ['S', 'S', 'int', 'double']}[mode]
    nn = rnd.choice([1, 1, 2, 3, 6, 7, 9, 12]) if rnd.random() < .9 else 0
    named = [mk(NAMED if mode != 'fp' else ['double', 'int']) for _ in range(nn)]
    vs = [mk(pool) for _ in range(rnd.choice([0, 1, 2, 3, 5, 8, 11]))]
    pre = 'typedef __builtin_va_list va_list;\n#define va_start(a, b) __builtin_va_start(a, b)\n#define va_arg(a, t) __builtin_va_arg(a, t)\n#define va_end(a) __builtin_va_end(a)\n#define va_copy(a, b) __builtin_va_copy(a, b)\n'
    if nn == 0: named = [('int', None)]; nn = 1
    # callee
    def leafs(ty, L, e): return ''.join(g.out(t, e + '.' + p, 'a', outs) for p, t in L) if L is not None else g.out(ty, e, 'a', outs)
    body = ''.join(leafs(t, L, 'n%d' % i) for i, (t, L) in enumerate(named))
    def rd(ap, lo, hi, tag):
        s = ''
        for i in range(lo, hi):
            ty, L = vs[i]
            if L is None: s += leafs(ty, L, 'va_arg(%s, %s)' % (ap, ty))
            else: s += '{ %s q = va_arg(%s, %s); ' % (ty, ap, ty) + leafs(ty, L, 'q') + '} '
        return s
    n = len(vs)
    form = rnd.choice(['plain', 'plain', 'copy', 'restart', 'pass', 'loop'])
    last = 'n%d' % (nn - 1)
    if form == 'copy':
        k = rnd.randrange(n + 1)
        body += 'va_list a, b; va_start(a, %s); ' % last + rd('a', 0, k, '') + 'va_copy(b, a); ' + rd('a', k, n, '') + rd('b', k, n, '') + 'va_end(b); va_end(a); '
    elif form == 'restart': body += 'va_list a; va_start(a, %s); ' % last + rd('a', 0, n // 2, '') + 'va_end(a); va_start(a, %s); ' % last + rd('a', 0, n, '') + 'va_end(a); '
    elif form == 'loop' and vs and all(v == vs[0] for v in vs) or form == 'loop' and mode == 'fp':
        body += 'va_list a; va_start(a, %s); for (int i = 0; i < %d; i++) ol[i] = *(long *)&(double[1]){va_arg(a, double)}; va_end(a); ' % (last, n) if n and all(v[0] == 'double' for v in vs) else 'va_list a; va_start(a, %s); ' % last + rd('a', 0, n, '') + 'va_end(a); '
    else: body += 'va_list a; va_start(a, %s); ' % last + rd('a', 0, n, '') + 'va_end(a); '
    helper = ''
    if form == 'pass':
        k = rnd.randrange(n + 1)
        helper = 'void vf(va_list a) { %s}\n' % rd('a', k, n, '')
        body = body[:body.index('va_list a;')] + 'va_list a; va_start(a, %s); ' % last + rd('a', 0, k, '') + 'vf(a); va_end(a); '
    proto = '%s f(%s, ...)' % ('void', ', '.join('%s n%d' % (t, i) for i, (t, _) in enumerate(named)))
    c, args = '', []
    def arg(i, pfx, ty, L):
        nonlocal c
        if L is None:
            # arguments that undergo the default promotions as well
            if pfx == 'v' and ty == 'int' and rnd.random() < .4: return g.val(rnd.choice(['signed char', 'short', 'unsigned char', '_Bool', 'char']))
            if pfx == 'v' and ty == 'double' and rnd.random() < .3: return g.val('float')
            if ty == 'int' and rnd.random() < .1: return '%d' % rnd.choice([0, -1, 77])
            return g.val(ty)
        c += '%s %s%d; ' % (ty, pfx, i)
        for p, t in L: c += '%s%d.%s = %s; ' % (pfx, i, p, g.val('int' if t.startswith('bit') else t))
        return '%s%d' % (pfx, i)
    args = [arg(i, 'n', *x) for i, x in enumerate(named)] + [arg(i, 'v', *x) for i, x in enumerate(vs)]
    nofold = rnd.random() < .3
    call = '%sf(%s); ' % ('(x0 ? f : f0)'[:0] if not nofold else '', ', '.join(args))
    if nofold: c = '%s = f; ' % proto.replace(' f(', ' (*fp)(', 1) + c; call = 'fp(%s); ' % ', '.join(args)
    hdr = 'enum En { En0 };\n' + pre + g.types
    callee = hdr + ('void vf(va_list);\n' if helper else '') + proto + ' { %s}\n' % body
    caller = hdr + proto + ';\n' + helper + 'void test(void) { %s%s}\n' % (c, call)
    ins = ', '.join(['int xi0'] + ['%s %s[%d]' % (t, nm, k) for nm, (t, k) in g.ins.items()])
    outs = ', '.join(x for x in [outdecl(outs), 'long ol[%d]' % (n + 1)] if x)
    src, part = (caller, callee) if dut == 'caller' else (callee, caller)
    return T(name, src, ins, outs, parts=[(part, 'R')], traps=False, solver_ms=8000, maxpaths=64)


def threshold(rnd, thorough):
    """every class of structure read by va_arg after every number of consumed integer and floating registers"""
    out = []
    T4 = {'I': 'l', 'D': 'd', 'F': 'f', 'L': 'ld'}
    for gp in (1, 3, 4, 5, 6, 7):
        for fp in (0, 5, 6, 7, 8, 9):
            for dut in ('caller', 'callee'):
                ks = rnd.sample(KINDS, len(KINDS)) if thorough else rnd.sample(KINDS, 8)
                hdr = 'extern long xl[]; extern double xd[]; extern float xf[]; extern long double xld[]; extern long ol[]; extern double od[]; extern float of[]; extern long double old[];\n'
                callee, caller, no = '', '', {'I': 0, 'D': 0, 'F': 0, 'L': 0}
                for j, (kn, mem, lv) in enumerate(ks):
                    hdr += 'struct K%d { %s; };\n' % (j, mem)
                    named = rnd.choice([1, 1, gp])
                    nfp = rnd.choice([0, 0, fp])
                    pre = ['long'] * (gp - named) + ['double'] * (fp - nfp)
                    rnd.shuffle(pre)
                    seq = pre + ['struct K%d' % j] + rnd.sample(['long', 'double', 'struct K%d' % j], 3)
                    proto = 'void f%d(%s, ...)' % (j, ', '.join(['double e%d' % i for i in range(nfp)] + ['long n%d' % i for i in range(named)]))
                    body, cs, args, ctr = '', '', [], {'I': 0, 'D': 0, 'F': 0, 'L': 0}
                    def o(t, e):
                        no[t] += 1
                        return 'o%s[%d] = %s; ' % (T4[t], no[t] - 1, e)
                    def inp(t):
                        ctr[t] += 1
                        return 'x%s[%d]' % (T4[t], (ctr[t] - 1) % 24)
                    def leaves(e): return [('I', e + '.a[%d]' % i) for i in range(3)] if lv is None else [(c, e + '.' + 'abc'[i]) for i, c in enumerate(lv)]
                    for i in range(nfp): body += o('D', 'e%d' % i); args.append(inp('D'))
                    for i in range(named): body += o('I', 'n%d' % i); args.append(inp('I'))
                    body += '__builtin_va_list a; __builtin_va_start(a, n%d); ' % (named - 1)
                    for q, ty in enumerate(seq):
                        if ty.startswith('struct'):
                            body += '{ %s s = __builtin_va_arg(a, %s); ' % (ty, ty) + ''.join(o(t, e) for t, e in leaves('s')) + '} '
                            cs += '%s v%d; ' % (ty, q)
                            for t, e in leaves('v%d' % q): cs += '%s = %s; ' % (e, inp(t))
                            args.append('v%d' % q)
                        else:
                            t = 'I' if ty == 'long' else 'D'
                            body += o(t, '__builtin_va_arg(a, %s)' % ty); args.append(inp(t))
                    hdr += proto + ';\n'
                    callee += '%s { %s__builtin_va_end(a); }\n' % (proto, body)
                    caller += '{ %sf%d(%s); } ' % (cs, j, ', '.join(args))
                src, part = hdr + 'void test(void) { %s}' % caller, hdr + callee
                if dut == 'callee': src, part = part, src
                out.append(T('th_%s_%d_%d' % (dut, gp, fp), src, 'long xl[24], double xd[24], float xf[24], long double xld[24]',
                             ', '.join('%s o%s[%d]' % (c, n, no[k] or 1) for k, n, c in [('I', 'l', 'long'), ('D', 'd', 'double'), ('F', 'f', 'float'), ('L', 'ld', 'long double')]),
                             parts=[(part, 'R')], traps=False, solver_ms=8000, maxpaths=8))
    return out


def unproto(rnd, name):
    """a call without prototype: the callee is variadic or not as far as the caller knows"""
    g = Gen(rnd); outs = {}
    n = rnd.choice([0, 1, 2, 4, 7, 10])
    tys = [rnd.choice(['int', 'double', 'long', 'long double', 'unsigned', 'char *']) for _ in range(n)]
    args = [g.val(rnd.choice(['float', 'double'])) if t == 'double' else g.val(rnd.choice(['int', 'signed char', 'short', '_Bool'])) if t == 'int' else g.val(t) for t in tys]
    body = ''.join(g.out(t, 'n%d' % i, 'a', outs) for i, t in enumerate(tys))
    kr = rnd.random() < .4
    fptr = rnd.random() < .4
    callee = 'void f(%s) { %s}\n' % (', '.join('%s n%d' % (t, i) for i, t in enumerate(tys)) or 'void', body)
    caller = 'void f();\nvoid test(void) { %s }\n' % (('void (*p)() = f; p(%s);' if fptr else 'f(%s);') % ', '.join(args))
    extra = 'register'
    if kr:     # K&R definition on the callee side
        narrow = [rnd.choice(['float', 'double']) if t == 'double' else rnd.choice(['int', 'signed char', 'unsigned short']) if t == 'int' else t for t in tys]
        outs2 = {}
        body = ''.join(g.out(t, 'n%d' % i, 'a', outs2) for i, t in enumerate(narrow)); outs = outs2
        callee = 'void f(%s) %s { %s}\n' % (', '.join('n%d' % i for i in range(n)), ' '.join('%s n%d;' % (t, i) for i, t in enumerate(narrow)), body)
    ins = ', '.join(['int xi0'] + ['%s %s[%d]' % (t, nm, k) for nm, (t, k) in g.ins.items()])
    outs = ', '.join(x for x in [outdecl(outs), 'long ol[1]'] if x)
    src, part = (caller, callee) if rnd.random() < .5 else (callee, caller)
    return T(name, src, ins, outs, parts=[(part, 'R')], traps=False, solver_ms=8000, maxpaths=64, flags=('-std=gnu17',), refflags=('-std=gnu17',))


def run(ck, thorough):
    rnd = random.Random(core.SEED + 13)
    b = core.Build(bitcode=False)
    tests = threshold(rnd, thorough)
    for i in range(6000 if thorough else 1200):
        dut = rnd.choice(['caller', 'callee', 'callee'])
        tests.append(prog(rnd, '%s%d' % (dut, i), dut))
    for i in range(1000 if thorough else 150): tests.append(unproto(rnd, 'unproto%d' % i))
    ck.bounds = ['every class of structure after 1..7 integer and 0..9 floating arguments', '<= 12 named and <= 11 variadic arguments of integer, pointer, floating, long double and structure types (<= 5 members, nesting 2); va_copy, restart, passing of the va_list', 'every argument value']
    ck.assume = ['the other side of each call is clang -O0 code for the x86-64 System V ABI', 'padding is not compared']
    equiv.run_all(ck, b, tests, each=60 if not thorough else 240, total=400 if not thorough else 3000)
