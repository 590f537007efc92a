"""atomic operations under interference: before every access to the object another thread may write it"""
import os, random, re, shutil, subprocess, tempfile, time, traceback
import z3
import asmx, core, equiv
from asmx import bv, isint, SIMP
from core import sh, CheckError
from equiv import T

NI = 3          # interfering writes
TY = {'bool': ('_Bool', 1), 'char': ('char', 1), 'uchar': ('unsigned char', 1), 'short': ('short', 2), 'ushort': ('unsigned short', 2), 'int': ('int', 4), 'uint': ('unsigned', 4),
      'long': ('long', 8), 'ulong': ('unsigned long', 8), 'enum': ('enum En', 4), 'ptr': ('int *', 8), 'sptr': ('struct P3 *', 8), 'float': ('float', 4), 'double': ('double', 8)}
HEAD = 'enum En { E0, E1, E9 = 1 << 30 }; struct P3 { int a, b, c; };\n'
# how the atomic object is reached: (global declarations, local declarations, lvalue, extra output expression)
LV = {
 'glob': ('_Atomic(TY) g;', '', 'g', '0'),
 'stat': ('', 'static _Atomic(TY) s;', 's', '0'),
 'loc': ('', '_Atomic(TY) l; l = (TY)0;', 'l', '0'),
 'ptr': ('_Atomic(TY) g;', '_Atomic(TY) *p = &g;', '*p', 'p - &g'),
 'elem': ('', '_Atomic(TY) a[3]; int i = 1; a[0] = a[2] = a[1] = (TY)0;', 'a[i]', 'i'),
 'post': ('_Atomic(TY) g[3];', '_Atomic(TY) *p = g;', '*p++', 'p - g'),
 'mem': ('struct M { char c; _Atomic TYQ v; char d; } m = {1, 0, 2};', '', 'm.v', 'm.c + m.d * 2'),
 'pmem': ('struct M { char c; _Atomic(TY) v; char d; };', 'struct M m = {1, 0, 2}, *p = &m;', 'p->v', 'p->c + p->d * 2'),
 'vol': ('volatile _Atomic(TY) g;', '', 'g', '0'),
 'union': ('union { _Atomic(TY) v; char c[16]; } u;', '', 'u.v', 'u.c[12]'),
 'call': ('_Atomic(TY) g; static int n; static _Atomic(TY) *f(void) { n++; return &g; }', '', '*f()', 'n'),
 'tls': ('_Thread_local _Atomic(TY) t;', '', 't', '0'),
}
INT = ['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'enum']
FP = ['float', 'double']
PT = ['ptr', 'sptr']
# name: (types, operation on LV, same on a plain object t, kind)
OPS = {
 'load': (list(TY), 'r = LV;', 'r = t;'),
 'aload': (list(TY), 'r = atomic_load(&LV);', 'r = t;'),
 'loadexp': (list(TY), 'r = atomic_load_explicit(&LV, memory_order_acquire);', 'r = t;'),
 'store': (list(TY), 'r = (LV = V);', 'r = (t = V);'),
 'astore': (list(TY), 'atomic_store(&LV, V);', 't = V;'),
 'storeexp': (list(TY), 'atomic_store_explicit(&LV, V, memory_order_release);', 't = V;'),
 'init': (INT, 'atomic_init(&LV, V);', 't = V;'),
 'xchg': (list(TY), 'r = atomic_exchange(&LV, V);', 'r = t; t = V;'),
 'cas': (INT + PT, 'TY e = W; x2 = atomic_compare_exchange_strong(&LV, &e, V); r = e;', 'TY e = W; if (t == e) { t = V; x2 = 1; } else { e = t; x2 = 0; } r = e;'),
 'casw': (INT + PT, 'TY e = W; x2 = atomic_compare_exchange_weak(&LV, &e, V); r = e;', 'TY e = W; if (t == e) { t = V; x2 = 1; } else { e = t; x2 = 0; } r = e;'),
 'casf': (FP, 'TY e = W; x2 = atomic_compare_exchange_strong(&LV, &e, V); r = e;', 'TY e = W; if (bits(t) == bits(e)) { t = V; x2 = 1; } else { e = t; x2 = 0; } r = e;'),
 'preinc': (INT + PT, 'r = ++LV;', 'r = ++t;'), 'predec': (INT + PT, 'r = --LV;', 'r = --t;'),
 'postinc': (INT + PT, 'r = (LV)++;', 'r = t++;'), 'postdec': (INT + PT, 'r = (LV)--;', 'r = t--;'),
 'add': ([x for x in TY if x not in PT], 'r = (LV += V);', 'r = (t += V);'), 'sub': ([x for x in TY if x not in PT], 'r = (LV -= V);', 'r = (t -= V);'),
 'padd': (PT, 'r = (LV += (x & 3));', 'r = (t += (x & 3));'), 'psub': (PT, 'r = (LV -= (x & 3));', 'r = (t -= (x & 3));'),
 'and': (INT, 'r = (LV &= V);', 'r = (t &= V);'), 'or': (INT, 'r = (LV |= V);', 'r = (t |= V);'), 'xor': (INT, 'r = (LV ^= V);', 'r = (t ^= V);'),
 'shl': (INT, 'r = (LV <<= (x & 7));', 'r = (t <<= (x & 7));'), 'shr': (INT, 'r = (LV >>= (x & 7));', 'r = (t >>= (x & 7));'),
 'mul': (['char', 'ushort', 'int', 'uint', 'long', 'double'], 'r = (LV *= 3);', 'r = (t *= 3);'), 'divc': (['uchar', 'short', 'uint', 'float'], 'r = (LV /= 5);', 'r = (t /= 5);'),
 'mod': (['uchar', 'ushort', 'uint'], 'r = (LV %= 8);', 'r = (t %= 8);'),
 'addl': (['char', 'short', 'int', 'uint', 'long'], 'r = (LV += y);', 'r = (t += y);'), 'orl': (['uchar', 'short', 'int'], 'r = (LV |= y);', 'r = (t |= y);'),
 'fadd': ([x for x in INT if x != 'bool'], 'r = atomic_fetch_add(&LV, V);', 'r = t; t += V;'), 'fsub': ([x for x in INT if x != 'bool'], 'r = atomic_fetch_sub(&LV, V);', 'r = t; t -= V;'),
 'for': (INT, 'r = atomic_fetch_or(&LV, V);', 'r = t; t |= V;'), 'fand': (INT, 'r = atomic_fetch_and(&LV, V);', 'r = t; t &= V;'), 'fxor': (INT, 'r = atomic_fetch_xor_explicit(&LV, V, memory_order_relaxed);', 'r = t; t ^= V;'),
 'pfadd': (PT, 'r = atomic_fetch_add(&LV, 2);', 'r = t; t += 2;'), 'pfsub': (PT, 'r = atomic_fetch_sub(&LV, (x & 3));', 'r = t; t -= (x & 3);'),
 'flag': (['bool'], 'r = atomic_flag_test_and_set(&LV);', 'r = t; t = 1;'), 'clear': (['bool'], 'atomic_flag_clear(&LV);', 't = 0;'),
 'drop': (INT + PT, '(LV)++;', 't++;'), 'dropop': (INT, 'LV += 1;', 't += 1;'),
 'live': (['int', 'long', 'uchar'], 'x2 = x * 3 + (LV += 2) * (x ^ 5);', 'x2 = x * 3 + (t += 2) * (x ^ 5);'), 'live2': (['int', 'ushort'], 'x2 = (x - 7) ^ (LV)++ + (x & 9);', 'x2 = (x - 7) ^ t++ + (x & 9);'),
 'live3': (['int', 'ulong'], 'x2 = (x | 1) - atomic_exchange(&LV, x + 1);', 'x2 = (x | 1) - t; t = x + 1;'), 'cond': (['int', 'bool', 'ptr', 'char'], 'if (LV) x2 = 1; else x2 = 2;', 'if (t) x2 = 1; else x2 = 2;'),
 'nested': (['int', 'short'], 'x2 = ({ int q = 3; q += (LV -= q); q; });', 'x2 = ({ int q = 3; q += (t -= q); q; });'),
 'casloop': (['int', 'ushort', 'long'], 'TY e = LV; while (!atomic_compare_exchange_weak(&LV, &e, (TY)(e * 5 + 1))); r = e;', 'r = t; t = (TY)(t * 5 + 1);'),
}


class One:
    def __init__(self, name, ty, op, lv, flags):
        self.name, self.ty, self.op, self.lv, self.flags = name, ty, op, lv, flags
        self.cty, self.size = TY[ty]

    def val(self, v):
        if self.ty in FP: return v.replace('x', 'fx').replace('z', 'fz') if self.ty == 'float' else v.replace('x', 'dx').replace('z', 'dz')
        return '(%s)%s' % (self.cty, v) if self.ty not in PT else '((%s)%s)' % (self.cty, v.replace('x', 'y').replace('z', 'w'))

    def src(self):
        g, l, lv, ex = LV[self.lv]
        op = OPS[self.op][1]
        tyq = '%s' % self.cty
        q = lambda s: s.replace('TYQ', '(' + tyq + ')').replace('TY', self.cty).replace('LV', lv)
        v, w = self.val('x'), self.val('z')
        addr = {'post': 'p', 'call': '&g'}.get(self.lv, '&' + lv)
        import re
        body = re.sub(r'\bV\b', v, op); body = re.sub(r'\bW\b', w, body); body = q(body)
        return ('#include <stdatomic.h>\n' + HEAD + 'void reg(volatile void *, long); void done(void);\n' + q(g) + '\nvoid test(void) { ' + q(l) + ' %s r = 0; long x2 = 0; ' % self.cty
                + 'reg(%s, sizeof(%s)); ' % (addr, self.cty) + body + ' done(); ' + self.outs(ex) + ' }\n')

    def outs(self, ex):
        return 'union { %s v; long l; } ru = {0}; ru.l = 0; ru.v = r; o[0] = ru.l; o[1] = x2; o[2] = %s;' % (self.cty, ex)

    def ref(self):
        import re
        v, w = self.val('x'), self.val('z')
        body = re.sub(r'\bV\b', v, OPS[self.op][2]); body = re.sub(r'\bW\b', w, body).replace('TY', self.cty)
        ex = {'elem': '1', 'post': '1', 'mem': '5', 'pmem': '5', 'call': '1'}.get(self.lv, '0')
        return (HEAD + ('static unsigned bits(float f) { union { float f; unsigned u; } q = {f}; return q.u; }\n' if self.ty == 'float' else 'static unsigned long bits(double f) { union { double f; unsigned long u; } q = {f}; return q.u; }\n')
                + 'extern %s old; extern %s outnew;\nvoid test(void) { %s t = old; %s r = 0; long x2 = 0; ' % (self.cty, self.cty, self.cty, self.cty) + body + ' outnew = t; ' + self.outs(ex) + ' }\n')


INS = 'int x, int z, long y, long w, float fx, float fz, double dx, double dz'


def mkT(t):
    return T(t.name, t.src(), INS, 'long o[3]', traps=False, flags=t.flags)


def machine(build, t, asm, extra=()):
    tt = mkT(t)
    p = equiv.mkprog(tt, [])
    for n, sz, init in extra: p.define(n, sz, 16, init)
    p.load_tu(asm, {}, 'tu')
    return p, tt


def check(build, t):
    st = {'queries': 0, 'solver_s': 0.0, 'events': 0, 'paths': 0}
    res = {'name': t.name, 'stats': st, 'verdict': 'ok', 'notes': []}
    tt = mkT(t); tt.ref = None
    pre = equiv.pre_conds(tt)
    n, bits = t.size, 8 * t.size
    old = z3.BitVec('old', bits)
    rpre = [z3.ULE(old, 1)] if t.ty == 'bool' else []
    # specification
    rasm = equiv.ref_asm(build, tt, t.ref())
    p, _ = machine(build, t, rasm, [('old', n, old), ('outnew', n, None)])
    mr = asmx.Machine(p, 'uf', timeout=60)
    spec = []
    for kind, msg, s in mr.run('test', pre + rpre):
        if kind != 'ret': res['verdict'] = 'incon'; res['notes'].append('reference: %s %s' % (kind, msg)); return res
        spec.append((s.cond, [bv(mr.ld(s, p.gsym['o'] + 8 * i, 8), 64) for i in range(3)], bv(mr.ld(s, p.gsym['outnew'], n), bits)))
    st['queries'] += mr.q; st['solver_s'] += mr.qt
    # the compiler's code
    try: asm = equiv.dut_asm(build, tt, tt.src, st)[0][0]
    except equiv.Rejected as e:
        res.update(verdict='viol', what=str(e), files={'dut.c': tt.header('D') + tt.src}); return res
    p, _ = machine(build, t, asm)
    hs = [z3.BitVec('h%d' % i, bits) for i in range(NI)]
    box = {}

    def reg(s):
        a = SIMP(s.r['rdi'])
        if not isint(a): raise asmx.Stop('unsupported', 'symbolic object address')
        s.aux['lo'] = a; s.aux['on'] = True; s.aux['ev'] = (); s.aux['k'] = 0; s.aux['step'] = -1; s.aux['bad'] = ()
        for i in range(n): s.m[a + i] = (hs[0], i)      # what it holds at first is arbitrary too
        if t.ty == 'bool': s.cond.append(z3.ULE(hs[0], 1))

    def done(s): s.aux['on'] = False

    def touch(M, s, a, m):
        if not s.aux.get('on') or a + m <= s.aux['lo'] or a >= s.aux['lo'] + n: return False
        if s.aux['step'] != s.steps:
            s.aux['step'] = s.steps
            k = s.aux['k']; s.aux['k'] = k + 1
            if k < NI:
                for i in range(n): s.m[s.aux['lo'] + i] = (hs[k], i)
                if t.ty == 'bool': s.cond.append(z3.ULE(hs[k], 1))
        return True

    def load(M, s, a, m):
        if not touch(M, s, a, m): return None
        I = M.p.insns[M.curidx]
        full = a == s.aux['lo'] and m >= n
        v = None
        if full:
            on, s.aux['on'] = s.aux['on'], False
            v = bv(M.ld(s, s.aux['lo'], n), bits)
            s.aux['on'] = on
        s.aux['ev'] += (('R', s.steps, full, v, I),)
        return None

    def store(M, s, a, v, m):
        if not touch(M, s, a, m): return False
        I = M.p.insns[M.curidx]
        full = a == s.aux['lo'] and m == n
        s.aux['ev'] += (('W', s.steps, full, bv(v, 8 * m), I),)
        return False

    md = asmx.Machine(p, 'uf', hooks={'load': load, 'store': store, 'ext': {'reg': reg, 'done': done}}, maxpaths=200, timeout=60)
    md.fpu.ufs = mr.fpu.ufs
    try: runs = md.run('test', pre)
    except asmx.Stop as e: res['verdict'] = 'incon'; res['notes'].append('%s %s' % (e.kind, e.msg)); return res
    st['queries'] += md.q; st['solver_s'] += md.qt; st['paths'] = len(runs)

    def eqv(a, b):
        if t.ty not in FP or t.op not in ('add', 'sub', 'mul', 'divc') or a.size() < bits: return a == b
        return z3.Or(a == b, z3.And(equiv.isnan(z3.Extract(bits - 1, 0, a), n), equiv.isnan(z3.Extract(bits - 1, 0, b), n)))

    def sub(e, h): return z3.substitute(e, (old, h))

    def comm(conds):
        # terms are ordered when built; after substitution say again that + and * commute
        seen, out, todo = set(), [], list(conds)
        while todo:
            e = todo.pop()
            if isinstance(e, bool) or e.get_id() in seen: continue
            seen.add(e.get_id()); todo += e.children()
            if e.num_args() == 2 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and re.match('f(add|mul)', e.decl().name()): out.append(e == e.decl()(e.arg(1), e.arg(0)))
        return out

    def feasible(conds):
        conds = conds + (comm(conds) if t.ty in FP else [])
        q, m = equiv.solve(conds, 20000, st)
        if q == z3.unknown: res['verdict'] = 'incon'; res['notes'].append('solver unknown')
        return m if q == z3.sat else None

    def bad(m, s, what, text=False):
        ok, why, files = replay(build, t, asm, md, p, s, m, hs, text)
        files['dut.c'] = tt.header('D') + tt.src; files['out.s'] = asm
        if ok: res.update(verdict='viol', what=what + '; ' + why, files=files)
        else: res['verdict'] = 'incon'; res['notes'].append('not reproduced: %s; %s' % (what, why))
        return res

    for kind, msg, s in runs:
        if kind == 'limit': res['verdict'] = 'incon'; res['notes'].append('limit ' + msg); continue
        if kind != 'ret':
            m = feasible(s.cond)
            if m is not None: return bad(m, s, '%s: %s' % (kind, msg), kind)
            continue
        ev = s.aux.get('ev', ()); st['events'] += len(ev)
        outs = [bv(md.ld(s, p.gsym['o'] + 8 * i, 8), 64) for i in range(3)]
        W = [e for e in ev if e[0] == 'W']
        R = {e[1]: e for e in ev if e[0] == 'R'}
        # a specification without branches has only facts about the arithmetic as its conditions
        facts = lambda h: [sub(c, h) for c in spec[0][0]] if len(spec) == 1 else []
        same = lambda h, extra: z3.Or(*[z3.And(*(([sub(c, h) for c in g] if len(spec) > 1 else []) + [eqv(sub(a, h), b) for a, b in zip(os_, outs)] + extra(sub(nw, h)))) for g, os_, nw in spec])
        if not W:
            cands = [e[3] for e in ev if e[0] == 'R' and e[2]]
            if not cands:
                m = feasible(s.cond)
                if m is not None: return bad(m, s, 'the object is not accessed as a whole (%s)' % [e[4].txt for e in ev], True)
                continue
            ok = z3.Or(*[same(h, lambda nw, h=h: [eqv(nw, h)]) for h in cands])
            m = feasible(s.cond + [c for h in cands for c in facts(h)] + [z3.Not(ok)])
            if m is not None: return bad(m, s, 'the value returned is not one the object held')
            continue
        for e in W[:-1]:
            r = R.get(e[1])
            if not e[2] or r is None or not r[2]: conds = s.cond
            else: conds = s.cond + [e[3] != r[3]]
            m = feasible(conds)
            if m is not None: return bad(m, s, 'written more than once (%s)' % [x[4].txt for x in W], not e[2] or r is None or not r[2])
        e = W[-1]; r = R.get(e[1])
        if not e[2]:
            m = feasible(s.cond)
            if m is not None: return bad(m, s, 'the object is not written as a whole by ' + e[4].txt, True)
            continue
        if r is not None and not (e[4].lock or (e[4].op.startswith('xchg'))):
            m = feasible(s.cond)
            if m is not None: return bad(m, s, 'read-modify-write without lock: ' + e[4].txt, True)
            continue
        fh = r[3] if r is not None else None
        if r is not None: ok = same(r[3], lambda nw: [eqv(nw, e[3])])
        else:
            # a plain store: right only if the new value and the result do not depend on the old one
            h = z3.BitVec('anyold', bits); fh = h
            ok = same(h, lambda nw: [eqv(nw, e[3])])
            if t.ty == 'bool': ok = z3.Implies(z3.ULE(h, 1), ok)
        m = feasible(s.cond + facts(fh) + [z3.Not(ok)])
        if m is not None: return bad(m, s, 'an update is lost or the result is wrong (%s)' % e[4].txt)
    return res


MAIN = r'''
#include <stdio.h>
#include <string.h>
extern unsigned char hv[]; extern int nh, n;
extern int x, z; extern long y, w, o[3]; 
static unsigned char *obj; static int on, k;
void reg(void *p, long sz) { obj = p; memcpy(obj, hv, n); on = 1; }
void done(void) { on = 0; printf("new "); for (int i = 0; i < n; i++) printf("%02x", obj[i]); printf("\n"); }
void hookc(void) { if (on && k < nh) { for (int i = 0; i < n; i++) obj[i] = hv[k * n + i]; } if (on) k++; }
void test(void);
int main(void) { test(); printf("o %016lx %016lx %016lx\n", o[0], o[1], o[2]); return 0; }
'''
HOOK = '''.text
__hook: pushfq; push %rax; push %rcx; push %rdx; push %rsi; push %rdi; push %r8; push %r9; push %r10; push %r11; push %rbp
mov %rsp,%rbp; sub $64,%rsp; and $-16,%rsp; call hookc; mov %rbp,%rsp
pop %rbp; pop %r11; pop %r10; pop %r9; pop %r8; pop %rdi; pop %rsi; pop %rdx; pop %rcx; pop %rax; popfq; ret
.globl __hook
'''


def replay(build, t, asm, md, p, s, m, hs, text):
    """run the compiled code natively with the interfering writes inserted before the same accesses; the run has to end in the state the model predicted"""
    if text is True: return True, 'shown by the instruction sequence', {}
    d = tempfile.mkdtemp(dir=build.dir)
    try:
        n = t.size
        val = lambda e: m.eval(e, model_completion=True).as_long()
        h = [val(x) for x in hs]
        ins = {nm: val(z3.BitVec('in_' + nm, 8 * sz)) for ty, nm, sz in equiv.decls(INS)}
        lines = asm.split('\n')
        ev = s.aux.get('ev', ())
        for ln in sorted({e[4].line for e in ev}, reverse=True): lines.insert(ln, 'lea -256(%rsp), %rsp; call __hook; lea 256(%rsp), %rsp')
        drv = HOOK + '.data\n.globl hv,nh,n,x,z,y,w,o,fx,fz,dx,dz\nhv: ' + ''.join('.byte %s\n' % ','.join(str(b) for b in v.to_bytes(n, 'little')) for v in h) + 'nh: .long %d\nn: .long %d\n.balign 8\n' % (len(h), n)
        for ty, nm, sz in equiv.decls(INS): drv += '%s: .quad 0x%x\n' % (nm, ins[nm])
        drv += 'o: .zero 24\n'
        files = {'main.c': MAIN, 'hooked.s': '\n'.join(lines), 'drv.s': drv, 'run.sh': 'cd "$(dirname "$0")"; gcc -w -mgeneral-regs-only main.c hooked.s drv.s -o a.exe && ./a.exe; cat expected.txt\n'}
        for k, v in files.items(): open(d + '/' + k, 'w').write(v)
        rc, o, e = sh(['gcc', '-w', 'main.c', 'hooked.s', 'drv.s', '-o', 'a.exe'], cwd=d, timeout=30)
        if rc: return (not text) is False, 'does not link: ' + e.decode('latin1')[:200], files
        rc, o, e = sh(['./a.exe'], cwd=d, timeout=10)
        if text: return rc != 0, 'native run ends with status %d' % rc, files
        lo = s.aux['lo']
        new = val(bv(md.ld(s, lo, n), 8 * n)) if ev else 0
        exp = 'new %s\no %016x %016x %016x\n' % ((new.to_bytes(n, 'little').hex(),) + tuple(val(bv(md.ld(s, p.gsym['o'] + 8 * i, 8), 64)) for i in range(3)))
        files['expected.txt'] = exp
        return o.decode() == exp, 'inputs %s, values written by the other thread before each access %s: the code leaves %r' % ({k: hex(v) for k, v in ins.items()}, [hex(x) for x in h], o.decode()), files
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck, thorough):
    global NI
    rnd = random.Random(core.SEED + 20)
    b = core.Build()
    if thorough: NI = 5
    tests = []
    for op, (tys, _, _) in OPS.items():
        for i, ty in enumerate(tys):
            lvs = [l for l in LV if not (l == 'mem' and ty in PT) and not (op == 'casloop' and l in ('post', 'call')) and not (l == 'union' and op == 'x')]
            if not thorough: lvs = rnd.sample(lvs, 2)
            for lv in lvs:
                fl = ((), ('-O0',), ('-fPIC',)) if thorough else (rnd.choice([(), (), ('-O0',), ('-fPIC',)]),)
                for f in fl: tests.append(One('%s_%s_%s%s' % (op, ty, lv, ''.join(f)), ty, op, lv, f))
    out = core.pool(lambda i: check(b, tests[i]), range(len(tests)), each=90 if not thorough else 240, total=600 if not thorough else 3000)
    ck.extra['programs'] = len(tests)
    for i, r in out:
        t = tests[i]
        ck.add(obligations=1)
        if r is None: ck.inconclusive(t.name + ': time limit'); continue
        if 'error' in r: ck.inconclusive(t.name + ': ' + r['error'].strip().replace('\n', ' | ')[-400:]); continue
        q = r['stats']
        ck.add(queries=q['queries'], solver_s=q['solver_s'], paths=q['paths'], functions=['test'])
        ck.extra['accesses'] = ck.extra.get('accesses', 0) + q['events']
        if r['verdict'] == 'ok':
            ck.add(discharged=1)
            if len(ck.samples) < 12: ck.samples.append({'program': t.name, 'source': t.src()[:500], 'paths': q['paths'], 'accesses': q['events']})
        elif r['verdict'] == 'viol': ck.violation(t.name, r['what'], r['files'])
        else: ck.inconclusive(t.name + ': ' + '; '.join(r['notes'])[:400])
    ck.bounds = ['%d operation/type/lvalue combinations; arbitrary values written by another thread before each of the first %d accesses (none afterwards, which bounds the retry loops); all operand values' % (len(tests), NI)]
    ck.assume = ['each instruction with a lock prefix and xchg with memory is a single step, other instructions interleave at every access', 'object types of 1 to 8 bytes; structures and long double are refused by the compiler', 'memory orders weaker than sequential consistency are not distinguished: ordering of plain stores is not claimed', 'reference: clang -O0 code of the same operation on a plain object']
