"""Equivalence of slimcc's output with reference semantics (clang -O0 output of the same source with the
undefined cases trapping), for all values of the program's inputs and of compile-time constants."""
import os, re, time, struct, shutil, tempfile
import z3
import core, asmx, norm
from core import sh, CheckError

SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
         'long long': 8, 'unsigned long long': 8, '_Bool': 1, 'bool': 1, 'float': 4, 'double': 8, 'long double': 16}
CLANG = ['clang', '-std=gnu2x', '-O0', '-S', '-w', '-ffp-contract=off', '-fno-jump-tables', '-fno-stack-protector', '-fno-asynchronous-unwind-tables', '-fno-addrsig',
         '-fcf-protection=none', '-mno-avx', '-mno-sse3', '-fsigned-char', '-fPIC', '-fno-semantic-interposition', '-fno-builtin', '-fno-strict-aliasing', '-fvisibility=hidden']
TRAPS = ['-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,float-cast-overflow,bounds,vla-bound,unreachable', '-fsanitize-trap=all']


def decls(s):
    out = []
    for d in [x.strip() for x in s.split(',') if x.strip()]:
        m = re.match(r'^raw(\d+) (\w+)$', d)
        if m: out.append((None, m.group(2), int(m.group(1)))); continue
        m = re.match(r'^(.*?)\s*\b(\w+)(?:\[(\d+)\])?$', d)
        ty, nm = m.group(1).strip(), m.group(2)
        out.append((ty + ('[%s]' % m.group(3) if m.group(3) else ''), nm, SIZES[ty] * int(m.group(3) or 1)))
    return out


class T:
    """one test program.  ins/outs: 'int x, long y[3], raw16 s'.  K: [(name, bits, signed)] compile-time
    constants: slimcc sees a literal of symbolic value, the reference sees a variable.
    src: C text defining void test(void).  parts: further TUs [(text, 'D' dut | 'R' always reference)]"""

    def __init__(self, name, src, ins='', outs='', K=(), pre=(), parts=(), mode='uf', flags=(), ref=None, traps=True, assume=None, hooks=None, maxpaths=600,
                 timeout=60, kassume=(), spec=None, refflags=(), solver_ms=20000, entry='test', native=True, retry=False, partial=False, ldflags=()):
        self.__dict__.update(locals()); del self.self
        self.ins, self.outs = decls(ins), decls(outs)

    def header(self, side):
        h = ''
        for ty, nm, sz in self.ins + self.outs:
            if ty:
                m = re.match(r'^(.*)(\[\d+\])$', ty)
                h += 'extern %s %s%s;\n' % ((m.group(1), nm, m.group(2)) if m else (ty, nm, ''))
        for k in self.K:
            nm, bits, sg = k[:3]
            ct = {(8, 1): 'signed char', (8, 0): 'unsigned char', (16, 1): 'short', (16, 0): 'unsigned short', (32, 1): 'int', (32, 0): 'unsigned', (64, 1): 'long', (64, 0): 'unsigned long'}[bits, int(sg)]
            if side == 'R': h += 'extern %s %s_v;\n#define %s %s_v\n' % (ct, nm, nm, nm)
            else: h += '#define %s ((%s)%s)\n' % (nm, ct, self.klit(nm, bits))
        h += '#define IN_%s 1\n' % ('REF' if side == 'R' else 'DUT')
        return h

    def klit(self, nm, bits):
        # a recognisable literal of the right type; strtoul(<digits>) is the hole
        i = [k[0] for k in self.K].index(nm)
        return '0x%x' % ((0x7ab1000000000001 if bits == 64 else 0x7ab10001 if bits == 32 else 0x7ab1) + i * 16)

    def khole(self, nm, bits):
        return {'name': nm, 'kind': 'num', 'where': self.klit(nm, bits)[2:], 'off': 0, 'len': 64 if bits == 64 else 31 if bits == 32 and False else bits}


def ref_asm(build, t, text, tag='ref', dut=False):
    d = tempfile.mkdtemp(dir=build.dir)
    open(d + '/r.c', 'w').write(t.header('R') + text)
    rc, o, e = sh(CLANG + (TRAPS if t.traps else []) + list(t.refflags) + [d + '/r.c', '-o', d + '/r.s'])
    if rc: raise CheckError('reference does not compile (%s): %s' % (t.name, e.decode('latin1')[:500]))
    s = open(d + '/r.s').read()
    shutil.rmtree(d)
    return s


class Rejected(Exception):
    pass


def dut_asm(build, t, text, stats):
    """[(asm text, terms, path constraints)] for every compiler path"""
    if not t.K:
        d = tempfile.mkdtemp(dir=build.dir)
        open(d + '/in.c', 'w').write(t.header('D') + text)
        rc, o, e = sh([build.cc, '-S', '-w'] + list(t.flags) + ['-o', d + '/out.s', d + '/in.c'], timeout=30)
        if rc: raise Rejected('slimcc fails (status %d): %s' % (rc, e.decode('latin1')[:300]))
        s = open(d + '/out.s', encoding='latin1').read()
        rc, o, e = sh(['as', d + '/out.s', '-o', d + '/out.o'], timeout=30)
        if rc: raise Rejected('the assembler rejects the output: ' + e.decode('latin1')[:300])
        shutil.rmtree(d)
        return [(s, {}, [])]
    cfg = {'argv': ['slimcc', '-S', '-w'] + list(t.flags) + ['-o', '/out.s', '/in.c'], 'vfs': {'/in.c': t.header('D') + text},
           'holes': [t.khole(k[0], k[1]) for k in t.K], 'assume': list(t.kassume)}
    recs, summ = core.symx(build, cfg, timeout=t.timeout)
    stats['functions'] = [f for f in summ.get('functions', '').split(',') if f]
    stats['queries'] += summ.get('queries', 0); stats['solver_s'] += summ.get('solver_s', 0); stats['cpaths'] += len(recs); stats['symx_insts'] += summ.get('insts', 0)
    if summ.get('stop') or summ.get('crash') or not recs: stats['cut'] = 'compiler exploration stopped: %s' % {k: summ.get(k) for k in ('stop', 'crash', 'err', 'unknowns')}
    out = []
    for r in recs:
        if r['end'] != 'exit' or r.get('code'):
            out.append((None, r, None)); continue
        if t.K and not t.partial and r.get('nums', 0) < len(t.K): stats['cut'] = 'a constant was not read symbolically'
        terms, pc = core.rec_terms(r)
        s = core.file_text(r, '/out.s')
        out.append((s, terms, pc))
    return out


def mkprog(t, asms):
    p = asmx.Program()
    for ty, nm, sz in t.ins:
        v = z3.BitVec('in_' + nm, 8 * sz)
        if (ty or '').split('[')[0] in ('_Bool', 'bool'):      # pre_conds says the same; here it is syntactic
            v = z3.Concat(*[z3.ZeroExt(7, z3.Extract(8 * i, 8 * i, v)) for i in range(sz - 1, -1, -1)]) if sz > 1 else z3.ZeroExt(7, z3.Extract(0, 0, v))
        p.define(nm, sz, 16, v)
    for ty, nm, sz in t.outs: p.define(nm, sz, 16)
    for k in t.K: p.define(k[0] + '_v', k[1] // 8, 16, kvar(k))
    for text, terms, nm in asms: p.load_tu(text, terms, nm)
    return p


def kvar(k): return z3.BitVec(k[0], k[1])


def out_eq(t, m1, s1, m2, s2):
    """formula: outputs equal; True when syntactically so"""
    fs = []
    for ty, nm, sz in t.outs:
        b = (ty or '').split('[')[0]
        es = {'float': 4, 'double': 8, 'long double': 16}.get(b)
        w = es or (8 if sz % 8 == 0 else sz)
        for i in range(0, sz, w):
            n = 10 if es == 16 else w
            a1, a2 = m1.p.gsym[nm] + i, m2.p.gsym[nm] + i
            x, y = m1.ld(s1, a1, n), m2.ld(s2, a2, n)
            eq = asmx.EQ(x, y, 8 * n)
            if eq is True: continue
            if not isinstance(eq, bool):
                if not es and norm.poly_eq(asmx.bv(x, 8 * n), asmx.bv(y, 8 * n)): continue
                x, y = norm.canon(z3.simplify(asmx.bv(x, 8 * n))), norm.canon(z3.simplify(asmx.bv(y, 8 * n)))
                if x.eq(y): continue
                if z3.simplify(x).eq(z3.simplify(y)): continue
                eq = x == y
                if os.environ.get('DBG'): print('POLY', not es and (norm.poly(x, x.size()), norm.poly(y, y.size()))); print('DIFF', nm, i, '\n  dut', x.sexpr(), '\n  ref', y.sexpr())
            if es:
                bx, by = asmx.bv(x, 8 * n), asmx.bv(y, 8 * n)
                fs.append(z3.Or(bx == by, z3.And(isnan(bx, n), isnan(by, n))))
            else: fs.append(eq if not isinstance(eq, bool) else z3.BoolVal(eq))
    return fs


def isnan(b, n):
    if n == 10: return z3.And(z3.Extract(78, 64, b) == 0x7fff, z3.Extract(62, 0, b) != 0)
    e, m = (8, 23) if n == 4 else (11, 52)
    return z3.And(z3.Extract(e + m - 1, m, b) == (1 << e) - 1, z3.Extract(m - 1, 0, b) != 0)


def pre_conds(t):
    c = []
    for ty, nm, sz in t.ins:
        v = z3.BitVec('in_' + nm, 8 * sz)
        b = (ty or '').split('[')[0]
        if b in ('_Bool', 'bool'):
            for i in range(sz): c.append(z3.ULE(z3.Extract(8 * i + 7, 8 * i, v), 1))
        if b == 'long double':
            for i in range(0, sz, 16):
                x = z3.Extract(8 * i + 79, 8 * i, v)
                # canonical x87 encodings only (integer bit set iff the exponent is non-zero)
                c.append(z3.Extract(63, 63, x) == z3.If(z3.Extract(78, 64, x) == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)))
                c.append(z3.Extract(8 * i + 127, 8 * i + 80, v) == 0)
    env = {'in_' + nm: z3.BitVec('in_' + nm, 8 * sz) for ty, nm, sz in t.ins}
    env.update({k[0]: kvar(k) for k in t.K})
    env['z3'] = z3
    for p in t.pre: c.append(eval(p, env))
    return c


def solve(conds, ms, stats):
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', ms)
    s.add(*[norm.canon(c) for c in conds if not isinstance(c, bool)])
    r = s.check()
    stats['queries'] += 1; stats['solver_s'] += time.time() - t0
    return r, (s.model() if r == z3.sat else None)


def check(build, t):
    """decide one program.  result: {'verdict': ok|viol|incon, ...}"""
    r = check1(build, t)
    if r['verdict'] == 'incon' and t.mode == 'uf' and any('not reproduced' in n or 'unknown' in n for n in r['notes']) and t.retry:
        t.mode = 'ufi'
        r2 = check1(build, t)
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)): r2['stats'][k] = r2['stats'].get(k, 0) + v
        return r2
    return r


def check1(build, t):
    st = {'queries': 0, 'solver_s': 0.0, 'cpaths': 0, 'paths': 0, 'pairs': 0, 'symx_insts': 0, 'insns': 0}
    res = {'name': t.name, 'stats': st, 'verdict': 'ok', 'notes': []}
    t0 = time.time()
    pre = pre_conds(t)
    refparts = [(ref_asm(build, t, t.ref if t.ref is not None else t.src), {}, 'ref')]
    rparts = [(ref_asm(build, t, x), {}, 'part%d' % i) for i, (x, who) in enumerate(t.parts)]
    # reference paths
    try:
        mr = asmx.Machine(mkprog(t, refparts + rparts), t.mode, maxpaths=t.maxpaths, timeout=t.timeout, hooks=t.hooks, solver_ms=t.solver_ms)
        rres = mr.run(t.entry, pre)
    except asmx.Stop as e:
        res['verdict'] = 'incon'; res['notes'].append('reference: %s %s' % (e.kind, e.msg)); return res
    st['queries'] += mr.q; st['solver_s'] += mr.qt
    good = []
    for kind, msg, s in rres:
        if kind == 'ret': good.append(s)
        elif kind != 'trap': res['verdict'] = 'incon'; res['notes'].append('reference: %s %s' % (kind, msg)); return res
    if not good: res['verdict'] = 'incon'; res['notes'].append('the reference has no defined path'); return res
    res['rpaths'] = len(good)
    # compiler paths
    try:
        variants = dut_asm(build, t, t.src, st)
        dparts = []
        for i, (x, who) in enumerate(t.parts):
            if who == 'D':
                v = dut_asm(build, t, x, st)
                if len(v) != 1: raise CheckError('part forks in the compiler')
                dparts.append((v[0][0], v[0][1], 'dpart%d' % i))
            else: dparts.append(rparts[i])
    except Rejected as e:
        w = {n: 1 for n in ()}
        r, m = solve(pre + good[0].cond, t.solver_ms, st)
        return report(build, t, res, m, str(e))
    if 'cut' in st: res['notes'].append(st.pop('cut')); res['verdict'] = 'incon'
    for text, terms, pc in variants:
        if text is None:
            r = terms
            if r['end'] == 'unsupported' or r['end'] == 'insts':
                res['verdict'] = 'incon'; res['notes'].append('symx: ' + r['end'] + ' ' + r.get('msg', '')[:200]); continue
            # the compiler rejects or crashes: only wrong if the reference is defined there
            _, pcs = core.rec_terms(r)
            for s in good:
                q, m = solve(pre + pcs + s.cond, t.solver_ms, st)
                if q == z3.sat:
                    rep = report(build, t, res, m, 'compiler ends with %s %s %s' % (r['end'], r.get('code'), r.get('msg', '')))
                    if rep['verdict'] == 'viol': return rep
                    break
            continue
        try:
            md = asmx.Machine(mkprog(t, [(text, terms, 'dut')] + dparts), t.mode, maxpaths=t.maxpaths, timeout=t.timeout, hooks=t.hooks, solver_ms=t.solver_ms)
            md.fpu.ufs = mr.fpu.ufs
            dres = md.run(t.entry, pre + pc)
        except asmx.Stop as e:
            q, m = solve(pre + pc, t.solver_ms, st)
            rep = report(build, t, res, m, 'output: ' + e.msg) if q == z3.sat else res
            if rep['verdict'] == 'viol': return rep
            res['verdict'] = 'incon'; res['notes'].append('output: %s %s' % (e.kind, e.msg)); continue
        st['queries'] += md.q; st['solver_s'] += md.qt; st['paths'] += len(dres); st['insns'] += len(md.p.insns)
        for kind, msg, s in dres:
            for g in good:
                if kind == 'ret':
                    eqs = out_eq(t, md, s, mr, g)
                    if not eqs: st['pairs'] += 1; continue
                    conds = s.cond + g.cond + [z3.Not(z3.And(*eqs))]
                else: conds = s.cond + g.cond
                st['pairs'] += 1
                if os.environ.get('DBG'): print('CONDS', kind, '\n dut', [z3.simplify(c) for c in s.cond], '\n ref', [z3.simplify(c) for c in g.cond])
                q, m = solve(conds, t.solver_ms, st)
                if q == z3.unsat: continue
                if q == z3.unknown:
                    res['verdict'] = 'incon'; res['notes'].append('solver unknown on a path pair'); continue
                if kind in ('unsupported', 'limit'):
                    rep = report(build, t, res, m, 'output: ' + msg)
                    if rep['verdict'] == 'viol': return rep
                    res['verdict'] = 'incon'; res['notes'].append('%s %s' % (kind, msg)); break
                what = 'outputs differ' if kind == 'ret' else '%s: %s' % (kind, msg)
                rep = report(build, t, res, m, what)
                if rep['verdict'] == 'viol': return rep
    st['wall'] = time.time() - t0
    return res


def report(build, t, res, m, what):
    """replay on the real code; only what reproduces is a violation"""
    vals = {}
    def mv(nm, w):
        if m is None: return 0
        v = m.eval(z3.BitVec(nm, w), model_completion=True)
        return v.as_long()
    for ty, nm, sz in t.ins: vals[nm] = mv('in_' + nm, 8 * sz)
    kv = {k[0]: mv(k[0], k[1]) for k in t.K}
    ok, text, files = replay(build, t, vals, kv)
    if ok:
        res.update(verdict='viol', what='%s; inputs %s constants %s; %s' % (what, {k: hex(v) for k, v in vals.items()}, {k: hex(v) for k, v in kv.items()}, text), files=files)
    else:
        res['verdict'] = 'incon'
        res['notes'].append('not reproduced natively: %s; inputs %s constants %s; %s' % (what, {k: hex(v) for k, v in vals.items()}, {k: hex(v) for k, v in kv.items()}, text))
    return res


MAIN = r'''
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
struct obj { unsigned char *p; unsigned n; int out; const char *name; unsigned char *page; unsigned char *guard; };
extern struct obj objs[]; extern int nobjs;
extern unsigned long abi_regs[]; void tramp(void);
static void h(int s){ char b[32]; int n = s==8?1:s; const char *m = "signal\n"; write(1,m,7); _exit(9); }
int misaligned_calls;
int main(void){
  signal(SIGSEGV,h); signal(SIGBUS,h); signal(SIGFPE,h); signal(SIGILL,h); signal(SIGTRAP,h); signal(SIGABRT,h); alarm(10);
  for(int i=0;i<nobjs;i++) mprotect(objs[i].guard,4096,PROT_NONE);
  tramp();
  for(int i=0;i<nobjs;i++){
    for(unsigned char*q=objs[i].page;q<objs[i].p;q++) if(*q!=0xA5){ printf("guard before %s changed\n",objs[i].name); break; }
    if(objs[i].out){ printf("%s ",objs[i].name); for(unsigned k=0;k<objs[i].n;k++) printf("%02x",objs[i].p[k]); printf("\n"); }
  }
  for(int i=0;i<8;i++) if(abi_regs[i]!=0) printf("abi register %d not preserved\n",i);
  return 0;
}
'''
TRAMP = r'''
.text
.globl tramp
tramp:
 push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; sub $72,%rsp
 fnstcw 32(%rsp)
 movabs $0x1111111122222222,%rbx
 movabs $0x3333333344444444,%rbp
 movabs $0x5555555566666666,%r12
 movabs $0x7777777788888888,%r13
 movabs $0x99999999aaaaaaaa,%r14
 movabs $0xbbbbbbbbcccccccc,%r15
 mov %rsp,saved_rsp(%rip)
 call TEST
 mov %rsp,%rcx
 sub saved_rsp(%rip),%rcx
 mov %rcx,abi_regs+48(%rip)
 mov saved_rsp(%rip),%rsp
 movabs $0x1111111122222222,%rax; sub %rax,%rbx; mov %rbx,abi_regs(%rip)
 movabs $0x3333333344444444,%rax; sub %rax,%rbp; mov %rbp,abi_regs+8(%rip)
 movabs $0x5555555566666666,%rax; sub %rax,%r12; mov %r12,abi_regs+16(%rip)
 movabs $0x7777777788888888,%rax; sub %rax,%r13; mov %r13,abi_regs+24(%rip)
 movabs $0x99999999aaaaaaaa,%rax; sub %rax,%r14; mov %r14,abi_regs+32(%rip)
 movabs $0xbbbbbbbbcccccccc,%rax; sub %rax,%r15; mov %r15,abi_regs+40(%rip)
 fnstcw 40(%rsp)
 movzwl 40(%rsp),%eax; movzwl 32(%rsp),%ecx; sub %ecx,%eax
 fnstenv 40(%rsp); movzwl 48(%rsp),%ecx; xor $0xffff,%ecx; or %ecx,%eax
 fninit
 mov %rax,abi_regs+56(%rip)
 add $72,%rsp; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret
.bss
saved_rsp: .zero 8
.globl abi_regs
abi_regs: .zero 64
.section .note.GNU-stack,"",@progbits
'''


def driver_asm(t, vals, kv):
    objs = [(nm, sz, 0, vals.get(nm, 0)) for ty, nm, sz in t.ins] + [(nm, sz, 1, 0) for ty, nm, sz in t.outs] + [(k[0] + '_v', k[1] // 8, 0, kv[k[0]]) for k in t.K]
    o = TRAMP.replace('TEST', t.entry) + '.section .objs_pages,"aw"\n.balign 4096\n'
    tab = ''
    for i, (nm, sz, out, v) in enumerate(objs):
        pad = -sz % 4096
        o += 'page%d:\n.fill %d,1,0xA5\n.globl %s\n%s:\n' % (i, pad, nm, nm)
        bs = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, 'little')
        o += '.byte %s\n' % ','.join(str(b) for b in bs)
        o += 'guard%d: .zero 4096\n' % i
        tab += '.quad %s\n.long %d,%d\n.quad name%d,page%d,guard%d\n' % (nm, sz, out, i, i, i)
    o += '.data\n.balign 8\n.globl objs\nobjs:\n%s\n.globl nobjs\nnobjs: .long %d\n' % (tab, len(objs))
    for i, (nm, sz, out, v) in enumerate(objs): o += 'name%d: .asciz "%s"\n' % (i, nm)
    return o


def replay(build, t, vals, kv):
    """(reproduced?, description, files)"""
    d = tempfile.mkdtemp(dir=build.dir)
    try:
        hd, src = t.header('D'), t.src
        for k in t.K:
            hd, src = [x.replace(t.klit(k[0], k[1]), '0x%x' % kv[k[0]]) for x in (hd, src)]
        files = {'dut.c': hd + src, 'ref.c': t.header('R') + (t.ref if t.ref is not None else t.src), 'main.c': MAIN, 'drv.s': driver_asm(t, vals, kv)}
        for i, (x, who) in enumerate(t.parts): files['part%d_%s.c' % (i, who)] = (hd if who == 'D' else t.header('R')) + x; files['partref%d.c' % i] = t.header('R') + x
        for n, x in files.items(): open(d + '/' + n, 'w').write(x)
        cl = CLANG + (TRAPS if t.traps else []) + list(t.refflags)
        cmds = []
        sl = ['SLIMCC', '-S', '-w'] + list(t.flags)
        script = '#!/bin/sh\n# SLIMCC=path of a slimcc built from the tree under test\ncd "$(dirname "$0")"\n'
        def do(c):
            nonlocal script
            script += ' '.join("'%s'" % x if re.search(r'[^\w./=,+-]', x) else x for x in c).replace('SLIMCC', '${SLIMCC:-/repo/slimcc}') + '\n'
            return sh([build.cc if x == 'SLIMCC' else x for x in c], timeout=30, cwd=d)
        def fatal(rc, e, what): return rc, what + ': ' + e.decode('latin1')[:300]
        for c in (['gcc', '-w', '-c', 'main.c', '-o', 'main.o'], ['as', 'drv.s', '-o', 'drv.o'], cl[:1] + cl[1:] + ['ref.c', '-o', 'ref.s']):
            rc, o, e = do(c)
            if rc: return False, 'replay set-up failed: ' + e.decode('latin1')[:300], files
        rp, dp = [], []
        for i, (x, who) in enumerate(t.parts):
            rc, o, e = do(cl + ['partref%d.c' % i, '-o', 'pr%d.s' % i]); rp.append('pr%d.s' % i)
            if rc: return False, 'replay set-up failed: ' + e.decode('latin1')[:300], files
            if who == 'D':
                rc, o, e = do(sl + ['-o', 'pd%d.s' % i, 'part%d_D.c' % i]); dp.append('pd%d.s' % i)
                if rc: files['run.sh'] = script; return True, 'slimcc fails on a valid program: ' + e.decode('latin1')[:200], files
            else: dp.append('pr%d.s' % i)
        rc, o, e = do(['gcc', 'main.o', 'drv.o', 'ref.s'] + rp + list(t.ldflags) + ['-o', 'ref.exe'])
        if rc: return False, 'replay set-up failed (link): ' + e.decode('latin1')[:300], files
        rc, ro, e = do(['./ref.exe'])
        if rc: return False, 'the reference program does not run: rc %d %s' % (rc, ro[:100]), files
        rc, o, e = do(sl + ['-o', 'dut.s', 'dut.c'])
        if rc: files['run.sh'] = script; return True, 'slimcc fails on a valid program (status %d): %s' % (rc, e.decode('latin1')[:200]), files
        rc, o, e = do(['gcc', 'main.o', 'drv.o', 'dut.s'] + dp + list(t.ldflags) + ['-o', 'dut.exe'])
        if rc: files['run.sh'] = script; return True, 'the output of slimcc does not assemble or link: ' + e.decode('latin1')[:300], files
        rc, do_, e = do(['./dut.exe'])
        files['run.sh'] = script + 'echo; ./ref.exe > r.txt; ./dut.exe > d.txt; cmp r.txt d.txt\n'
        files['expected.txt'], files['got.txt'] = ro, do_
        if rc: return True, 'compiled program dies (status %d, %s)' % (rc, do_[:60]), files
        if norm_out(t, ro) != norm_out(t, do_): return True, 'expected %r got %r' % (ro.decode('latin1')[:400], do_.decode('latin1')[:400]), files
        return False, 'same native output', files
    finally:
        shutil.rmtree(d, ignore_errors=True)


def norm_out(t, o):
    """NaNs compare equal, padding of long double ignored"""
    out = []
    ty = {nm: (x or '').split('[')[0] for x, nm, sz in t.outs}
    for ln in o.decode('latin1').split('\n'):
        w = ln.split(' ')
        if len(w) == 2 and ty.get(w[0]) in ('float', 'double', 'long double'):
            es = SIZES[ty[w[0]]]; b = bytes.fromhex(w[1]); L = []
            for i in range(0, len(b), es):
                n = 10 if es == 16 else es
                v = int.from_bytes(b[i:i + n], 'little')
                if n == 10: nan = (v >> 64 & 0x7fff) == 0x7fff and v & ((1 << 63) - 1)
                else:
                    e, m = (8, 23) if n == 4 else (11, 52)
                    nan = (v >> m & ((1 << e) - 1)) == (1 << e) - 1 and v & ((1 << m) - 1)
                L.append('nan' if nan else hex(v))
            out.append((w[0], tuple(L)))
        else: out.append(ln)
    return out


def run_all(ck, build, tests, each=150, total=600, jobs=core.NCPU):
    """check every program in parallel and fold the results into ck"""
    bysz = list(tests)
    names = [t.name for t in bysz]
    if len(set(names)) != len(names): raise CheckError('duplicate program names: %s' % [n for n in names if names.count(n) > 1][:3])
    for i, t in enumerate(bysz):
        if not t.flags and not t.ldflags and i % 4 == 3: t.flags = ('-O0',)
    ck.extra.setdefault('programs', 0); ck.extra.setdefault('disagreements_checked', 0)
    res = core.pool(lambda i: check(build, bysz[i]), range(len(bysz)), jobs=jobs, each=each, total=total)
    slow = sorted(((r['stats'].get('wall', 0), bysz[i].name) for i, r in res if r and 'stats' in r), reverse=True)
    ck.extra['slowest'] = [(round(w, 1), n) for w, n in slow[:8]]
    if os.environ.get('SLOW'): print('slowest', ck.extra['slowest'], 'total', round(sum(w for w, n in slow)), 'quartiles', [round(slow[len(slow) * q // 8][0], 1) for q in range(8)])
    for i, r in res:
        t = bysz[i]
        ck.add(obligations=1)
        ck.extra['programs'] += 1
        if r is None: ck.inconclusive(t.name + ': time limit'); continue
        if 'error' in r: ck.inconclusive(t.name + ': ' + r['error'].strip().replace('\n', ' | ')[-400:]); ck.extra.setdefault('errors', []).append(r['error'][-600:]); continue
        s = r['stats']
        ck.add(queries=s['queries'], solver_s=s['solver_s'], paths=s['paths'], symx_insts=s['symx_insts'], functions=s.get('functions', []))
        ck.extra['disagreements_checked'] += s['pairs']
        if r['verdict'] == 'ok':
            ck.add(discharged=1)
            if len(ck.samples) < 12: ck.samples.append({'program': t.name, 'source': t.src[:600], 'compiler_paths': s['cpaths'], 'machine_paths': s['paths'], 'pairs': s['pairs']})
        elif r['verdict'] == 'viol': ck.violation(t.name, r['what'], r['files'])
        else: ck.inconclusive(t.name + ': ' + '; '.join(r['notes'])[:400])
