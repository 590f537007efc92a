"""Source texts with symbolic bytes: what the compiler does with them against an oracle written in C that is executed
symbolically on the same bytes, path by path."""
import os, re, shlex, time, shutil, tempfile
import z3
import core, asmx
from core import sh, CheckError, VERIF


class P:
    """pre + <len(alpha) symbolic bytes> + post is the source text; alpha[i] is the set of values of byte i"""

    def __init__(self, name, pre, alpha, post, mode=0, flags=(), timeout=20, assume=(), observe='asm', maxpaths=20000, lead=0, trail=0, maxinsts=500000000, act='-S', argv=None, src=None, post_check=False, files=None, cfg=None, sargs=None, out='/out.s'):
        self.__dict__.update(locals()); del self.self
        self.pre = pre.encode('latin1') if isinstance(pre, str) else pre
        self.post = post.encode('latin1') if isinstance(post, str) else post
        self.alpha = [a.encode('latin1') if isinstance(a, str) else bytes(a) for a in alpha]
        self.nsrc = len(self.alpha); self.text = None
        for a in sargs or []:          # arguments with symbolic bytes: (text, [sets], text)
            if not isinstance(a, str): self.alpha += [x.encode('latin1') if isinstance(x, str) else bytes(x) for x in a[1]]


def byteset(n, a):
    """SMT condition: byte variable n is one of a"""
    a = sorted(set(a)); out = []; i = 0
    while i < len(a):
        j = i
        while j + 1 < len(a) and a[j + 1] == a[j] + 1: j += 1
        out.append('(= %s #x%02x)' % (n, a[i]) if i == j else '(and (bvuge %s #x%02x) (bvule %s #x%02x))' % (n, a[i], n, a[j]))
        i = j + 1
    return out[0] if len(out) == 1 else '(or %s)' % ' '.join(out)


def native_oracle(build, csrc, name):
    exe = build.dir + '/oracle_' + name
    if not os.path.exists(exe):
        open(exe + '.c', 'w').write(csrc)
        rc, o, e = sh(['gcc', '-w', '-DNATIVE', exe + '.c', '-I' + VERIF + '/oracle', '-o', exe])
        if rc: raise CheckError('native oracle: ' + e.decode('latin1')[-400:])
    return exe


PH = re.compile('\x02([IUXOB])(\\d+)\x03')


def val(tok, terms, w):
    m = PH.match(tok)
    if not m: return int(tok)
    t = terms[int(m.group(2))]
    if t.size() > w: return z3.Extract(w - 1, 0, t)
    if t.size() < w: return z3.ZeroExt(w - t.size(), t)
    return t


def objects(text, terms):
    p = asmx.Program(); p.load_tu(text, terms, 'x'); p.finish()
    return p


def obj_bytes(p, name, n):
    """(size of the region from the symbol on, bytes)"""
    a = p.gsym.get(name)
    if a is None: a = p.tus[0].local.get(name)
    if a is None: return None
    hi = [h for l, h, nm in p.regions if l <= a < h]
    hi = hi[0] if hi else a
    out = []
    for i in range(n):
        if a + i >= hi: return None
        c = p.mem.get(a + i, 0)
        out.append(c if not isinstance(c, tuple) else asmx.EXTRACT(c[1] * 8 + 7, c[1] * 8, c[0], c[0].size()))
    return out


def run_bytes(m, s, p, nm, n):
    a = p.gsym.get(nm)
    if a is None: return None
    try: return [m.ld(s, a + i, 1) for i in range(n)]
    except asmx.Stop: return None


def compare(ref, rterms, code, asm, dterms):
    """list of (what, z3 condition | True under which the outcome is wrong)"""
    lines = [l for l in ref.split('\n') if l]
    if not lines: return [('no verdict', None)]
    if lines[0] == 'skip': return []
    if lines[0] == 'reject': return [('accepted, but the input must be refused', True)] if code == 0 else []
    if code != 0: return [('refused (status %s), but the input is valid' % code, True)]
    if asm is None: return [('no output', True)]
    p = objects(asm, dterms)
    bad = []; mach = fin = None
    for l in lines:
        w = l.split(' ')
        if w[0] == 'X':          # run this function first; the objects are looked at afterwards
            mach = asmx.Machine(p)
            try: r = mach.run(w[1], regs={'rdi': int(w[2])} if len(w) > 2 else None)
            except asmx.Stop as e: return [('%s: %s %s' % (w[1], e.kind, e.msg), True)]
            if len(r) != 1 or r[0][0] != 'ret': return [('%s does not return: %s' % (w[1], [x[:2] for x in r]), True)]
            fin = r[0][2]; continue
        if w[0] != 'S': raise CheckError('oracle line %r' % l)
        nm, wd, vs = w[1], int(w[2]), w[3:]
        got = obj_bytes(p, nm, wd * len(vs)) if fin is None else run_bytes(mach, fin, p, nm, wd * len(vs))
        if got is None: bad.append(('object %s is missing or shorter than %d bytes' % (nm, wd * len(vs)), True)); continue
        for i, t in enumerate(vs):
            x = val(t, rterms, wd * 8)
            y = asmx.CONCAT([(b, 8) for b in reversed(got[i * wd:(i + 1) * wd])])
            eq = asmx.EQ(x, y, wd * 8) if not (isinstance(x, int) and isinstance(y, int)) else (x & (1 << wd * 8) - 1) == y
            if eq is True: continue
            bad.append(('%s[%d] differs' % (nm, i), True if eq is False else z3.Not(eq)))
    return bad


def judged(ref, code, verdict):
    k = ref.split('\n')[0]
    if k == 'skip': return []
    if k == 'reject': return [('accepted, but the input must be refused', True)] if code == 0 else []
    if code != 0: return [('refused (status %s), but the input is valid' % code, True)]
    v = (verdict or 'no judgement').split('\n')[0]
    return [] if v == 'ok' else [(v, True)]


def build_args(t, bs, d, cut):
    """the command line for these symbolic bytes, /w/ being the directory d; holes: (argument, offset)"""
    out, holes, k = [], [], t.nsrc
    f = lambda x: x.replace('/w/', d)
    for a in t.sargs:
        if isinstance(a, str): out.append(f(a).encode('latin1')); continue
        p = f(a[0]).encode('latin1'); n = len(a[1])
        for i in range(n): holes.append((len(out), len(p) + i))
        x = p + bs[k:k + n] + f(a[2]).encode('latin1'); k += n
        out.append(x.split(b'\0')[0] if cut else x)
    return out, holes


def cmdline(t, out, inp):
    a = [t.act, '-w'] + list(t.flags) + ['-o', out] if t.argv is None else list(t.argv)
    return [x.replace('/out.s', out) if t.argv is not None else x for x in a] + [inp]


def run_one(build, bc, oracle_exe, t):
    st = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'symx_insts': 0, 'cpaths': 0, 'outcomes': {}}
    res = {'name': t.name, 'verdict': 'ok', 'notes': [], 'stats': st}
    t0 = time.time()
    n = len(t.alpha)
    first = bytes(a[0] for a in t.alpha)
    src = t.pre + first[:t.nsrc] + t.post
    head = [t.out] if t.post_check else [str(len(t.pre) - t.lead), str(n + t.lead + t.trail)]
    inp = '/w/in.c' if t.files or t.sargs is not None else '/in.c'
    holes = [{'name': 'b%d' % i, 'kind': 'bytes', 'where': inp, 'off': len(t.pre) + i, 'len': 1} for i in range(t.nsrc) if len(t.alpha[i]) > 1]
    args = cmdline(t, '/out.s', inp)
    if t.argv is not None:          # the symbolic text is part of the command line
        k = next(i for i, a in enumerate(args) if '@@' in a)
        off = args[k].index('@@') + len(t.pre)
        args[k] = args[k].replace('@@', src.decode('latin1'))
        holes = [{'name': 'b%d' % i, 'kind': 'bytes', 'where': 'argv%d' % (3 + len(head) + k), 'off': off + i, 'len': 1} for i in range(n) if len(t.alpha[i]) > 1]
        src = t.src
    if t.sargs is not None:
        ba, hs = build_args(t, first, '/w/', False)
        args = [x.decode('latin1') for x in ba]
        holes += [{'name': 'b%d' % (t.nsrc + i), 'kind': 'bytes', 'where': 'argv%d' % (3 + len(head) + a), 'off': o, 'len': 1} for i, (a, o) in enumerate(hs) if len(t.alpha[t.nsrc + i]) > 1]
    cfg = {'argv': [build.cc, str(t.mode)] + head + [build.cc] + args, 'vfs': dict({inp: src.decode('latin1')}, **{'/w/' + k: v for k, v in (t.files or {}).items()}), 'holes': holes,
           'assume': [byteset('b%d' % i, a) for i, a in enumerate(t.alpha) if len(a) > 1] + list(t.assume), 'max_paths': t.maxpaths, 'max_insts': t.maxinsts}
    cfg.update({k: v for k, v in (t.cfg or {}).items() if k != 'any_files'})
    recs, summ = core.symx(build, cfg, bc=bc, timeout=t.timeout)
    st['functions'] = [f for f in summ.get('functions', '').split(',') if f]
    st['queries'] += summ.get('queries', 0); st['solver_s'] += summ.get('solver_s', 0); st['symx_insts'] += summ.get('insts', 0)
    if summ.get('stop') or not recs: res['verdict'] = 'incon'; res['notes'].append('exploration stopped after %d paths: %s' % (len(recs), {k: summ.get(k) for k in ('stop', 'crash', 'err')}))
    for r in recs:
        st['paths'] += 1
        if r['end'] in ('unsupported', 'notimpl'): res['verdict'] = 'incon'; res['notes'].append('%s %s' % (r['end'], r.get('msg', '')[:150])); continue
        ref = r['files'].get('/ref')
        if ref is None: res['verdict'] = 'incon'; res['notes'].append('the oracle did not finish: %s %s' % (r['end'], r.get('msg', ''))); continue
        terms, pc = core.rec_terms(r)
        if r['end'] == 'exit':
            k = ref.split('\n')[0].split(' ')[0]
            st['outcomes'][k] = st['outcomes'].get(k, 0) + 1
            bad = compare(ref, terms, r.get('code'), r['files'].get('/out.s'), terms) if not t.post_check else judged(ref, r.get('code'), r['files'].get('/verdict'))
        else: bad = [('the compiler ends with %s %s' % (r['end'], r.get('msg', '')), True)]
        for what, c in bad:
            if c is None: continue
            s = z3.Solver(); s.set('timeout', 10000); s.add(*pc)
            for i, a in enumerate(t.alpha): s.add(z3.Or([z3.BitVec('b%d' % i, 8) == x for x in a]) if len(a) < 256 else z3.BoolVal(True))
            if c is not True: s.add(c)
            t1 = time.time(); q = s.check(); st['queries'] += 1; st['solver_s'] += time.time() - t1
            if q == z3.unsat: continue
            if q == z3.unknown: res['verdict'] = 'incon'; res['notes'].append('solver unknown'); continue
            m = s.model()
            bs = bytes(m.eval(z3.BitVec('b%d' % i, 8), model_completion=True).as_long() for i in range(n))
            ok, text, files = replay(build, oracle_exe, t, bs)
            if ok: res.update(verdict='viol', what='%s; symbolic bytes %r: %s' % (what, bs, text), files=files); st['wall'] = time.time() - t0; return res
            res['verdict'] = 'incon'; res['notes'].append('not reproduced: %s for %r: %s' % (what, bs, text))
            break
    st['wall'] = time.time() - t0
    return res


def replay(build, oracle_exe, t, bs):
    d = tempfile.mkdtemp(dir=build.dir)
    try:
        src = text = t.pre + bs[:t.nsrc] + t.post
        if t.argv is not None: src = t.src
        open(d + '/in.c', 'wb').write(src)
        for k, v in (t.files or {}).items():
            os.makedirs(os.path.dirname(d + '/' + k), exist_ok=True); open(d + '/' + k, 'w', encoding='latin1').write(v)
        if not t.post_check:
            rc, ref, e = sh([oracle_exe, str(t.mode), str(len(t.pre) - t.lead), str(len(bs) + t.lead + t.trail), d + '/in.c'], timeout=10)
            if rc: return False, 'native oracle fails', {}
        args = [os.fsencode(x) if t.argv is None else x.encode('latin1').replace(b'@@', text) for x in cmdline(t, d + '/out.s', d + '/in.c')]
        if t.argv is not None and any(b'\0' in x for x in args): return False, 'NUL in an argument', {}
        opath = d + '/out.s'
        if t.sargs is not None:
            args = build_args(t, bs, d + '/', True)[0]; opath = t.out.replace('/w/', d + '/')
            for k, v in (t.cfg or {}).get('any_files', lambda a, s: {})(args, src).items(): open(os.path.join(os.fsencode(d), k), 'w').write(v)
        rc, o, e = sh([getattr(build, 'replay_cc', build.cc)] + args, timeout=20, cwd=d, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        if b'AddressSanitizer' in e: rc = -6
        if rc == 124: rc = -9
        if t.post_check:
            orc_, ref, oe = sh([oracle_exe, str(t.mode), opath] + ([os.fsencode(build.cc)] + args if t.sargs is not None else [d + '/in.c']), timeout=10, cwd=d)
            if orc_: return False, 'native oracle fails', {}
        files = {'in.c': src, 'expected.txt': ref, 'stderr.txt': e, 'run.sh': '#!/bin/sh\n# SLIMCC=path of a slimcc built from the tree under test\n${SLIMCC:-/repo/slimcc} %s; echo "status $?"; echo expected:; cat "$(dirname "$0")/expected.txt"\n' % ' '.join(shlex.quote(x.decode('latin1').replace(d + '/out.s', '-') if t.sargs is None else x.decode('latin1')) for x in args).replace(d + '/in.c', '"$(dirname "$0")/in.c"')}
        if rc < 0 or rc > 128: return True, 'the compiler dies (status %d)%s; source %r' % (rc, ' ' + next((l for l in e.decode('latin1').split('\n') if 'ERROR: Add' in l), '')[:120], text[-200:]), files
        asm = open(opath, encoding='latin1').read() if rc == 0 else None
        if t.post_check:
            a, _, v = ref.decode('latin1').partition('--\n')
            bad = judged(a, rc, v); ref = ref + b'\n' + oe
        else: bad = compare(ref.decode('latin1'), {}, rc, asm, {})
        if bad and bad[0][1] is not None: return True, '%s; source %r, expected %r' % (bad[0][0], (bs if len(src) > 300 else src), ref.decode('latin1')[:200]), files
        return False, 'natively as expected', files
    finally: shutil.rmtree(d, ignore_errors=True)


def run_all(ck, build, oracle, tests, each=60, total=600, jobs=core.NCPU, units=None, key=lambda t, r: t.name):
    csrc = open(VERIF + '/oracle/%s.c' % oracle).read()
    bc = build.harness_bc(csrc, units or build.units, name='orc_' + oracle)
    exe = native_oracle(build, csrc, oracle)
    res = core.pool(lambda i: run_one(build, bc, exe, tests[i]), range(len(tests)), jobs=jobs, each=each, total=total)
    slow = sorted(((r['stats'].get('wall', 0), r['name'], r['stats']['paths']) for i, r in res if r and 'stats' in r), reverse=True)
    if os.environ.get('SLOW'): print('slowest', [(round(a, 1), b, c) for a, b, c in slow[:10]], 'total', round(sum(x[0] for x in slow)))
    oc = {}
    for i, r in res:
        t = tests[i]
        ck.add(obligations=1)
        if r is None: ck.inconclusive(t.name + ': time limit'); continue
        if 'error' in r: ck.inconclusive(t.name + ': ' + r['error'].strip().replace('\n', ' | ')[-400:]); continue
        s = r['stats']
        for k, v in s['outcomes'].items(): oc[k] = oc.get(k, 0) + v
        ck.add(queries=s['queries'], solver_s=s['solver_s'], paths=s['paths'], symx_insts=s['symx_insts'], functions=s.get('functions', []))
        if r['verdict'] == 'ok':
            ck.add(discharged=1)
            if len(ck.samples) < 12: ck.samples.append({'program': t.name, 'text': (t.pre[-60:] + b'<%d symbolic bytes>' % len(t.alpha) + t.post[:60]).decode('latin1'), 'paths': s['paths'], 'outcomes': s['outcomes']})
        elif r['verdict'] == 'viol': ck.violation(key(t, r), t.name + ': ' + r['what'], r['files'])
        else: ck.inconclusive(t.name + ': ' + '; '.join(r['notes'])[:300])
    ck.extra['oracle_outcomes'] = oc
