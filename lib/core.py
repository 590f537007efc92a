"""Shared plumbing: builds from /repo's current tree, symx runs, worker pool, evidence, verdicts."""
import os, sys, json, glob, time, shutil, subprocess, tempfile, atexit, signal, re, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BCFLAGS = '-O1 -fno-vectorize -fno-slp-vectorize -fno-builtin -fno-stack-protector -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks -fPIE -w'.split()
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


def sh(cmd, timeout=120, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, e.stdout or b'', e.stderr or b''


class Build:
    """scratch directory with slimcc's sources as they are in /repo now, built twice: LLVM bitcode for
    the symbolic executor and a native binary for replaying counterexamples"""

    def __init__(self, bitcode=True, native=True):
        self.dir = tempfile.mkdtemp(prefix='slv_', dir=os.environ.get('TMPDIR', '/tmp'))
        self.pid = os.getpid()
        atexit.register(self.clean)
        self.src = self.dir + '/slimcc_src'
        os.mkdir(self.src)
        for f in glob.glob(REPO + '/*.c') + glob.glob(REPO + '/*.h'):
            if os.path.basename(f) == 'platform.c': continue
            if not os.path.isfile(f): continue
            shutil.copy(f, self.src)
        shutil.copytree(REPO + '/platform', self.src + '/platform')
        shutil.copytree(REPO + '/include', self.src + '/include')
        os.symlink('platform/linux-glibc-generic.c', self.src + '/platform.c')
        self.units = sorted(os.path.basename(f)[:-2] for f in glob.glob(self.src + '/*.c'))
        self.cc = self.src + '/slimcc'
        self.bc = self.dir + '/all.bc'
        procs = []
        if bitcode:
            os.mkdir(self.dir + '/bc')
            for u in self.units:
                procs.append((u, subprocess.Popen(['clang'] + BCFLAGS + ['-emit-llvm', '-c', u + '.c', '-o', self.dir + '/bc/' + u + '.bc'], cwd=self.src, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        if native:
            os.mkdir(self.dir + '/o')
            for u in self.units:
                procs.append((u, subprocess.Popen(['gcc', '-O1', '-w', '-c', u + '.c', '-o', self.dir + '/o/' + u + '.o'], cwd=self.src, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for u, p in procs:
            e = p.communicate()[1]
            if p.returncode: raise CheckError('cannot compile %s: %s' % (u, e.decode('latin1')[-400:]))
        if bitcode:
            link = shutil.which('llvm-link-18') or shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
            rc, _, e = sh([link] + [self.dir + '/bc/%s.bc' % u for u in self.units] + ['-o', self.bc])
            if rc: raise CheckError('llvm-link: ' + e.decode('latin1')[-400:])
        if native:
            rc, _, e = sh(['gcc'] + [self.dir + '/o/%s.o' % u for u in self.units] + ['-o', self.cc, '-lm'])
            if rc: raise CheckError('link: ' + e.decode('latin1')[-400:])

    def asan(self):
        """a native build with the address sanitizer"""
        procs = []
        os.makedirs(self.dir + '/oa', exist_ok=True)
        for u in self.units: procs.append((u, subprocess.Popen(['gcc', '-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-c', u + '.c', '-o', self.dir + '/oa/' + u + '.o'], cwd=self.src, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for u, p in procs:
            e = p.communicate()[1]
            if p.returncode: raise CheckError('cannot compile %s: %s' % (u, e.decode('latin1')[-400:]))
        exe = self.src + '/slimcc-asan'
        rc, _, e = sh(['gcc', '-fsanitize=address'] + [self.dir + '/oa/%s.o' % u for u in self.units] + ['-o', exe, '-lm'])
        if rc: raise CheckError('link: ' + e.decode('latin1')[-400:])
        self.replay_cc = exe

    def harness_bc(self, csrc, units, name='h'):
        """bitcode of a harness linked with some of slimcc's units"""
        link = shutil.which('llvm-link-18') or shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
        c = self.dir + '/%s.c' % name
        open(c, 'w').write(csrc)
        rc, _, e = sh(['clang'] + BCFLAGS + ['-I' + self.src, '-I' + VERIF + '/oracle', '-emit-llvm', '-c', c, '-o', self.dir + '/%s.bc' % name])
        if rc: raise CheckError('harness: ' + e.decode('latin1')[-600:])
        out = self.dir + '/%s_all.bc' % name
        rc, _, e = sh([link, self.dir + '/%s.bc' % name] + [self.dir + '/bc/%s.bc' % u for u in units] + ['-o', out])
        if rc: raise CheckError('llvm-link: ' + e.decode('latin1')[-600:])
        return out

    def clean(self):
        if os.getpid() == self.pid and os.path.isdir(self.dir): shutil.rmtree(self.dir, ignore_errors=True)


def ensure_symx():
    exe = VERIF + '/build/symx'
    srcs = glob.glob(VERIF + '/symx/*')
    if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(f) for f in srcs): return exe
    rc, o, e = sh(['bash', VERIF + '/symx/build.sh'], timeout=300)
    if rc: raise CheckError('symx does not build: ' + e.decode('latin1')[-600:])
    return exe


_n = [0]


def symx(build, cfg, bc=None, timeout=120, mem_gb=6):
    """run the symbolic executor; returns (records, summary)"""
    _n[0] += 1
    base = '%s/sx_%d_%d' % (build.dir, os.getpid(), _n[0])
    cfg = dict(cfg)
    cfg['out'] = base + '.out'
    cfg.setdefault('timeout', timeout)
    cfg.setdefault('jobs', 1)
    cfg.setdefault('query_ms', 10000)
    cfg.setdefault('max_paths', 5000)
    if 'argv' in cfg: cfg['argv'] = [build.cc] + cfg['argv'][1:] if cfg['argv'][0] == 'slimcc' else cfg['argv']
    json.dump(cfg, open(base + '.json', 'w'))
    p = subprocess.Popen([VERIF + '/build/symx', bc or build.bc, base + '.json'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=build.dir, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate()
    try:
        summ = json.loads(o.decode('latin1').strip().split('\n')[-1])
    except Exception:
        summ = {'crash': 1, 'paths': 0, 'stop': 9, 'queries': 0, 'solver_s': 0, 'err': e.decode('latin1')[-300:]}
    if os.environ.get('SYMX_CONC'):
        from collections import Counter
        for l, n in Counter(e.decode('latin1').split('\n')).most_common(15): print(n, l)
    recs = []
    if os.path.exists(base + '.out'):
        for ln in open(base + '.out', encoding='latin1'):
            try: recs.append(json.loads(ln))
            except Exception: summ['badrec'] = summ.get('badrec', 0) + 1
        os.unlink(base + '.out')
    os.unlink(base + '.json')
    return recs, summ


def rec_terms(rec):
    """(definitions {id: z3 term}, path constraints, {hole: z3 var}) of a record"""
    import z3
    terms, pc = {}, []
    for a in z3.parse_smt2_string(rec['smt']) if rec.get('smt') else []:
        if z3.is_eq(a) and z3.is_const(a.arg(0)) and a.arg(0).decl().name().startswith('S!'):
            terms[int(a.arg(0).decl().name()[2:])] = a.arg(1)
        else: pc.append(a)
    return terms, pc


def file_text(rec, path):
    return rec.get('files', {}).get(path)


# ------------------------------------------------------------------ worker pool
def _worker(fn, arg, conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    os.setpgid(0, 0)
    try:
        r = fn(arg)
    except CheckError as e:
        r = {'error': str(e)}
    except Exception as e:
        import traceback
        r = {'error': traceback.format_exc()[-1500:]}
    try: conn.send(r)
    except Exception as e: conn.send({'error': 'result not picklable: %s' % e})
    conn.close()
    os._exit(0)


def pool(fn, args, jobs=NCPU, each=200, total=800, progress=None):
    """run fn over args in forked processes with a time limit each; yields (arg, result|None)"""
    t0 = time.time()
    todo = list(args)[::-1]
    run = []
    out = []
    ctx = mp.get_context('fork')
    while todo or run:
        while todo and len(run) < jobs:
            if time.time() - t0 > total: out += [(a, None) for a in todo]; todo = []; break
            a = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(fn, a, w))
            p.start(); w.close()
            run.append((a, p, r, time.time()))
        mp.connection.wait([x[2] for x in run], timeout=0.5)
        nxt = []
        for a, p, r, t in run:
            if r.poll():
                try: v = r.recv()
                except EOFError: v = {'error': 'worker died'}
                p.join(5)
                if p.is_alive(): kill(p)
                out.append((a, v))
                if progress: progress(a, v)
            elif time.time() - t > each or time.time() - t0 > total + 20:
                kill(p); out.append((a, None))
                if progress: progress(a, None)
            else: nxt.append((a, p, r, t)); continue
            r.close()
        run = nxt
    return out


def kill(p):
    try: os.killpg(p.pid, 9)
    except Exception:
        try: os.kill(p.pid, 9)
        except Exception: pass
    p.join(5)


# ------------------------------------------------------------------ the verdict
class Check:
    def __init__(self, prop, level='other'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol, self.known, self.incon = [], [], []
        self.c = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'functions': set(), 'obligations': 0, 'discharged': 0, 'symx_insts': 0}
        self.samples, self.bounds, self.assume = [], [], []
        self.extra = {}
        self.kf = []
        try:
            for ln in open(VERIF + '/known_findings.txt'):
                ln = ln.strip()
                if ln.startswith('known: ') and 'property=%s ' % prop in ln:
                    m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', ln)
                    self.kf.append((m.group(2), m.group(3)))
        except FileNotFoundError: pass

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def add(self, **kw):
        for k, v in kw.items():
            if k == 'functions': self.c[k] |= set(v)
            else: self.c[k] = self.c.get(k, 0) + v

    def symx_stats(self, summ):
        self.add(queries=summ.get('queries', 0), solver_s=summ.get('solver_s', 0), paths=summ.get('paths', 0), symx_insts=summ.get('insts', 0))

    def violation(self, key, what, files):
        """key identifies the failing input / call site; files: {name: content} of the replay folder"""
        for k, text in self.kf:
            if k == key:
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, text))
                return
        d = VERIF + '/replay/%s/%s' % (self.prop, re.sub(r'[^\w.-]', '_', key)[:80])
        os.makedirs(d, exist_ok=True)
        for n, t in files.items():
            with open(d + '/' + n, 'wb') as f: f.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))
        with open(d + '/what.txt', 'w') as f: f.write(what + '\n')
        self.viol.append((key, what, d))

    def inconclusive(self, what): self.incon.append(what)

    def finish(self):
        cov = dict(self.c)
        cov['functions_encoded'] = len(self.c['functions'])
        cov['functions'] = sorted(self.c['functions'])[:60]
        cov['solver_s'] = round(cov['solver_s'], 3)
        cov['bounds'] = self.bounds
        cov['samples'] = self.samples[:12]
        cov['inconclusive'] = self.incon[:40]
        cov['inconclusive_count'] = len(self.incon)
        cov['known_findings'] = [k for k, _ in self.known]
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f: json.dump(ev, f, indent=1)
        for k, t in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, t))
        for i in self.incon[:8]: print('inconclusive: ' + str(i)[:240])
        print('%s: %d obligations, %d discharged, %d inconclusive, %d queries, %.1fs solver, %.1fs wall' % (self.prop, self.c['obligations'], self.c['discharged'], len(self.incon), self.c['queries'], self.c['solver_s'], time.time() - self.t0))
        if self.viol:
            for key, what, d in self.viol[:10]: print('# %s: %s' % (key, what[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, self.viol[0][2]))
            sys.exit(1)
        if self.c['obligations'] and self.c['discharged'] == 0:
            print('nothing could be decided'); sys.exit(2)
        sys.exit(0)
