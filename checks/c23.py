"""exit status of the driver under failing file operations, processes and tools"""
import os, re, subprocess, tempfile, shutil, time
import z3
import core
from core import sh, CheckError, VERIF
LEVEL = 'other'

VFS = {'a.c': '#include "h.h"\nint x = 1;\nchar *s = "str";\nint f(int a){return x + a;}\n', 'b.c': '#define M 3\nint y = M;\n', 'h.h': '#pragma once\nextern int h;\n', 'i.h': 'int i = 5;\n',
       'e.c': 'char d[] = {\n#embed "bin.dat"\n};\n', 'bin.dat': 'AB', 'p.S': '#define T text\n.T\nnop\n', 'q.s': '.text\n', 'o.o': 'x', 'k.c': '#include "k1.h"\n#include "k1.h"\nint k = __LINE__;\n', 'k1.h': '#include "h.h"\nextern int k1;\n',
       'fl.c': 'static double d = 1.5; double g(double x){ switch((int)x){case 1: return d; default: return x * 2;} }\nstruct S {int a; char b[3];} s = {1, "ab"}; _Thread_local int t; int arr[4] = {[2] = 3}; int *p = &arr[1];\n'}
# name, arguments, outputs in order (who writes it, path); x: number of processes started by the driver
CASES = [
    ('S', '-S /w/a.c -o /w/o.s', ['cc1 /w/o.s']), ('S2', '-S /w/fl.c -o /w/o.s', ['cc1 /w/o.s']), ('S3', '-S /w/a.c /w/b.c', ['sub a.s', 'sub b.s']), ('S4', '-S -O0 -fPIC /w/fl.c -o /w/o.s', ['cc1 /w/o.s']),
    ('Sg', '-S -g /w/k.c -o /w/o.s', ['cc1 /w/o.s']),
    ('E', '-E /w/a.c -o /w/o.i', ['cc1 /w/o.i']), ('Eout', '-E /w/k.c', ['cc1 stdout']), ('EP', '-E -P /w/k.c -o /w/o.i', ['cc1 /w/o.i']), ('Esub', '-E /w/a.c /w/b.c', ['sub stdout', 'sub stdout']),
    ('ES', '-E /w/p.S -o /w/o.i', ['cc1 /w/o.i']),
    ('M', '-M /w/k.c -o /w/o.d', ['cc1 /w/o.d']), ('Mout', '-M -MP /w/k.c', ['cc1 stdout']), ('MF', '-MM -MF /w/o.d /w/k.c', ['cc1 /w/o.d']),
    ('MD', '-S -MD -MF /w/o.d -MP /w/k.c -o /w/o.s', ['cc1 /w/o.d', 'cc1 /w/o.s']), ('MD2', '-E -MMD -MF /w/o.d /w/a.c -o /w/o.i', ['cc1 /w/o.d', 'cc1 /w/o.i']), ('MDc', '-c -MD -MF /w/o.d /w/a.c -o /w/o.o2', ['cc1 /w/o.d', 'cc1 tmp', 'as /w/o.o2']),
    ('c', '-c /w/a.c -o /w/o.o2', ['cc1 tmp', 'as /w/o.o2']), ('c2', '-c /w/a.c /w/b.c', ['sub tmp', 'as a.o', 'sub tmp', 'as b.o']), ('cs', '-c /w/q.s -o /w/o.o2', ['as /w/o.o2']), ('cS', '-c /w/p.S -o /w/o.o2', ['cc1 tmp', 'as /w/o.o2']),
    ('cS2', '-c /w/p.S /w/q.s', ['sub tmp', 'as p.o', 'as q.o']),
    ('link', '/w/a.c -o /w/prog', ['cc1 tmp', 'as tmp', 'ld /w/prog']), ('link2', '/w/a.c /w/b.c -o /w/prog', ['sub tmp', 'as tmp', 'sub tmp', 'as tmp', 'ld /w/prog']), ('link3', '/w/o.o /w/a.c /w/q.s', ['sub tmp', 'as tmp', 'as tmp', 'ld a.out']),
    ('link4', '-static /w/o.o -o /w/prog', ['ld /w/prog']), ('link5', '-shared /w/p.S /w/b.c -o /w/prog', ['sub tmp', 'as tmp', 'sub tmp', 'as tmp', 'ld /w/prog']), ('link6', '-r /w/q.s /w/o.o -o /w/prog', ['as tmp', 'ld /w/prog']),
    ('embed', '-std=c23 -S /w/e.c -o /w/o.s', ['cc1 /w/o.s']), ('incl', '-include /w/i.h -S /w/b.c -o /w/o.s', ['cc1 /w/o.s']), ('inclE', '-include /w/i.h -E /w/b.c -o /w/o.i', ['cc1 /w/o.i']),
    ('xc', '-S -x c /w/i.h -o /w/o.s', ['cc1 /w/o.s']), ('xasm', '-c -x assembler /w/q.s -o /w/o.o2', ['as /w/o.o2']),
]
WRAP = 'fopen fread fclose fflush fwrite fputc putc fputs fprintf vfprintf printf mkstemp fork wait waitpid execvp'.split()
NW = 6


def shim_build(b):
    exe = b.src + '/slimcc-shim'
    if not os.path.exists(exe):
        rc, o, e = sh(['clang', '-w', '-O0', '-c', b.bc, '-o', b.dir + '/all_shim.o'], timeout=200)
        if not rc: rc, o, e = sh(['clang', '-w', '-fno-builtin', b.dir + '/all_shim.o', VERIF + '/oracle/shim.c', '-no-pie', '-o', exe, '-lm'] + ['-Wl,--wrap=' + w for w in WRAP], timeout=200)
        if rc: raise CheckError('shim: ' + e.decode('latin1')[-400:])
    return exe


def native(exe, args, iof, waits, execok, outs):
    d = tempfile.mkdtemp(prefix='c23_', dir=os.path.dirname(os.path.dirname(exe)))
    try:
        for k, v in VFS.items(): open(d + '/' + k, 'w').write(v)
        env = dict(os.environ, IOF=str(iof), IOLOG=d + '/log')
        if waits is not None: env['WAITS'] = waits
        if execok: env['EXECOK'] = '1'
        rc, o, e = sh([exe] + [a.replace('/w/', d + '/') for a in args.split()], timeout=20, cwd=d, env=env)
        log = open(d + '/log').read() if os.path.exists(d + '/log') else ''
        left = [x.split()[1] for x in log.split('\n') if x.startswith('tmp ') and os.path.exists(x.split()[1])]
        for x in left: os.unlink(x)
        missing = [p for p in outs if not os.path.exists(p.replace('/w/', d + '/') if '/w/' in p else d + '/' + p)]
        return rc, 'fault ' in log, left, missing, e.decode('latin1')[-200:]
    finally: shutil.rmtree(d, ignore_errors=True)


def run_case(b, exe, case):
    name, args, outs = case
    t0 = time.time()
    st = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'symx_insts': 0, 'functions': []}
    res = {'name': name, 'verdict': 'ok', 'notes': [], 'stats': st, 'faults': 0}
    cfg = {'argv': ['slimcc'] + args.split(), 'vfs': {'/w/' + k: v for k, v in VFS.items()}, 'iofail': True, 'holes': [{'name': 'io_fault', 'kind': 'var', 'len': 16}] + [{'name': 'wait%d' % i, 'kind': 'var', 'len': 32} for i in range(1, NW + 1)], 'max_paths': 50000}
    recs, summ = core.symx(b, cfg, timeout=80)
    st['functions'] = [f for f in summ.get('functions', '').split(',') if f]
    st['queries'] += summ.get('queries', 0); st['solver_s'] += summ.get('solver_s', 0); st['symx_insts'] += summ.get('insts', 0)
    if summ.get('stop') or summ.get('crash') or not recs: res['verdict'] = 'incon'; res['notes'].append('exploration stopped %s' % {k: summ.get(k) for k in ('stop', 'crash', 'err')}); return res
    V = z3.BitVec
    waits = [V('wait%d' % i, 32) for i in range(1, NW + 1)]
    iof = V('io_fault', 16)

    def fail(what, m, execok, key):
        k = m.eval(iof, model_completion=True).as_long(); w = ','.join(str(m.eval(x, model_completion=True).as_long()) for x in waits)
        rc, faulted, left, missing, err = native(exe, args, k, None if execok else w, execok, [o.split()[1] for o in outs if o.split()[0] == 'cc1' and o.split()[1] not in ('tmp', 'stdout')])
        ok = {'status': rc == 0 and (faulted or not execok and any(x != '0' for x in w.split(','))), 'child': rc == 0 and faulted, 'tmp': bool(left), 'spurious': rc != 0 and not faulted, 'missing': rc == 0 and bool(missing), 'die': rc < 0}[key]
        if key == 'nochild': ok = True
        if ok:
            res.update(verdict='viol', what='%s: slimcc %s; failing operation number %d, child statuses %s' % (what, args, k, w), files={'case.txt': 'slimcc %s\nIOF=%d\nWAITS=%s\nEXECOK=%d\nstatus %d\nleft %s\n%s\n' % (args, k, w, execok, rc, left, err)})
            return True
        res['verdict'] = 'incon'; res['notes'].append('not reproduced: %s (operation %d, waits %s): status %s' % (what, k, w, rc))
        return False

    good, execs = [], {}
    base = None
    for r in recs:
        st['paths'] += 1
        ev = r.get('events', [])
        if any(e.startswith('fault:') for e in ev): res['faults'] += 1
        if r['end'] not in ('exit', 'exec', 'memerror', 'assert', 'abort'): res['verdict'] = 'incon'; res['notes'].append('%s %s' % (r['end'], r.get('msg', '')[:100])); continue
        child = [e for e in ev if e.startswith('child:')]
        flt = [e for e in ev if e.startswith('fault:')]
        terms, pc = core.rec_terms(r)
        s = z3.Solver(); s.add(*pc); st['queries'] += 1; t1 = time.time()
        if s.check() != z3.sat: continue
        m = s.model(); st['solver_s'] += time.time() - t1
        if r['end'] != 'exit':
            if r['end'] == 'exec': continue
            if child: continue           # the parent sees the status
            continue                     # dies: not a success status
        if child:
            ex = [e for e in ev if e.startswith('exec\x1f')]
            if ex:
                execs.setdefault(int(child[-1][6:]), ex[-1].split('\x1f')[1:])
                if r['code'] == 0 and fail('a process that could not be started ends with status 0', m, True, 'child'): return res
            elif r['code'] == 0:
                if flt:
                    if fail('the compiling process ends with status 0 although %s failed' % flt[0][6:], m, True, 'child'): return res
                else: execs.setdefault(int(child[-1][6:]), ['cc1', sorted(e[7:] for e in ev[ev.index(child[-1]):] if e.startswith('create:')), sorted((k, len(v)) for k, v in r['files'].items() if k not in ('stderr',))])
            continue
        tmps = [e[8:] for e in ev if e.startswith('mkstemp:')]
        for t in tmps:
            if 'unlink:' + t not in ev:
                if fail('the temporary file is left behind (status %s)' % r['code'], m, False, 'tmp'): return res
        if r['code'] == 0:
            if flt:
                if fail('status 0 although %s failed' % flt[0][6:], m, False, 'status'): return res
            nf = sum(1 for e in ev if e.startswith('fork:'))
            if nf:
                s.add(z3.Or([w != 0 for w in waits[:nf]])); st['queries'] += 1; t1 = time.time()
                q = s.check(); st['solver_s'] += time.time() - t1
                if q == z3.sat:
                    if fail('status 0 although a process failed', s.model(), False, 'status'): return res
                elif q != z3.unsat: res['verdict'] = 'incon'; res['notes'].append('unknown')
            if not flt: good.append((r, nf, m))
        elif not flt:
            nf = sum(1 for e in ev if e.startswith('fork:'))
            s.add(*[w == 0 for w in waits[:nf]]); st['queries'] += 1
            if s.check() == z3.sat and fail('status %s without a failure' % r['code'], s.model(), True, 'spurious'): return res
    if len(good) != 1: res['verdict'] = 'incon'; res['notes'].append('%d paths without a failure' % len(good)); return res
    r, nf, m = good[0]
    # the processes of the successful run write every requested output, each from what the one before wrote
    k = 0; prev = []
    procs = [o for o in outs if not o.startswith('cc1')]
    if nf != len(procs): res.update(verdict='viol', what='slimcc %s starts %d processes instead of %d (%s)' % (args, nf, len(procs), ', '.join(procs)), files={'case.txt': args}); return res
    for o in outs:
        who, path = o.split()
        if who == 'cc1':
            f = [x for x in r['files'] if (x.startswith('/tmp/slimcc-') if path == 'tmp' else x == path)]
            if not f or not all(r['files'][x] for x in f):
                if fail('status 0 but %s is not written' % path, m, True, 'missing' if path not in ('tmp', 'stdout') else 'missing'): return res
            prev += f; continue
        k += 1; x = execs.get(k)
        if not x: res['verdict'] = 'incon'; res['notes'].append('process %d is not seen' % k); continue
        if who == 'sub':
            if x[0] != 'cc1' or (path != 'stdout' and not any(c == path or path == 'tmp' and c.startswith('/tmp/slimcc-') for c in x[1])): res.update(verdict='viol', what='slimcc %s: process %d does not write %s' % (args, k, path), files={'case.txt': repr(x)}); return res
            prev += x[1]; continue
        dst = x[x.index('-o') + 1] if '-o' in x else None
        tin = [y for y in x[1:] if y.startswith('/tmp/slimcc-') and y != dst]
        okk = os.path.basename(x[0]) == who and (dst == path or path == 'tmp' and dst and dst.startswith('/tmp/slimcc-') and dst not in prev) and all(y in prev for y in tin)
        if who == 'ld': okk = okk and all(y in tin for y in [z for z in prev if z.startswith('as:')])
        if not okk: res.update(verdict='viol', what='slimcc %s: process %d is %s, expected %s' % (args, k, ' '.join(map(str, x))[:200], o), files={'case.txt': repr(x)}); return res
        prev.append(dst)
    st['wall'] = time.time() - t0
    return res


def run(ck, thorough):
    b = core.Build()
    exe = shim_build(b)
    cases = CASES + ([(n + '_g', '-g ' + a, o) for n, a, o in CASES] if thorough else [])
    ck.bounds = ['%d command lines (-S, -E, -M, -MD, -c, linking; one and several inputs; C, assembler and object files; -include, #include, #embed); one failing operation at any position (fopen, fread, fprintf, fputc, fwrite, fflush, fclose, mkstemp, fork, execvp: its number is a symbolic 16 bit value) and any 32 bit status of each of up to %d child processes' % (len(cases), NW)]
    ck.assume = ['a failed write sets the error indicator of the stream and appends nothing; a failed fopen, mkstemp, fork returns an error; execvp always fails in this exploration', 'failing memory requests, signals and text written by --help, -v and -### are not claimed', 'replays run the same bitcode natively with oracle/shim.c']
    res = core.pool(lambda i: run_case(b, exe, cases[i]), range(len(cases)), jobs=core.NCPU, each=150, total=700)
    nf = 0
    for i, r in res:
        name = cases[i][0]
        ck.add(obligations=1)
        if r is None: ck.inconclusive(name + ': time limit'); continue
        if 'error' in r: ck.inconclusive(name + ': ' + r['error'].strip().replace('\n', ' | ')[-400:]); continue
        s = r['stats']; nf += r['faults']
        ck.add(queries=s['queries'], solver_s=s['solver_s'], paths=s['paths'], symx_insts=s['symx_insts'], functions=s['functions'])
        if r['verdict'] == 'ok':
            ck.add(discharged=1)
            if len(ck.samples) < 12: ck.samples.append({'command': cases[i][1], 'paths': s['paths'], 'failure_paths': r['faults']})
        elif r['verdict'] == 'viol': ck.violation(name, r['what'], r['files'])
        else: ck.inconclusive(name + ': ' + '; '.join(r['notes'])[:300])
    ck.extra['failure_paths'] = nf
