"""plant.py <dir under seeded | all> [--check]: verify planted bugs in scratch copies of /repo.
For each: patch applies, builds, stable tests pass, demo 0 on the clean copy, nonzero with the patch; with --check also run the property's check."""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
V = '/verif/seeded'
BASE = json.load(open('/opt/vp/BASELINE.json'))
stable = set(BASE['stable'])


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def copy(n):
    d = '/tmp/plant/%s' % n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('cp -a /repo %s/repo; mkdir %s/vp; cp /opt/vp/results.py %s/vp/; for f in build.sh test.sh; do sed "s#/repo#%s/repo#g; s#/opt/vp#%s/vp#g" /opt/vp/$f > %s/vp/$f; done' % (d, d, d, d, d, d))
    return d


def one(n, chk):
    s = V + '/' + n
    d = copy(n)
    try:
        env = dict(os.environ, TMPDIR=d)
        if sh('bash %s/vp/build.sh' % d).returncode: return n, 'clean build fails'
        demo = d + '/demo'
        shutil.copytree(s, demo)
        r = sh('bash %s/demo.sh' % demo, cwd=d + '/repo', timeout=300)
        if r.returncode: return n, 'demo fails on the clean tree: ' + r.stdout.decode('latin1')[-300:]
        r = sh('git apply %s/patch.diff' % s, cwd=d + '/repo')
        if r.returncode: return n, 'does not apply ' + r.stdout.decode('latin1')[-300:]
        r = sh('bash %s/vp/build.sh' % d)
        if r.returncode: return n, 'does not build ' + r.stdout.decode('latin1')[-300:]
        r = sh('bash %s/demo.sh' % demo, cwd=d + '/repo', timeout=300)
        if r.returncode == 0: return n, 'demo passes with the patch'
        out = 'demo rc %d' % r.returncode
        r = sh('bash %s/vp/test.sh %s/o.json' % (d, d))
        o = json.load(open(d + '/o.json'))
        bad = stable - set(o['passed'])
        if bad: return n, 'TESTS FAIL (%d): %s' % (len(bad), sorted(bad)[:6])
        out += ', tests ok'
        if chk:
            pid = json.load(open(s + '/meta.json'))['property']
            r = sh('./check.py %s' % pid, cwd='/verif', env=dict(os.environ, VERIF_REPO=d + '/repo'))
            out += ', %s exit %d %s' % (pid, r.returncode, [l for l in r.stdout.decode('latin1').splitlines() if 'VIOLATION' in l][:1])
        return n, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a[0] != '-']
    if args == ['all']: args = sorted(os.listdir(V))
    chk = '--check' in sys.argv
    with cf.ThreadPoolExecutor(1 if chk else 3) as ex:
        for n, r in ex.map(lambda n: one(n, chk), args): print(n, '::', r, flush=True)
