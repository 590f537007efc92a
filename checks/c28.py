"""names and storage: what a name stands for after any history of declarations, scopes and macro definitions; the compiler's
own tables and arenas at the level of their interface"""
import os, random, re, subprocess, tempfile, time, shutil
import core, orc
from core import sh, CheckError, VERIF
from orc import P
LEVEL = 'other'
NG = 4
G = 'int ' + ', '.join('g%d = 0' % i for i in range(NG)) + ';\n'

# @ a symbolic one of the names a, b; ^ one of a, b, c
OWN = {
 'block1': 'int a = 11, b = 12;\nvoid test(void) { int @ = 13; { int @ = 14; g0 = @; } g1 = @; { int @ = 15; } g2 = a; g3 = b; }\n',
 'block2': 'enum { a = 21 }; typedef char b[22];\nvoid test(void) { enum { @ = 23 }; { typedef char @[24]; { int @ = 25; g0 = sizeof(a); g1 = sizeof(b); } g2 = sizeof(@); } g3 = sizeof(@); }\n',
 'tags1': 'struct a { char m[11]; }; union b { char m[12]; char n[3]; };\nvoid test(void) { struct @ { char m[13]; }; { union @ { char m[14]; }; struct @ { char m[15]; }; } g0 = sizeof(struct @); { struct @; struct @ { char m[16]; }; g1 = sizeof(struct @); } g2 = sizeof(struct @); }\n',
 'tags2': 'struct a { char m[11]; }; struct b { char m[12]; }; typedef struct @ T; typedef struct b U;\nvoid test(void) { struct @ { char m[13]; }; g0 = sizeof(T); g1 = sizeof(struct @); { typedef struct @ T; struct @ { char n[14]; }; g2 = sizeof(T); } g3 = sizeof(U); }\n',
 'tagid': 'int a = 11; struct a { char m[12]; }; typedef char b[13]; enum b { c = 14 };\nvoid test(void) { g0 = sizeof(^); g1 = sizeof(struct a); { struct @ { char a[15]; char b[16]; }; g2 = sizeof(struct @); } { enum { ^ = 17 }; g3 = sizeof(^) + ^; } }\n',
 'param': 'int a = 11; int b = 12; void test(int @) { g0 = a; g1 = b; { int @ = 13; g2 = @; } @ = 14; g3 = a + b; }\n',
 'param2': 'typedef char a[11]; struct b { char m[12]; }; void other(int b); void test(int ^) { enum { @ = 13 }; { int ^ = 14; } g0 = ^; g1 = sizeof(struct b); g2 = sizeof(^); }\n',
 'for1': 'int a = 11, b = 12; void test(void) { for (int @ = 13; ; ) { g0 = @; int @ = 14; g1 = @; break; } g2 = @; for (int @ = 15; ; ) break; g3 = @; }\n',
 'if1': 'enum { a = 11, b = 12 }; void test(void) { if (sizeof(enum { @ = 13 })) g0 = @; else g0 = @; g1 = @; while (sizeof(struct @ { char m[14]; })) { g2 = @ + sizeof(struct @); break; } g3 = @; }\n',
 'if2': 'struct a { char m[11]; }; struct b { char m[12]; }; void test(void) { if (sizeof(struct @ { char m[13]; })) { struct @ { char m[14]; }; g0 = sizeof(struct @); } g1 = sizeof(struct @); if (1) g2 = sizeof(union @ { char m[15]; }); g3 = sizeof(struct @); }\n',
 'self': 'int a = 11, b = 12; void test(void) { int @ = sizeof(@), c = @; enum { d = @ + 1, @ = d, e = @ }; g0 = @; }\n'.replace('enum { d = @ + 1, @ = d, e = @ }; g0 = @;', 'g0 = @; g1 = c;'),
 'self2': 'enum { a = 11, b = 12 }; void test(void) { enum { @ = @ + 1, d = @ + @ }; g0 = a; g1 = b; g2 = d; { typedef char @[@ + 1]; g3 = sizeof(@); } }\n',
 'self3': 'typedef char a[11], b2[4]; int b = 12;\n'.replace(', b2[4]', '') + 'void test(void) { char @[sizeof(@) + 1]; g0 = sizeof(a); g1 = sizeof(b); { int @ = sizeof(@); g2 = @; } }\n',
 'label': 'int a = 11; typedef char b[12]; void test(void) { @: g0 = sizeof(b); { int @ = 13; @: g1 = @; ; } c: g2 = a; d: g3 = sizeof(@); }\n',
 'extern': 'int a = 11, b = 12; void test(void) { { extern int @; g0 = @; @ = 13; } { typedef char @[14]; { extern int @; g1 = @; } g2 = sizeof(@); } g3 = a + b; }\n',
 'gone': 'int a = 11; void test(void) { { int @ = 12; g0 = @; } g1 = @; }\n',
 'gone2': 'void test(void) { for (int @ = 12; ; ) { g0 = @; break; } { enum { @ = 13 }; g1 = @; } enum { a = 14 }; g2 = @; }\n',
 'gone3': 'int a = 10; void f(int b) { enum { ^ = 11 }; typedef char @[9]; } void test(void) { g1 = ^; }\n',
 'order': 'int a = 11; void test(void) { g0 = @; } int b = 12;\n',
 'deep': 'int a = 10, b = 20, c = 30; void test(void) { int ^ = 11; { int ^ = 12; { int ^ = 13; { int ^ = 14; g0 = a; } g1 = b; } g2 = c; } g3 = ^; }\n',
 'assign': 'int a = 10, b = 20; void test(void) { @ = 11; { int @ = 12; @ = 13; { @ = 14; int @ = 15; @ = 16; } g0 = @; } g1 = a; g2 = b; }\n',
 'mac1': '#define @ 11\n#define b 12\n#undef @\nenum { a = 13, c = 14 };\nvoid test(void) { g0 = a;\n#undef @\n#define @ c\ng1 = @;\n#undef c\n#define c 15\ng2 = @; g3 = a; }\n',
 'mac2': 'int a = 11, b = 12, c = 13;\n#define a ^\n#define b ^\n#define c ^\nvoid test(void) { g0 = a; g1 = b; g2 = c; }\n',
 'mac3': 'int a = 11, b = 12;\n#define @ 13\n#undef @\n#define @ 14\n#undef @\nvoid test(void) { g0 = @;\n#undef b\ng1 = a;\n#define @ b\ng2 = a; g3 = b; }\n',
 'mac4': 'enum { a = 11, b = 12, c = 13 };\n#define ^ 14\n#ifdef @\n#undef @\n#define c 15\n#else\n#define @ 16\n#endif\nvoid test(void) { g0 = a; g1 = b; g2 = c;\n#ifndef ^\ng3 = 17;\n#endif\n}\n',
 'mac5': 'int a = 11;\n#define b a\nvoid test(void) { { int @ = 12; g0 = b; {\n#undef @\nint @ = 13; g1 = b;\n#define @ 14\n } g2 = a; } g3 = @; }\n'.replace('g1 = b', 'g1 = @'),
 'mac6': '#define a b\n#define @ c\nenum { a = 11 };\n#undef a\nenum { a = 12, c2 = 13 };\nvoid test(void) { g0 = b; g1 = a; }\n',
 'mac7': 'int aa = 11, ab = 12, ba = 13, bb = 14;\n#define a@ 15\n#define @b 16\n#undef @@\nvoid test(void) { g0 = aa; g1 = ab; g2 = ba; g3 = bb; }\n',
 'long': 'int x_name_a_1 = 11, x_name_b_1 = 12, x_name_a_2 = 13;\nvoid test(void) { int x_name_@_1 = 14; { enum { x_name_@_% = 15 }; g0 = x_name_a_1; g1 = x_name_b_1; g2 = x_name_a_2; } g3 = x_name_@_1; }\n',
}


def template(name, text, mode, rnd, maxsym):
    """symbolic positions become sets; of more than maxsym, some are fixed"""
    pos = [i for i, c in enumerate(text) if c in '@^%']
    sym = set(pos if len(pos) <= maxsym else rnd.sample(pos, maxsym))
    lo, hi = (min(sym), max(sym)) if sym else (0, 0)
    alpha = []
    S = {'@': 'ab', '^': 'abc', '%': '12'}
    out = ''
    for i, c in enumerate(text):
        if c in S and i not in sym: c = rnd.choice(S[c])
        if lo <= i <= hi: alpha.append(S.get(c, c))
        out += c
    return P(name, G + out[:lo], alpha, out[hi + 1:], mode, lead=len(G) + lo, trail=len(out) - hi - 1, timeout=100, maxpaths=3000, flags=rnd.choice([[], ['-O0'], ['-std=c23']]))


def gen(rnd, names):
    """a random program over few names"""
    d = [10]; g = [0]
    def num(): d[0] += 1; return d[0]
    def decl(top=False):
        k = rnd.choice('EEVVVTSUCWtR' if not top else 'EVVTSU')
        n = num()
        return {'E': 'enum { @ = %d };' % n, 'V': 'int @ = %d;' % n, 'C': 'char @[%d];' % n, 'T': 'typedef char @[%d];' % n, 'S': 'struct @ { char m[%d]; };' % n, 'U': 'union @ { char @[%d]; };' % n,
                'W': 'struct @; struct @ { char m[%d]; };' % n, 't': 'typedef struct @ @;', 'R': 'enum { @ = @ + 1 };'}[k]
    def obs():
        if g[0] >= NG: return ''
        g[0] += 1
        return 'g%d = %s; ' % (g[0] - 1, rnd.choice(['@', '@', 'sizeof(@)', 'sizeof(struct @)', 'sizeof(@) + sizeof(@)', '@ + 1']))
    def block(depth):
        t = ''
        for _ in range(rnd.randint(1, 3)):
            r = rnd.random()
            if depth and r < .4:
                h = rnd.choice(['', '', 'for (int @ = %d; ; ) ' % num(), 'if (sizeof(enum { @ = %d })) ' % num(), 'while (sizeof(struct @ { char m[%d]; })) ' % num()])
                t += h + '{ ' + block(depth - 1) + ('break; ' if h[:1] in 'fw' and h else '') + '} '
            elif r < .7: t += decl() + ' '
            else: t += obs()
        return t
    t = ' '.join(decl(True) for _ in range(rnd.randint(1, 3))) + '\nvoid test(%s) { ' % rnd.choice(['void', 'void', 'int @']) + block(2) + obs() + block(1) + obs() + '}\n'
    return t.replace('@', rnd.choice(names)), g[0]


def valid(exe, text, mode):
    """a quick look whether some instance of the random program says anything"""
    pos = [i for i, c in enumerate(text) if c in '@^%']
    rnd = random.Random(1); ok = 0
    for _ in range(40):
        t = ''.join(rnd.choice({'@': 'ab', '^': 'abc', '%': '12'}.get(c, c)) for c in text)
        d = (G + t).encode()
        f = exe + '.txt'; open(f, 'wb').write(d)
        rc, o, e = sh([exe, str(mode), '0', str(len(d)), f], timeout=5)
        ok += o.startswith(b'X')
    return ok


def tests_(b, rnd, thorough):
    exe = orc.native_oracle(b, open(VERIF + '/oracle/c28.c').read(), 'c28')
    ts = [template(k, v, NG, rnd, 6 if not thorough else 9) for k, v in OWN.items()]
    n = 0
    while n < (14 if not thorough else 150):
        t, g = gen(rnd, ['@', '@', '^'])
        if g < 2 or valid(exe, t, NG) < 8: continue
        ts.append(template('gen_%d' % n, t, NG, rnd, 6 if not thorough else 9)); n += 1
    return ts


# ---- the tables and arenas themselves
HIST = ['', 'pa', ''.join('p' + c for c in 'abcdefghijk'), ''.join('p' + c for c in 'abcdefghijk') + ''.join('d' + c for c in 'abcdefgh'), ''.join('p' + c + 'd' + c for c in 'abcdefghijk'),
        ''.join('p' + chr(c) for c in range(0x41, 0x41 + 22)), ''.join('p' + chr(c) for c in range(0x41, 0x41 + 22)) + ''.join('d' + chr(c) for c in range(0x41, 0x41 + 18)),
        ''.join('p' + c for c in '/?OYo') + ''.join('p' + c for c in '.>N^n') + 'p0', 'pmpnpoplpk' + 'pap1pAdapa', 'PadPbePcfPdgPehPfiPgjPhkPil', ''.join('p' + chr(c) for c in range(0x31, 0x31 + 45))]
KEYS = ['aqAQ', '1aq2', 'ab1q', 'no/Y', 'km?l', 'aAb0']
ARENA = ['omm', 'ommm', 'oxmmm', 'oxxxmmm', 'oxxxxmfom', 'oxxxxzfoz', 'oxxxxxzfozz', 'ormfoz', 'omOMmM', 'oxxxOXXXXmMmfoMm', 'orxxxxxmfomz']


class TB:
    def __init__(self, name, argv, sym, timeout): self.name, self.argv, self.sym, self.timeout = name, argv, sym, timeout     # sym: [(argument, offset, set)]


def table_tests(rnd, thorough):
    ts = []
    for i, h in enumerate(HIST):
        for k in range(2 if not thorough else 6):
            n = 2 if not thorough else 3
            a = rnd.choice(KEYS); ops = ''; sym = []
            if k == 0: a = ''.join(c for c in h if c not in 'pd_')[-2:] + 'q1' if h else 'aqA1'
            if i == 9: a = 'aceg' if k else 'bdfi'
            for j in range(n):
                sym.append((3, 4 * j, 'pd')); sym.append((3, 4 * j + 2, ''.join(dict.fromkeys(a))[:(3, 2 - (i in (9, 10)))[j] if not thorough else 5]))
                if i == 9 or thorough and rnd.random() < .3: sym.append((3, 4 * j + 1, '12'))
                ops += 'p1a' + 'd'
            sym.append((4, 1, ''.join(dict.fromkeys(a + ''.join(chr(c) for c in range(0x60, 0x64 if not thorough else 0xff))))[:(7 if i != 9 else 10) if not thorough else 255]))
            if i == 9 or thorough: sym.append((4, 0, '12')); sym.append((4, 2, 'def'))
            ts.append(TB('table_%d_%d' % (i, k), ['slimcc', 't', h, ops, '1ad'], sym, 80 if not thorough else 300))
    for i, sc in enumerate(ARENA + (['ormzfoz', 'oxxxxmxxxmfozmz'] if thorough else [])):
        n = sum(c in 'mzMZ' for c in sc); sym = []
        for j, c in enumerate([c for c in sc if c in 'mzMZ']):
            if c in 'mM': sym.append((3, 2 * j, ''.join(chr(x) for x in range(1, 250))))
            else: sym.append((3, 2 * j, '\x01\x31' if c != 'z' or sc.count('z') < 3 else '\x21'))
            sym.append((3, 2 * j + 1, ''.join(chr(x) for x in range(16, 32)) if c in 'mM' else '\x10\x18' if len(sc) < 12 else '\x14'))
        ts.append(TB('arena_%s' % sc, ['slimcc', 'a', sc, '@' * (2 * n)], sym, 80 if not thorough else 300))
    return ts


def table_one(b, bc, exe, t):
    import z3
    st = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'symx_insts': 0}
    res = {'name': t.name, 'verdict': 'ok', 'notes': [], 'stats': st}; t0 = time.time()
    cfg = {'argv': t.argv, 'vfs': {}, 'holes': [{'name': 'b%d' % i, 'kind': 'bytes', 'where': 'argv%d' % a, 'off': o, 'len': 1} for i, (a, o, s) in enumerate(t.sym)],
           'assume': [orc.byteset('b%d' % i, s.encode('latin1')) for i, (a, o, s) in enumerate(t.sym)], 'max_paths': 200000, 'max_insts': 2000000000}
    recs, summ = core.symx(b, cfg, bc=bc, timeout=t.timeout)
    st['functions'] = [f for f in summ.get('functions', '').split(',') if f]
    st['queries'] += summ.get('queries', 0); st['solver_s'] += summ.get('solver_s', 0); st['symx_insts'] += summ.get('insts', 0); st['paths'] = len(recs)
    if summ.get('stop') or not recs: res['verdict'] = 'incon'; res['notes'].append('exploration stopped after %d paths: %s' % (len(recs), {k: summ.get(k) for k in ('stop', 'crash', 'err')}))
    for r in recs:
        if r['end'] == 'exit' and not r.get('code'): continue
        if r['end'] in ('unsupported', 'notimpl'): res['verdict'] = 'incon'; res['notes'].append('%s %s' % (r['end'], r.get('msg', '')[:150])); continue
        terms, pc = core.rec_terms(r)
        s = z3.Solver(); s.set('timeout', 10000); s.add(*pc)
        for i, (a, o, x) in enumerate(t.sym): s.add(z3.Or([z3.BitVec('b%d' % i, 8) == ord(c) for c in x]))
        t1 = time.time(); q = s.check(); st['queries'] += 1; st['solver_s'] += time.time() - t1
        if q == z3.unsat: continue
        if q == z3.unknown: res['verdict'] = 'incon'; res['notes'].append('solver unknown'); continue
        m = s.model(); av = [bytearray(x.encode('latin1')) for x in t.argv]
        for i, (a, o, x) in enumerate(t.sym): av[a][o] = m.eval(z3.BitVec('b%d' % i, 8), model_completion=True).as_long()
        rc, o, e = sh([exe + '2'] + [bytes(x) for x in av[1:]], timeout=20)
        if not rc: rc, o, e = sh([exe] + [bytes(x) for x in av[1:]], timeout=20)
        if rc:
            text = e.decode('latin1').strip()[:200] or 'status %d' % rc
            res.update(verdict='viol', what='%s; history %r, operations %r' % (text, bytes(av[2]), [bytes(x) for x in av[3:]]), files={'tables.c': open(VERIF + '/oracle/tables.c').read(), 'args.txt': repr([bytes(x) for x in av]),
                       'run.sh': '#!/bin/sh\n# compiles the driver with the sources in the current directory and runs the failing history\ncc -w -DNATIVE -I. "$(dirname "$0")/tables.c" $(ls *.c | grep -v -e alloc.c -e main.c) -lm -o /tmp/tables.$$ && /tmp/tables.$$ %s\n' % ' '.join("\"$(printf '%s')\"" % ''.join('\\%03o' % c for c in x) for x in av[1:])})
            st['wall'] = time.time() - t0; return res
        res['verdict'] = 'incon'; res['notes'].append('not reproduced: %s %s %s' % (r['end'], r.get('code'), r.get('msg', '')))
    st['wall'] = time.time() - t0
    return res


def tables(ck, b, rnd, thorough):
    csrc = open(VERIF + '/oracle/tables.c').read()
    bc = b.harness_bc(csrc, [u for u in b.units if u != 'alloc'], name='tables')
    exe = b.dir + '/tables_native'
    rc, o, e = sh(['gcc', '-w', '-O1', '-DNATIVE', '-fsanitize=address', '-I' + b.src, '-c', b.dir + '/tables.c', '-o', b.dir + '/tables.o'])
    if rc: raise CheckError('native harness: ' + e.decode('latin1')[-400:])
    rc, o, e = sh(['objcopy', '--redefine-sym', 'main=slimcc_main', b.dir + '/o/main.o', b.dir + '/main_t.o'])
    rc, o, e = sh(['gcc', '-w', '-O1', '-DNATIVE', '-I' + b.src, '-c', b.dir + '/tables.c', '-o', b.dir + '/tables2.o'])
    if rc: raise CheckError('native harness: ' + e.decode('latin1')[-400:])
    rc, o, e = sh(['gcc', b.dir + '/tables2.o', b.dir + '/main_t.o'] + [b.dir + '/o/%s.o' % u for u in b.units if u not in ('alloc', 'main')] + ['-o', exe + '2', '-lm'])
    rc, o, e = sh(['gcc', '-fsanitize=address', b.dir + '/tables.o', b.dir + '/main_t.o'] + [b.dir + '/o/%s.o' % u for u in b.units if u not in ('alloc', 'main')] + ['-o', exe, '-lm'])
    if rc: raise CheckError('native harness: ' + e.decode('latin1')[-400:])
    ts = table_tests(rnd, thorough)
    for i, r in core.pool(lambda i: table_one(b, bc, exe, ts[i]), range(len(ts)), each=120 if not thorough else 400, total=300 if not thorough else 2000):
        t = ts[i]; ck.add(obligations=1)
        if r is None: ck.inconclusive(t.name + ': time limit'); continue
        if 'error' in r: ck.inconclusive(t.name + ': ' + r['error'].strip().replace('\n', ' | ')[-400:]); continue
        s = r['stats']; ck.add(queries=s['queries'], solver_s=s['solver_s'], paths=s['paths'], symx_insts=s['symx_insts'], functions=s.get('functions', []))
        if os.environ.get('SLOW'): print(t.name, r['verdict'], s['paths'], round(s['wall'], 1), r['notes'][:2])
        if r['verdict'] == 'ok': ck.add(discharged=1)
        elif r['verdict'] == 'viol': ck.violation(t.name, t.name + ': ' + r['what'], r['files'])
        else: ck.inconclusive(t.name + ': ' + '; '.join(r['notes'])[:300])


def run(ck, thorough):
    rnd = random.Random(core.SEED + 28)
    b = core.Build()
    ts = tests_(b, rnd, thorough)
    tables(ck, b, rnd, thorough)
    ck.bounds = ['hash table: 11 histories of up to 45 operations (collisions, wrapped clusters, tombstones, growth) followed by %d operations whose kind and key are symbolic and a look-up of a symbolic key; arenas: 12 scripts of allocations of symbolic size (up to 1 KiB) in up to two arenas' % (2 if not thorough else 3),
                 'programs of up to 4 nested scopes over the names a, b (c), every name a symbolic byte (up to %d per program): variables, enumerators, typedefs, tags, labels, parameters, macros' % (6 if not thorough else 9)]
    ck.assume = ['oracle: scopes and name spaces of C23 6.2.1-6.2.4, macros of 6.10.5, as an interpreter in oracle/c28.c', 'programs that declare a name twice in one scope, and other invalid ones except uses of a name not in scope: nothing is claimed']
    orc.run_all(ck, b, 'c28', ts, each=120 if not thorough else 400, total=400 if not thorough else 2000)
