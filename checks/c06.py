"""#if / #elif expressions and the selection of groups, with symbolic literal values"""
import random
import core, equiv
from equiv import T

BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
CH = [("'a'", 97), ("'\\0'", 0), ("'\\377'", -1), ("'\\x80'", -128), ("'\\n'", 10), ("L'\\x80'", 128)]


class E:
    """a random #if expression: text for the preprocessor and a C expression over long / unsigned long"""

    def __init__(self, rnd, names, muls=1, divs=1):
        self.r, self.names, self.muls, self.divs = rnd, names, muls, divs

    def leaf(self):
        r, k = self.r, self.r.random()
        if k < .62:
            n, uns = r.choice(self.names)
            # spelled directly, through an object-like or a function-like macro
            how = r.random()
            lit = '@%s@' % n + ('u' if uns else '')
            return (lit if how < .6 else 'OBJ_%s' % n if how < .8 else 'FN_%s(1)' % n), '((%slong)%s)' % ('unsigned ' if uns else '', n)
        if k < .72:
            c = r.choice([0, 1, 2, 5, 31, 32, 63, 255, 2147483647, 2147483648, 4294967295, 9223372036854775807])
            s = r.choice(['', '', '', 'u', 'l', 'UL', 'll'])
            u = 'u' in s.lower()
            return '%d%s' % (c, s), '%dL' % c if not u else '%dUL' % c
        if k < .78:
            t, v = r.choice(CH)
            return t, '(%dL)' % v
        if k < .84:
            i = r.choice([('UNDEF', '0L'), ('while', '0L'), ('int', '0L'), ('YES', '1L'), ('EMPTY 7', '7L')])
            return i
        if k < .94:
            return r.choice([('defined YES', '1L'), ('defined(YES)', '1L'), ('defined NO', '0L'), ('!defined ( NO )', '1L'), ('defined __STDC__', '1L'), ('DEFY', '1L')])
        return r.choice([('__has_include("nosuch.h")', '0L'), ('__LINE__ * 0', '0L'), ('true', '0L'), ('false', '0L')][:3])

    def gen(self, d):
        r = self.r
        if d == 0: return self.leaf()
        k = r.random()
        if k < .12:
            o = r.choice(['-', '~', '!', '+'])
            a, b = self.gen(d - 1)
            return '%s(%s)' % (o, a), ('(long)(!(%s))' % b if o == '!' else '%s(%s)' % (o, b))
        if k < .26:
            c, a, b = self.gen(d - 1), self.gen(d - 1), self.gen(d - 1)
            return '((%s) ? (%s) : (%s))' % (c[0], a[0], b[0]), '((%s) ? (%s) : (%s))' % (c[1], a[1], b[1])
        o = r.choice(BIN)
        if o == '*':
            if not self.muls: o = '+'
            self.muls -= 1
        a = self.gen(d - 1)
        b = self.gen(d - 1)
        if o in '/%':
            if self.divs <= 0: o = '-'
            else:
                self.divs -= 1
                dv = r.choice([('7', '7L'), ('3u', '3UL'), ('-5', '-5L'), ('(1 << 31)', '(1L << 31)')])
                if r.random() < .25:
                    # the division is only evaluated when the divisor is not zero
                    g, w = r.choice([('&&', '&&'), ('?', ':')])[:2]
                    n, uns = r.choice(self.names)
                    lit, ref = '@%s@' % n + ('u' if uns else ''), '((%slong)%s)' % ('unsigned ' if uns else '', n)
                    if g == '&&': return '(%s && (100 %s %s))' % (lit, o, lit), '(long)(%s && (100L %s %s))' % (ref, o, ref)
                    return '(%s ? 1000 %s %s : 5)' % (lit, o, lit), '(%s ? 1000L %s %s : 5L)' % (ref, o, ref)
                b = dv
        if o in ('<<', '>>'): b = ('((%s) & 63)' % b[0], '((%s) & 63)' % b[1])
        t = '(%s) %s (%s)' % (a[0], o, b[0])
        if r.random() < .3 and d == 1: t = '%s %s %s' % (a[0], o, b[0]) if '?' not in a[0] + b[0] else t
        c = '(%s) %s (%s)' % (a[1], o, b[1])
        if o in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'): c = '(long)(%s)' % c
        return t, '(%s)' % c


TMO = 8
DEFS = '#define YES\n#define EMPTY\n#define DEFY defined YES\n'


def macros(names):
    return DEFS.replace('#define YES\n', '#define YES 1\n') + ''.join('#define OBJ_%s (@%s@%s)\n#define FN_%s(x) @%s@%s\n' % (n, n, 'u' if u else '', n, n, 'u' if u else '') for n, u in names)


def mkt(name, dut, ref, K, pre, **kw):
    ka = ['(bvsge %s (_ bv0 64))' % n for n, b, s in K if s]
    t = T(name, dut, '', 'long o[1]', K=K, ref=ref, pre=tuple(pre) + tuple('%s >= 0' % n for n, b, s in K if s), kassume=ka, partial=True, timeout=TMO, solver_ms=4000, **kw)
    for n, b, s in K: t.src = t.src.replace('@%s@' % n, t.klit(n, b))
    return t


def expr_test(rnd, name, depth):
    names = [('K1', rnd.random() < .4), ('K2', rnd.random() < .3)][:rnd.choice([1, 2, 2])]
    K = [(n, 64, 0 if u else 1) for n, u in names]
    e = E(rnd, names)
    t, c = e.gen(depth)
    t2, c2 = e.gen(1)
    dut = macros(names) + '#if %s\n#define R 1\n#elif %s\n#define R 2\n#else\n#define R 3\n#endif\nvoid test(void) { o[0] = R; }\n' % (t, t2)
    ref = 'void test(void) { if (%s) o[0] = 1; else if (%s) o[0] = 2; else o[0] = 3; }\n' % (c, c2)
    return mkt(name, dut, ref, K, [])


SKIP = ['#error not here', '#include "no/such/file"', '#define Z(', '#if )(\n#else )\n#endif', '#elif', '#bogus', '/* #else\n#endif */', '// #endif \\\n#else', '# 12 "x.c"', '#undef M0', '#line 99', '"#endif"', "'\"'", '#pragma once']


class G:
    """random group structure.  Every active text line runs o = o * 3 + n"""

    def __init__(self, rnd):
        self.r, self.n, self.K, self.depth = rnd, 0, [], 0

    def k(self):
        if len(self.K) >= 4: return self.r.choice(self.K)[0]
        n = 'K%d' % (len(self.K) + 1)
        self.K.append((n, 64, 1))
        return n

    def mark(self):
        self.n += 1
        return 'o[0] = o[0] * 3 + %d;\n' % self.n, 'o[0] = o[0] * 3 + %d;\n' % self.n

    def cond(self):
        """(directive text after '#', reference condition)"""
        r, k = self.r, self.r.random()
        if k < .5:
            a = self.k()
            return r.choice([('if @%s@' % a, a), ('if @%s@ == 4' % a, a + ' == 4'), ('if !@%s@' % a, '!' + a), ('if @%s@ > 10 || @%s@ == 2' % (a, a), '%s > 10 || %s == 2' % (a, a)), ('if (@%s@ & 1) && defined M0' % a, '(%s & 1) && m[0]' % a)])
        m = r.randrange(3)
        return r.choice([('ifdef M%d' % m, 'm[%d]' % m), ('ifndef M%d' % m, '!m[%d]' % m), ('if defined(M%d)' % m, 'm[%d]' % m), ('if !defined M%d' % m, '!m[%d]' % m)])

    def body(self, d):
        r = self.r
        s = c = ''
        for i in range(r.choice([1, 2, 2, 3])):
            k = r.random()
            if k < .35 or d == 0:
                a, b = self.mark(); s += a; c += b
            elif k < .5:
                m = r.randrange(3)
                if r.random() < .5: s += '#undef M%d\n#define M%d\n' % (m, m); c += 'm[%d] = 1;\n' % m
                else: s += '#undef M%d\n' % m; c += 'm[%d] = 0;\n' % m
            elif k < .58:
                s += '#if 0\n%s\n#elif 0\n%s\n#endif\n' % (r.choice([x for x in SKIP if not x.startswith('#elif')]), r.choice(['', '#error x']))
            else:
                a, b = self.group(d - 1); s += a; c += b
        return s, c

    def group(self, d):
        r = self.r
        t, c = self.cond()
        bs, bc = self.body(d)
        sp = r.choice(['#', '# ', '  #', '#\\\n', '/* x */ #'])
        s = sp + t + r.choice(['\n', ' // c\n', ' /* c\n */\n']) + bs
        ref = 'if (%s) {\n%s}' % (c, bc)
        for i in range(r.choice([0, 0, 1, 2])):
            t, c = self.cond()
            bs, bc = self.body(d)
            if t.startswith('if '): t = 'el' + t
            else: t = {'ifdef': 'elifdef', 'ifndef': 'elifndef'}[t.split()[0]] + ' ' + t.split()[1]
            s += '#' + t + '\n' + bs
            ref += ' else if (%s) {\n%s}' % (c, bc)
        if r.random() < .55:
            bs, bc = self.body(d)
            s += '#else\n' + bs
            ref += ' else {\n%s}' % bc
        return s + '#endif\n', ref + '\n'


def group_test(rnd, name):
    while 1:
        g = G(rnd)
        s, c = '', ''
        for i in range(rnd.choice([1, 2])):
            a, b = g.group(rnd.choice([1, 2, 2])); s += a; c += b
        if g.K: break
    a, b = g.mark()
    dut = '#define M0\n#define M1 0\nvoid test(void) {\no[0] = 0;\n%s%s}\n' % (s, a)
    ref = 'void test(void) {\nint m[3] = {1, 1, 0};\no[0] = 0;\n%s%s}\n' % (c, b)
    return mkt(name, dut, ref, g.K, [], flags=('-std=c23',))


def run(ck, thorough):
    rnd = random.Random(core.SEED + 6)
    b = core.Build()
    global TMO
    if thorough: TMO = 60
    n1, n2 = (900, 900) if thorough else (110, 80)
    tests = [expr_test(rnd, 'e%d' % i, rnd.choice([1, 2, 2, 3] + [3] * thorough)) for i in range(n1)]
    tests += [group_test(rnd, 'g%d' % i) for i in range(n2)]
    # every operator on every signedness pair
    for o in BIN:
        for ua in (0, 1):
            for ub in (0, 1):
                names = [('K1', ua), ('K2', ub)]
                a, b_ = ['@%s@%s' % (n, 'u' if u else '') for n, u in names]
                c, d = ['((%slong)%s)' % ('unsigned ' if u else '', n) for n, u in names]
                if o in ('<<', '>>'): b_, d = '(%s & 63)' % b_, '(%s & 63)' % d
                if o == '*': b_, d = ('3u', '3UL') if ub else ('-5', '-5L'); names = names[:1]
                if o in '/%': b_, d = ('7u', '7UL') if ub else ('-7', '-7L'); names = names[:1]
                K = [(n, 64, 0 if u else 1) for n, u in names]
                for j, (f, g) in enumerate([('%s', '%s'), ('(%s) < 0', '(%s) < 0'), ('~(%s) > 0', '~(%s) > 0'), ('-(%s) < 5u', '-(%s) < 5UL'), ('((%s) >> 60) == 15', '((%s) >> 60) == 15')]):
                    if o in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') and j not in (0, 2): continue
                    if not thorough and j > 1 and rnd.random() < .7: continue
                    x, y = '%s %s %s' % (a, o, b_), '(%s %s %s)' % (c, o, d)
                    if o in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'): y = '((long)%s)' % y
                    tests.append(mkt('op%d_%d%d_%d' % (BIN.index(o), ua, ub, j), '#if %s\nvoid test(void) { o[0] = 1; }\n#else\nvoid test(void) { o[0] = 2; }\n#endif\n' % (f % ('(%s)' % x)), 'void test(void) { if (%s) o[0] = 1; else o[0] = 2; }' % (g % y), K, [], traps=o != '*'))
    ck.bounds = ['%d random expressions of depth <= 3 with up to two symbolic literals (all 64-bit values) as #if and #elif conditions, every binary operator x signedness pair' % n1, '%d random group structures (nesting <= 3, up to four symbolic literals deciding the branches; #ifdef/#ifndef/#elifdef/#elifndef on macros defined and undefined inside groups; broken directives in skipped groups)' % n2]
    ck.assume = ['oracle: the same expression over long / unsigned long and the same structure as C if statements, compiled by clang; overflowing and zero-dividing evaluations excluded']
    equiv.run_all(ck, b, tests, each=60, total=650 if not thorough else 3000)
