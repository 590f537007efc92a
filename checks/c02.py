import random
import core, equiv
from equiv import T
from gen import *

XT = ITYPES + ['_Bool']
KT = [('i', 32, 1, '%s'), ('u', 32, 0, '%s'), ('l', 64, 1, '%s'), ('ul', 64, 0, '%s'), ('sc', 32, 1, '(signed char)%s'), ('us', 32, 1, '(unsigned short)%s')]
# (tag, statements) with X the variable operand and C the constant
OPS = [
    ('add', 'o[0] = X + C;'), ('sub', 'o[0] = X - C;'), ('rsub', 'o[0] = C - X;'), ('mul', 'o[0] = X * C;'), ('div', 'o[0] = X / C;'), ('mod', 'o[0] = X % C;'),
    ('rdiv', 'o[0] = C / X;'), ('rmod', 'o[0] = C % X;'), ('and', 'o[0] = X & C;'), ('or', 'o[0] = C | X;'), ('xor', 'o[0] = X ^ C;'),
    ('shl', 'o[0] = X << C;'), ('shr', 'o[0] = X >> C;'), ('rshl', 'o[0] = C << X;'), ('rshr', 'o[0] = C >> X;'),
    ('lt', 'o[0] = X < C;'), ('le', 'o[0] = X <= C;'), ('gt', 'o[0] = C > X;'), ('ge', 'o[0] = X >= C;'), ('eq', 'o[0] = X == C;'), ('ne', 'o[0] = C != X;'),
    ('iflt', 'if (X < C) o[0] = 1; else o[0] = 2;'), ('ifeq', 'o[0] = (X == C) ? 5 : 6;'), ('ifand', 'if (X & C) o[0] = 1; else o[0] = 2;'), ('whilegt', 'if (!(X > C)) o[0] = 7;'),
    ('asgadd', 'X += C; o[0] = X;'), ('asgsub', 'o[0] = X -= C;'), ('asgmul', 'X *= C; o[0] = X;'), ('asgdiv', 'o[0] = X /= C;'), ('asgmod', 'X %= C; o[0] = X;'),
    ('asgand', 'X &= C; o[0] = X;'), ('asgor', 'o[0] = X |= C;'), ('asgxor', 'X ^= C; o[0] = X;'), ('asgshl', 'X <<= C; o[0] = X;'), ('asgshr', 'o[0] = X >>= C;'),
    ('set', 'X = C; o[0] = X;'), ('land', 'o[0] = X && C;'), ('lor', 'o[0] = C || X;'), ('cond', 'o[0] = X ? C : 9;'), ('cond2', 'o[0] = C ? X : 9;'), ('neg', 'o[0] = -C + X;'), ('not', 'o[0] = ~C & X;'), ('lnot', 'o[0] = !C + X;'),
]
XF = ['local', 'global', 'deref', 'elem', 'call', 'member', 'stmtexpr', 'gptr', 'static']


def run(ck, thorough):
    rnd = random.Random(core.SEED + 1)
    b = core.Build()
    ck.bounds = ['one symbolic constant (32 or 64 bits wide, any value) per program', '%d operator forms x %d variable types x %d constant types (quick: constant types sampled per form)' % (len(OPS), len(XT), len(KT))]
    ck.assume = ['constants enter the compiler as integer literals (strtoul returns the symbolic value)', 'reference semantics: clang -O0 on the same program with the constant in a variable']
    tests = []
    for oi, (tag, st) in enumerate(OPS):
        for A in XT:
            kts = KT if thorough else rnd.sample(KT[:4], 1) + rnd.sample(KT, 1)
            if not thorough and tag in ('rdiv', 'rmod') and A != 'unsigned long': kts = [k for k in kts if k[0] != 'ul'] or KT[:1]
            kts = list(dict.fromkeys(kts))
            if not thorough and tag in ('and', 'add', 'sub', 'lt', 'mod', 'mul', 'div', 'shr', 'eq'): kts = rnd.sample(KT[:4], 2) + rnd.sample(KT[4:], 1)
            for (kn, kb, ks, kf) in kts:
                for rep in range(2 if thorough else 1):
                    fa = rnd.choice(XF[:1] * 3 + XF)
                    if not is_lvalue(fa) and ('asg' in tag or tag == 'set'): fa = 'local'
                    f, d, e = operand(fa, A, 'x', 1)
                    s = st.replace('X', e).replace('C', '(%s)' % (kf % 'K'))
                    tests.append(T('%s_%s_%s_%s_%d' % (tag, ID[A], kn, fa, rep), f + 'void test(void) { %s %s }' % (d, s), A + ' x', 'long o[1]', K=[('K', kb, ks)], solver_ms=15000 if thorough else 3000, timeout=60 if thorough else 25, traps='mul' not in tag))
    # the constant reaching other places: array index, pointer arithmetic, argument, return value, nested operations
    more = [
        ('arg', 'long g(long a, int b) { return a - b; } void test(void) { o[0] = g(C, C) + x; }'),
        ('ret', 'static XT g(void) { return C; } void test(void) { o[0] = g() + x; }'),
        ('nest1', 'void test(void) { XT a = x; o[0] = (a + C) * 3 - C; }'),
        ('nest2', 'void test(void) { XT a = x; o[0] = ((a & C) == C) + ((a | C) != a); }'),
        ('nest3', 'void test(void) { XT a = x; o[0] = (XT)(a + C) < (XT)(a - C); }'),
        ('nest4', 'void test(void) { XT a = x; o[0] = (a ^ C) - (C & ~a); }'),
        ('nest5', 'void test(void) { XT a = x; o[0] = (unsigned char)(a + C) + (signed char)(C - a); }'),
        ('nest6', 'void test(void) { XT a = x; long l = C; o[0] = l + a; l = a; l += C; o[1] = l; }'),
        ('ptr', 'void test(void) { char *p = (char *)x; o[0] = (long)(p + (short)C); o[1] = (long)(p - (signed char)C); }'),
        ('ptr2', 'void test(void) { int *p = (int *)x; o[0] = (long)(p + (signed char)C); o[1] = (long)&p[(short)C]; }'),
        ('bool', 'void test(void) { _Bool t = C; o[0] = t; t = x == C; o[1] = t; }'),
        ('switch', 'void test(void) { switch (x) { case 0: o[0] = C; break; default: o[0] = x + C; } }'),
    ]
    for tag, src in more:
        for A in (XT if thorough or tag.startswith('nest') else ['int', 'unsigned', 'long', 'unsigned char']):
            if tag.startswith('ptr'):
                if A != 'int': continue
                A = 'long'
            for (kn, kb, ks, kf) in (KT if thorough else rnd.sample(KT[:4], 2)):
                tests.append(T('%s_%s_%s' % (tag, ID[A], kn), src.replace('XT', A).replace('C', '(%s)' % (kf % 'K')), A + ' x', 'long o[2]', K=[('K', kb, ks)], solver_ms=15000 if thorough else 3000, timeout=60 if thorough else 25, traps=not tag.startswith('ptr')))
    # floating operand with an integer constant and vice versa is left to C14/C15
    equiv.run_all(ck, b, tests, each=60 if not thorough else 200, total=650 if not thorough else 3000)
