"""generators of test programs (all deterministic in the seed)"""
import random
ITYPES = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']
ALLI = ITYPES + ['_Bool', 'char', 'long long']
ID = {'signed char': 'sc', 'unsigned char': 'uc', 'short': 's', 'unsigned short': 'us', 'int': 'i', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'ul', '_Bool': 'b', 'char': 'c',
      'long long': 'll', 'unsigned long long': 'ull', 'float': 'f', 'double': 'd', 'long double': 'ld'}
BITS = {'signed char': 8, 'unsigned char': 8, 'char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned': 32, 'long': 64, 'unsigned long': 64, '_Bool': 8, 'long long': 64}
UNS = {'unsigned char', 'unsigned short', 'unsigned', 'unsigned long', '_Bool'}

# ways of reaching an operand: (extra declarations, expression) for variable number n of type T holding v
FORMS = {
    'global': lambda T, v, n: ('', v),
    'local': lambda T, v, n: ('%s a%d = %s;' % (T, n, v), 'a%d' % n),
    'deref': lambda T, v, n: ('%s a%d = %s; %s *p%d = &a%d;' % (T, n, v, T, n, n), '*p%d' % n),
    'elem': lambda T, v, n: ('%s a%d[3] = {1, %s, 2}; int i%d = 1;' % (T, n, v, n), 'a%d[i%d]' % (n, n)),
    'member': lambda T, v, n: ('struct { char c; %s m; %s z; } a%d = {1, %s, 3};' % (T, T, n, v), 'a%d.m' % n),
    'arrow': lambda T, v, n: ('struct { char c; %s m; %s z; } a%d = {1, %s, 3}, *p%d = &a%d;' % (T, T, n, v, n, n), 'p%d->m' % n),
    'call': lambda T, v, n: ('', 'f%d()' % n),
    'gptr': lambda T, v, n: ('%s *p%d = &%s;' % (T, n, v), '*p%d' % n),
    'cast': lambda T, v, n: ('%s a%d = %s;' % (T, n, v), '(%s)a%d' % (T, n)),
    'comma': lambda T, v, n: ('%s a%d = %s;' % (T, n, v), '(a%d, a%d)' % (n, n)),
    'static': lambda T, v, n: ('static %s a%d; a%d = %s;' % (T, n, n, v), 'a%d' % n),
    'stmtexpr': lambda T, v, n: ('%s a%d = %s;' % (T, n, v), '({ a%d; })' % n),
}
FNAMES = list(FORMS)


def operand(form, T, v, n):
    """(file-scope text, declarations, expression)"""
    d, e = FORMS[form](T, v, n)
    f = 'static %s f%d(void) { return %s; }\n' % (T, n, v) if form == 'call' else ''
    return f, d, e


def is_lvalue(form): return form not in ('call', 'cast', 'comma', 'stmtexpr')


class Expr:
    """random integer expressions over variables; shift counts and divisors are kept in range"""

    def __init__(self, rnd, vars_, muls=1, divs=1, consts=True, effects=False):
        self.r, self.vars, self.muls, self.divs, self.consts, self.effects = rnd, vars_, muls, divs, consts, effects

    def const(self):
        r = self.r
        c = r.choice([0, 1, 2, 3, 5, 7, 8, 16, 31, 100, 127, 128, 255, 256, 4095, 32767, 65535, 65536, 2147483647])
        t = r.random()
        if t < .2: return '(-%d)' % (c or 1)
        if t < .3: return '%dU' % c
        if t < .4: return '%dL' % c
        if t < .45: return '0x%xUL' % r.choice([0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0xffffffffffffffff])
        return str(c)

    def leaf(self):
        if self.consts and self.r.random() < .25: return self.const()
        return self.r.choice(self.vars)

    def cond(self, d):
        r = self.r
        k = r.random()
        if k < .6: return '%s %s %s' % (self.p(d - 1), r.choice(['<', '<=', '>', '>=', '==', '!=']), self.p(d - 1))
        if k < .75: return '!%s' % self.p(d - 1)
        if k < .9: return '%s %s %s' % (self.p(d - 1), r.choice(['&&', '||']), self.p(d - 1))
        return self.gen(d - 1)

    def p(self, d):
        e = self.gen(d)
        return e if e.isalnum() else '(%s)' % e

    def gen(self, d):
        r = self.r
        if d <= 0: return self.leaf()
        k = r.random()
        if k < .42:
            op = r.choice(['+', '-', '&', '|', '^', '+', '-'])
            return '%s %s %s' % (self.p(d - 1), op, self.p(d - 1))
        if k < .47 and self.muls > 0:
            self.muls -= 1
            return '%s * %s' % (self.p(d - 2), self.const() if r.random() < .6 else self.leaf())
        if k < .52 and self.divs > 0:
            self.divs -= 1
            return '%s %s %s' % (self.p(d - 2), r.choice('/%'), r.choice(['3', '7', '10', '8', '(-4)', '16U', '1', '(-1)', '5L', '64UL', '255']))
        if k < .62:
            return '%s %s (%s & %d)' % (self.p(d - 1), r.choice(['<<', '>>', '>>']), self.p(d - 2), r.choice([7, 15, 31]))
        if k < .66: return '%s %s %d' % (self.p(d - 1), r.choice(['<<', '>>']), r.randrange(0, 32))
        if k < .80: return '(%s)%s' % (r.choice(ALLI), self.p(d - 1))
        if k < .86: return '%s%s' % (r.choice(['-', '~', '+']), self.p(d - 1))
        if k < .93: return self.cond(d)
        return '%s ? %s : %s' % (self.p(d - 1), self.p(d - 1), self.p(d - 1))
