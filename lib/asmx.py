"""asmx: symbolic executor for x86-64 assembly text (AT&T syntax), as written by slimcc -S and
by clang -S.  Registers and memory hold Python ints or z3 bit-vectors; branches on symbolic
conditions fork the state; calling-convention obligations are checked at every call and ret."""
import re, struct, time
import numpy as np
import z3
import norm as nrm

M64 = (1 << 64) - 1
BVR = z3.BitVecRef
_fresh = [0]


def fresh(nm, w):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (nm, _fresh[0]), w)


class Stop(Exception):
    def __init__(self, kind, msg=''):
        self.kind, self.msg = kind, msg


# ------------------------------------------------------------------ bit-vector helpers
def isint(x):
    return not isinstance(x, z3.ExprRef)


def bv(x, w):
    return z3.BitVecVal(x, w) if isint(x) else x


def mask(x, w):
    return x & ((1 << w) - 1)


def sx(x, w):
    x = mask(x, w)
    return x - (1 << w) if x >> (w - 1) else x


K_ZEXT, K_SEXT, K_CONCAT, K_EXTRACT = z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT


def EXTRACT(hi, lo, e, w):
    """bits hi..lo of e (width w)"""
    if isint(e):
        return mask(e >> lo, hi - lo + 1)
    if lo == 0 and hi == w - 1:
        return e
    k = e.decl().kind()
    if k == K_ZEXT or k == K_SEXT:
        a = e.arg(0)
        aw = a.size()
        if hi < aw:
            return EXTRACT(hi, lo, a, aw)
        if lo >= aw and k == K_ZEXT:
            return 0
        if lo == 0:
            return z3.ZeroExt(hi + 1 - aw, a) if k == K_ZEXT else z3.SignExt(hi + 1 - aw, a)
    elif k == K_EXTRACT:
        p = e.params()
        return EXTRACT(hi + p[1], lo + p[1], e.arg(0), e.arg(0).size())
    elif k == K_CONCAT:
        top = w
        for c in e.children():
            cw = c.size()
            if hi < top and lo >= top - cw:
                return EXTRACT(hi - (top - cw), lo - (top - cw), c if not z3.is_bv_value(c) else c.as_long(), cw)
            top -= cw
    elif k == z3.Z3_OP_ITE:
        a, b = e.arg(1), e.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return ITE(e.arg(0), EXTRACT(hi, lo, a.as_long(), w), EXTRACT(hi, lo, b.as_long(), w), hi - lo + 1)
    elif k == z3.Z3_OP_BNUM:
        return mask(e.as_long() >> lo, hi - lo + 1)
    return z3.Extract(hi, lo, e)


def CONCAT(parts):
    """parts: [(expr,width)] most significant first"""
    out = []
    for e, w in parts:
        if out and isint(e) and isint(out[-1][0]):
            p, pw = out.pop()
            out.append(((p << w) | e, pw + w))
        else:
            out.append((e, w))
    if len(out) == 1:
        return out[0][0]
    if len(out) == 2 and isint(out[0][0]) and out[0][0] == 0:
        return z3.ZeroExt(out[0][1], out[1][0])
    return z3.Concat(*[bv(e, w) for e, w in out])


def ZEXT(e, w0, w1):
    if isint(e) or w0 == w1:
        return e
    return z3.ZeroExt(w1 - w0, e)


def SEXT(e, w0, w1):
    if w0 == w1:
        return e
    if isint(e):
        return mask(sx(e, w0), w1)
    return z3.SignExt(w1 - w0, e)


def bin_(op, a, b, w):
    ia, ib = isint(a), isint(b)
    if ia and ib:
        if op == 'add': return mask(a + b, w)
        if op == 'sub': return mask(a - b, w)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'mul': return mask(a * b, w)
    if op == 'add':
        if ia and a == 0: return b
        if ib and b == 0: return a
        return bv(a, w) + bv(b, w)
    if op == 'sub':
        if ib and b == 0: return a
        if not ia and not ib and a.eq(b): return 0
        return bv(a, w) - bv(b, w)
    if op == 'and':
        if (ia and a == 0) or (ib and b == 0): return 0
        if ib and b == (1 << w) - 1: return a
        if ia and a == (1 << w) - 1: return b
        if not ia and not ib and a.eq(b): return a
        return bv(a, w) & bv(b, w)
    if op == 'or':
        if ia and a == 0: return b
        if ib and b == 0: return a
        if not ia and not ib and a.eq(b): return a
        return bv(a, w) | bv(b, w)
    if op == 'xor':
        if ia and a == 0: return b
        if ib and b == 0: return a
        if not ia and not ib and a.eq(b): return 0
        return bv(a, w) ^ bv(b, w)
    if op == 'mul':
        return bv(a, w) * bv(b, w)
    raise AssertionError(op)


def norm(e):
    """z3 value -> python int / bool where it is a literal"""
    if isint(e): return e
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e


def SIMP(e):
    return e if isint(e) else norm(z3.simplify(e))


def NOT(c):
    if isinstance(c, bool): return not c
    return z3.Not(c)


def AND(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    return z3.And(a, b)


def OR(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    return z3.Or(a, b)


def XORB(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a != b
    if isinstance(a, bool): return NOT(b) if a else b
    if isinstance(b, bool): return NOT(a) if b else a
    return z3.Xor(a, b)


def ITE(c, a, b, w):
    if isinstance(c, bool): return a if c else b
    if isint(a) and isint(b) and a == b: return a
    return z3.If(c, bv(a, w), bv(b, w))


def EQ(a, b, w):
    if isint(a) and isint(b): return a == b
    if not isint(a) and not isint(b) and a.eq(b): return True
    return bv(a, w) == bv(b, w)


def ULT(a, b, w):
    if isint(a) and isint(b): return a < b
    return z3.ULT(bv(a, w), bv(b, w))


def SLT(a, b, w):
    if isint(a) and isint(b): return sx(a, w) < sx(b, w)
    return bv(a, w) < bv(b, w)


def MSB(a, w):
    if isint(a): return bool(a >> (w - 1) & 1)
    return EQ(EXTRACT(w - 1, w - 1, a, w), 1, 1)


# ------------------------------------------------------------------ floating point
F32, F64, F80 = 32, 64, 80
FPS = {32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}
RNE, RTZ = z3.RNE(), z3.RTZ()


def f_unpack(x, w):
    if w == 32: return np.array([x], dtype=np.uint32).view(np.float32)[0]
    if w == 64: return np.array([x], dtype=np.uint64).view(np.float64)[0]
    return np.frombuffer(int(x).to_bytes(16, 'little'), dtype=np.longdouble)[0]


def f_pack(v, w):
    if w == 32: return int(np.array([v], dtype=np.float32).view(np.uint32)[0])
    if w == 64: return int(np.array([v], dtype=np.float64).view(np.uint64)[0])
    return int.from_bytes(np.array([v], dtype=np.longdouble).tobytes()[:10], 'little')


def isint2(a): return z3.is_bv_value(a)


class FPU:
    """mode 'uf': arithmetic and conversions are uninterpreted (the right operation applied to the
    right operands); mode 'real': IEEE semantics in the solver's floating-point theory"""

    def __init__(self, mode='uf'):
        self.mode = mode
        self.fpof = {}        # id of a BV expression -> (BV, FP)
        self.ufs = {}

    def uf(self, nm, *ws):
        if nm not in self.ufs:
            self.ufs[nm] = z3.Function(nm, *[z3.BitVecSort(w) for w in ws])
        return self.ufs[nm]

    def fp(self, x, w):
        if not isint(x) and x.get_id() in self.fpof:
            return self.fpof[x.get_id()][1]
        x = bv(x, w)
        if w == 80:
            x = z3.Concat(z3.Extract(79, 64, x), z3.Extract(62, 0, x))
        return z3.fpBVToFP(x, FPS[w])

    def bits(self, e, w):
        if w == 80:
            b = z3.fpToIEEEBV(e)
            ex = z3.Extract(77, 63, b)
            r = z3.Concat(z3.Extract(78, 63, b), z3.If(ex == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)), z3.Extract(62, 0, b))
        else:
            r = z3.fpToIEEEBV(e)
        self.fpof[r.get_id()] = (r, e)
        return r

    def arith(self, op, a, b, w):
        if isint(a) and isint(b):
            with np.errstate(all='ignore'):
                x, y = f_unpack(a, w), f_unpack(b, w)
                return f_pack(x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else np.divide(x, y), w)
        if self.mode == 'real':
            f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
            return self.bits(f(RNE, self.fp(a, w), self.fp(b, w)), w)
        a, b = bv(a, w), bv(b, w)
        if op == 'sub':     # IEEE: a - b is a + (-b)
            op, b = 'add', z3.simplify(b ^ z3.BitVecVal(1 << (w - 1), w))
        a, b = nrm.canon(z3.simplify(a)), nrm.canon(z3.simplify(b))
        # exact identities (NaN payloads apart), which the reference compiler folds
        sg = 1 << (w - 1)
        one = {32: 0x3f800000, 64: 0x3ff0000000000000, 80: 0x3fff8000000000000000}[w]
        va, vb = (x.as_long() if z3.is_bv_value(x) else None for x in (a, b))
        if va is not None and vb is not None: return self.arith(op, va, vb, w)
        if op == 'mul' and va is not None: a, b, va, vb = b, a, vb, va
        if op == 'add' and va == sg: return b
        if op == 'add' and vb == sg: return a
        for i, t in ((0, a), (1, b)):
            if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bv_value(t.arg(1)) and z3.is_bv_value(t.arg(2)):
                return ITE(t.arg(0), *[self.arith(op, u, b, w) if i == 0 else self.arith(op, a, u, w) for u in (t.arg(1).as_long(), t.arg(2).as_long())], w)
        if op in ('mul', 'div') and vb is not None and vb & ~sg == one: return a if vb == one else z3.simplify(a ^ sg)
        f = self.uf('f%s%d' % (op, w), w, w, w)
        if op in ('add', 'mul') and self.mode == 'uf':
            # operands in a canonical syntactic order; where that fails to identify equal terms, mode
            # 'ufi' orders them by value
            if (a.hash(), a.sexpr() if a.hash() == b.hash() else '') > (b.hash(), b.sexpr() if a.hash() == b.hash() else ''): a, b = b, a
            return f(a, b)
        if op in ('add', 'mul') and not a.eq(b):
            c = z3.ULE(a, b)
            return f(z3.If(c, a, b), z3.If(c, b, a))
        return f(a, b)

    def sqrt(self, a, w):
        if isint(a):
            with np.errstate(all='ignore'):
                return f_pack(np.sqrt(f_unpack(a, w)), w)
        return self.uf('fsqrt%d' % w, w, w)(a)

    def cvt(self, a, w0, w1):
        if w0 == w1: return a
        if isint(a):
            with np.errstate(all='ignore'):
                v = f_unpack(a, w0)
                return f_pack({32: np.float32, 64: np.float64, 80: np.longdouble}[w1](v), w1)
        if self.mode == 'real':
            return self.bits(z3.fpToFP(RNE, self.fp(a, w0), FPS[w1]), w1)
        nm = 'cvt_f%d_f%d' % (w0, w1)
        if w0 > w1 and a.decl().name() == 'cvt_f%d_f%d' % (w1, w0):
            return a.arg(0)
        if a.decl().name() == 'cvt_f32_f64' and w0 == 64 and w1 == 80:
            return self.cvt(a.arg(0), 32, 80)
        return self.uf(nm, w0, w1)(a)

    def from_int(self, a, wi, wf):
        if isint(a):
            v = sx(a, wi)
            return f_pack({32: lambda x: np.float32(np.longdouble(x)) if abs(x) < 1 << 24 else self._i2f(x, 32), 64: float, 80: np.longdouble}[wf](v), wf)
        if self.mode == 'real':
            return self.bits(z3.fpSignedToFP(RNE, a, FPS[wf]), wf)
        a = nrm.canon(z3.simplify(a))
        if isint2(a): return self.from_int(a.as_long(), wi, wf)
        if nrm.uwidth(a) == 1:
            return ITE(EQ(EXTRACT(0, 0, a, wi), 1, 1), self.from_int(1, wi, wf), 0, wf)
        k = a.decl().kind()
        if k == K_SEXT or k == K_ZEXT and a.arg(0).size() < a.size():
            # same value, one canonical width
            s = a.arg(0)
            if k == K_SEXT and s.size() >= 32: a, wi = s, s.size()
        if wi < 64: a, wi = SEXT(a, wi, 64), 64
        return self.uf('cvt_i%d_f%d' % (wi, wf), wi, wf)(a)

    def _i2f(self, x, w):
        # correctly rounded int -> float32
        s = 1 if x < 0 else 0
        m = abs(x)
        n = m.bit_length() - 24
        if n > 0:
            q, r = m >> n, m & ((1 << n) - 1)
            h = 1 << (n - 1)
            if r > h or (r == h and q & 1): q += 1
            m = q << n
        return np.float32(-m if s else m)

    def to_int(self, a, wf, wi, rm='rtz'):
        """signed conversion; out of range gives the x86 'integer indefinite'"""
        ind = 1 << (wi - 1)
        if isint(a):
            v = f_unpack(a, wf)
            if np.isnan(v) or np.isinf(v): return ind
            t = int(np.trunc(v)) if rm == 'rtz' else int(np.rint(v))
            return mask(t, wi) if -(1 << (wi - 1)) <= t < (1 << (wi - 1)) else ind
        if self.mode == 'real':
            f = self.fp(a, wf)
            m = RTZ if rm == 'rtz' else RNE
            r = z3.fpRoundToIntegral(m, f)
            lo = z3.FPVal(-(2.0 ** (wi - 1)), FPS[wf])
            hi = z3.FPVal(2.0 ** (wi - 1), FPS[wf])
            ok = z3.And(z3.fpGEQ(r, lo), z3.fpLT(r, hi))
            return z3.If(ok, z3.fpToSBV(m, f, z3.BitVecSort(wi)), z3.BitVecVal(ind, wi))
        if a.decl().name() == 'cvt_f32_f64' and wf == 64: a, wf = a.arg(0), 32
        return self.uf('cvt_f%d_i%d_%s' % (wf, wi, rm), wf, wi)(a)

    def cmp(self, a, b, w):
        """(unordered, less, equal)"""
        if isint(a) and isint(b):
            x, y = f_unpack(a, w), f_unpack(b, w)
            un = bool(np.isnan(x) or np.isnan(y))
            return un, (not un) and bool(x < y), (not un) and bool(x == y)
        if self.mode != 'real':
            # the IEEE predicates spelled out on the bits
            x, y = bv(a, w), bv(b, w)
            if w == 80: x, y = (z3.Concat(z3.Extract(79, 64, t), z3.Extract(62, 0, t)) for t in (x, y))
            x, y = z3.simplify(x), z3.simplify(y)
            n = x.size(); mb = {32: 23, 64: 52, 79: 63}[n]
            inf = ((1 << (n - 1 - mb)) - 1) << mb
            ax, ay = z3.Extract(n - 2, 0, x), z3.Extract(n - 2, 0, y)
            un = z3.Or(z3.UGT(ax, inf), z3.UGT(ay, inf))
            zz = z3.And(ax == 0, ay == 0)
            sx_, sy_ = z3.Extract(n - 1, n - 1, x) == 1, z3.Extract(n - 1, n - 1, y) == 1
            lt = z3.And(z3.Not(un), z3.Not(zz), z3.If(sx_, z3.Or(z3.Not(sy_), z3.ULT(ay, ax)), z3.And(z3.Not(sy_), z3.ULT(ax, ay))))
            return tuple(z3.simplify(c) for c in (un, lt, z3.And(z3.Not(un), z3.Or(zz, x == y))))
        p, q = self.fp(a, w), self.fp(b, w)
        un = z3.Or(z3.fpIsNaN(p), z3.fpIsNaN(q))
        return un, z3.fpLT(p, q), z3.fpEQ(p, q)


# ------------------------------------------------------------------ flags
class Flags:
    __slots__ = ('kind', 'a', 'b', 'r', 'w', 'cf')

    def __init__(self, kind, a=None, b=None, r=None, w=0, cf=None):
        self.kind, self.a, self.b, self.r, self.w, self.cf = kind, a, b, r, w, cf

    def undef(self, what):
        raise Stop('error', 'reads undefined flag ' + what)

    def ZF(self):
        if self.kind == 'undef': self.undef('ZF')
        if self.kind == 'f': return OR(self.a, self.r)
        if self.kind == 'sub': return EQ(self.a, self.b, self.w)
        if self.kind in ('bt', 'mul'): self.undef('ZF')
        return EQ(self.r, 0, self.w)

    def SF(self):
        if self.kind in ('undef', 'bt', 'mul'): self.undef('SF')
        if self.kind == 'f': return False
        return MSB(self.r, self.w)

    def CF(self):
        k = self.kind
        if k == 'undef': self.undef('CF')
        if k == 'f': return OR(self.a, self.b)
        if k == 'sub': return ULT(self.a, self.b, self.w)
        if k == 'add': return ULT(self.r, self.a, self.w)
        if k == 'logic': return False
        if k in ('inc', 'dec'): return self.cf()
        if k == 'bt': return self.a
        if k == 'mul': return self.cf
        if k == 'sh':
            if self.cf is None: self.undef('CF')
            return self.cf
        self.undef('CF')

    def OF(self):
        k, w = self.kind, self.w
        if k == 'f' or k == 'logic': return False
        if k == 'sub': return AND(XORB(MSB(self.a, w), MSB(self.b, w)), XORB(MSB(self.r, w), MSB(self.a, w)))
        if k == 'add': return AND(NOT(XORB(MSB(self.a, w), MSB(self.b, w))), XORB(MSB(self.r, w), MSB(self.a, w)))
        if k == 'inc': return EQ(self.r, 1 << (w - 1), w)
        if k == 'dec': return EQ(self.r, (1 << (w - 1)) - 1, w)
        if k == 'mul': return self.cf
        self.undef('OF')

    def PF(self):
        if self.kind == 'f': return self.a
        if self.kind == 'undef': self.undef('PF')
        r = 0
        for i in range(8): r = bin_('xor', r, EXTRACT(i, i, self.r, self.w), 1)
        return EQ(r, 0, 1)

    def cond(self, cc):
        neg = cc in ('ne', 'nz', 'ge', 'nl', 'g', 'nle', 'ae', 'nb', 'nc', 'a', 'nbe', 'ns', 'no', 'np', 'po')
        base = {'ne': 'e', 'nz': 'e', 'z': 'e', 'ge': 'l', 'nl': 'l', 'nge': 'l', 'g': 'le', 'nle': 'le', 'ng': 'le', 'ae': 'b', 'nb': 'b', 'nc': 'b',
                'c': 'b', 'nae': 'b', 'a': 'be', 'nbe': 'be', 'na': 'be', 'ns': 's', 'no': 'o', 'np': 'p', 'po': 'p', 'pe': 'p'}.get(cc, cc)
        if base == 'e': r = self.ZF()
        elif base == 'b': r = self.CF()
        elif base == 'be':
            if self.kind == 'sub': r = NOT(ULT(self.b, self.a, self.w))
            else: r = OR(self.CF(), self.ZF())
        elif base == 'l':
            if self.kind == 'sub': r = SLT(self.a, self.b, self.w)
            elif self.kind == 'logic': r = self.SF()
            else: r = XORB(self.SF(), self.OF())
        elif base == 'le':
            if self.kind == 'sub': r = NOT(SLT(self.b, self.a, self.w))
            else: r = OR(self.ZF(), XORB(self.SF(), self.OF()))
        elif base == 's': r = self.SF()
        elif base == 'o': r = self.OF()
        elif base == 'p': r = self.PF()
        else: raise Stop('unsupported', 'condition ' + cc)
        return NOT(r) if neg else r


# ------------------------------------------------------------------ registers
REGS = {}
for _n in 'abcd':
    REGS['r%sx' % _n] = ('r%sx' % _n, 64, 0); REGS['e%sx' % _n] = ('r%sx' % _n, 32, 0); REGS['%sx' % _n] = ('r%sx' % _n, 16, 0)
    REGS['%sl' % _n] = ('r%sx' % _n, 8, 0); REGS['%sh' % _n] = ('r%sx' % _n, 8, 8)
for _n in ('si', 'di', 'bp', 'sp'):
    REGS['r' + _n] = ('r' + _n, 64, 0); REGS['e' + _n] = ('r' + _n, 32, 0); REGS[_n] = ('r' + _n, 16, 0); REGS[_n + 'l'] = ('r' + _n, 8, 0)
for _i in range(8, 16):
    REGS['r%d' % _i] = ('r%d' % _i, 64, 0); REGS['r%dd' % _i] = ('r%d' % _i, 32, 0)
    REGS['r%dw' % _i] = ('r%d' % _i, 16, 0); REGS['r%db' % _i] = ('r%d' % _i, 8, 0)
CALLEE = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
CALLER = ['rcx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11']
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}

# ------------------------------------------------------------------ program text
TOK_SYM = re.compile(r'"((?:[^"\\]|\\.)*)"|([A-Za-z_.$][A-Za-z0-9_.$]*)')
PH = re.compile('\x02([IUXOB])(\\d+)\x03')


class Insn:
    __slots__ = ('op', 'ops', 'fn', 'tu', 'txt', 'lock', 'w', 'line')


class Program:
    """several translation units in one address space"""
    CODE0, DATA0, GOT0, FSBASE, STK = 0x10000000, 0x20000000, 0x60000000, 0x70000000, 0x7fff0000

    def __init__(self):
        self.insns, self.gsym, self.tus = [], {}, []
        self.mem = {}                 # initial memory: addr -> int byte | (expr, idx)
        self.regions = []             # (lo, hi, name)
        self.dtop = self.DATA0
        self.got, self.gtop = {}, self.GOT0
        self.tls = {}
        self.ttop = self.FSBASE - 4096
        self.regions.append((self.FSBASE, self.FSBASE + 8, 'tcb'))
        for i in range(8): self.mem[self.FSBASE + i] = self.FSBASE >> 8 * i & 255
        self.strong = set()
        self.fnames = {}              # code index -> function name
        self.symsize = {}

    def alloc(self, size, align=16, name='', tls=False):
        if tls:
            a = (self.ttop + align - 1) // align * align
            self.ttop = a + size
        else:
            a = (self.dtop + 64 + align - 1) // align * align
            self.dtop = a + size
        self.regions.append((a, a + size, name))
        return a

    def define(self, name, size, align=16, init=None):
        """harness-provided object"""
        a = self.alloc(size, align, name)
        for i in range(size): self.mem[a + i] = 0
        if init is not None: self.put(a, init, size)
        self.gsym[name] = a; self.strong.add(name)
        return a

    def put(self, a, e, n):
        for i in range(n):
            self.mem[a + i] = (e >> (8 * i) & 255) if isint(e) else (e, i)

    def load_tu(self, text, terms=None, name='tu'):
        TU(self, text, terms or {}, name)

    def finish(self):
        for tu in self.tus: tu.fixups()
        for i, I in enumerate(self.insns):     # allocate every GOT slot before the run starts
            for o in I.ops:
                if o[0] in 'mi' and any(k == 's' and v[1] for _, k, v in o[1]): I.tu.eval(o[1], i)

    def addr_of(self, sym, tu=None):
        if tu is not None and sym in tu.local: return tu.local[sym]
        return self.gsym.get(sym)


class TU:
    def __init__(self, prog, text, terms, name):
        self.p, self.terms, self.name = prog, terms, name
        self.local, self.globl, self.weak = {}, set(), set()
        self.labels = {}
        self.fix = []
        self.pending = []
        self.sets = []
        self.comms = []
        self.numlab = {}
        prog.tus.append(self)
        self.parse(text)

    def err(self, m):
        raise Stop('unsupported', '%s: %s' % (self.name, m))

    # an expression: list of (sign, kind, val): kind 'n' number/z3 term, 's' symbol(with reloc)
    def expr(self, s):
        out, i, sign = [], 0, 1
        s = s.strip()
        while i < len(s):
            c = s[i]
            if c in ' \t': i += 1; continue
            if c == '+': i += 1; continue
            if c == '-': sign = -sign; i += 1; continue
            if c == '\x02':
                m = PH.match(s, i)
                t = self.terms[int(m.group(2))]
                w = t.size()
                e = z3.SignExt(64 - w, t) if m.group(1) == 'I' and w < 64 else z3.ZeroExt(64 - w, t) if w < 64 else t
                out.append((sign, 'n', norm(z3.simplify(e)))); sign = 1; i = m.end(); continue
            m = re.compile(r'0[xX][0-9a-fA-F]+|\d+[bf](?![0-9a-zA-Z])|\d+').match(s, i)
            if m:
                t = m.group(0)
                if t[-1] in 'bf' and not t.lower().startswith('0x'): out.append((sign, 's', (t, None)))
                else: out.append((sign, 'n', int(t, 16) if t[:2].lower() == '0x' else int(t, 8) if t[0] == '0' and len(t) > 1 else int(t)))
                sign = 1; i = m.end(); continue
            m = TOK_SYM.match(s, i)
            if not m: self.err('bad expression %r' % s)
            nm = m.group(1) if m.group(1) is not None else m.group(2)
            i = m.end()
            rel = None
            if i < len(s) and s[i] == '@':
                m = re.compile(r'@([A-Za-z]+)').match(s, i); rel = m.group(1).upper(); i = m.end()
            out.append((sign, 's', (nm, rel))); sign = 1
        return out

    def splitops(self, s):
        out, d, q, cur = [], 0, False, ''
        for c in s:
            if c == '"': q = not q
            if not q:
                if c == '(': d += 1
                elif c == ')': d -= 1
                elif c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
            cur += c
        if cur.strip(): out.append(cur.strip())
        return out

    def operand(self, s):
        star = s.startswith('*')
        if star: s = s[1:]
        if s.startswith('%'):
            if s[1:] in REGS: return ('r',) + REGS[s[1:]]
            m = re.match(r'%xmm(\d+)$', s)
            if m: return ('x', int(m.group(1)))
            m = re.match(r'%st(?:\((\d)\))?$', s)
            if m: return ('st', int(m.group(1) or 0))
            m = re.match(r'%(es|ds):(.*)$', s)
            if m: return self.operand(m.group(2))
            m = re.match(r'%(fs|gs):(.*)$', s)
            if m:
                o = self.operand(m.group(2))
                return ('m', o[1], o[2], o[3], o[4], m.group(1))
            self.err('register ' + s)
        if s.startswith('$'): return ('i', self.expr(s[1:]))
        m = re.match(r'^(.*)\(([^()]*)\)$', s, re.S)
        if m:
            parts = [x.strip() for x in m.group(2).split(',')]
            base = parts[0][1:] if parts[0] else None
            idx = parts[1][1:] if len(parts) > 1 and parts[1] else None
            sc = int(parts[2]) if len(parts) > 2 and parts[2] else 1
            return ('m', self.expr(m.group(1)), base, idx, sc, None)
        return ('m', self.expr(s), None, None, 1, None)      # also a branch target

    def parse(self, text):
        p = self.p
        cur_sec = '.text'
        # data chunk being built: list of items; assigned an address lazily per label
        self.secs = {}
        lines = []
        text = text.replace('0x\x02X', '\x02X')
        for ln in text.split('\n'):
            lines.append(ln)
        code_label = []
        self.fn = None
        types = {}
        for self.lno, ln in enumerate(lines):
            for st in self.statements(ln):
                m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([A-Za-z_.$][\w.$]*|\d+)):\s*(.*)$', st, re.S)
                while m:
                    nm = m.group(1) if m.group(1) is not None else m.group(2)
                    self.label(nm, cur_sec)
                    st = m.group(3).strip()
                    m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([A-Za-z_.$][\w.$]*|\d+)):\s*(.*)$', st, re.S)
                if not st: continue
                if st[0] == '.':
                    d = st.split(None, 1)
                    a = d[1] if len(d) > 1 else ''
                    d = d[0]
                    if d == '.text': cur_sec = '.text'
                    elif d == '.data': cur_sec = '.data'
                    elif d == '.bss': cur_sec = '.bss'
                    elif d == '.section': cur_sec = self.splitops(a)[0].strip('"')
                    else: self.directive(d, a, cur_sec)
                    continue
                if not self.is_code(cur_sec): self.err('instruction in ' + cur_sec)
                self.insn(st)
        self.layout()

    def statements(self, ln):
        out, cur, q = [], '', False
        i = 0
        while i < len(ln):
            c = ln[i]
            if c == '\\' and q: cur += ln[i:i + 2]; i += 2; continue
            if c == '"': q = not q
            if not q:
                if c == '#': break
                if c == ';': out.append(cur.strip()); cur = ''; i += 1; continue
            cur += c; i += 1
        if cur.strip(): out.append(cur.strip())
        return out

    def is_code(self, sec): return sec.startswith('.text')

    def label(self, nm, sec):
        if self.is_code(sec):
            idx = len(self.p.insns)
            if nm.isdigit(): self.numlab.setdefault(nm, []).append(idx); return
            self.local[nm] = self.p.CODE0 + 16 * idx
            self.p.fnames[idx] = nm if not nm.startswith('.L') else self.p.fnames.get(idx, nm)
        else:
            self.secs.setdefault(sec, []).append(('label', nm))

    def directive(self, d, a, sec):
        if d in ('.globl', '.global'): self.globl.add(self.symname(a)); return
        if d == '.weak': self.weak.add(self.symname(a)); self.globl.add(self.symname(a)); return
        if d in ('.local', '.type', '.ident', '.file', '.loc', '.addrsig', '.addrsig_sym', '.hidden', '.internal', '.protected', '.cfi_startproc', '.cfi_endproc', '.symver') or d.startswith('.cfi'): 
            return
        if d == '.size':
            o = self.splitops(a)
            if re.match(r'\d+$', o[1].strip()): self.p.symsize[self.symname(o[0])] = int(o[1])
            return
        if d in ('.comm', '.lcomm'):
            o = self.splitops(a)
            self.comms.append((self.symname(o[0]), int(o[1]), int(o[2]) if len(o) > 2 else 1)); return
        if d in ('.set', '.equ'):
            o = self.splitops(a); self.sets.append((self.symname(o[0]), o[1])); return
        if self.is_code(sec):
            if d in ('.align', '.p2align', '.balign') or d == '.value' and a.strip() == '0x6666': return          # (operand size prefixes that pad a TLS call)
            self.err('data directive %s in text' % d)
        L = self.secs.setdefault(sec, [])
        if d in ('.align', '.balign'): L.append(('align', int(self.splitops(a)[0]))); return
        if d == '.p2align': L.append(('align', 1 << int(self.splitops(a)[0]))); return
        if d in ('.zero', '.skip', '.space', '.fill'): L.append(('zero', int(self.splitops(a)[0], 0))); return
        n = {'.byte': 1, '.word': 2, '.short': 2, '.value': 2, '.2byte': 2, '.hword': 2, '.int': 4, '.long': 4, '.4byte': 4, '.quad': 8, '.8byte': 8}.get(d)
        if n:
            for o in self.splitops(a): L.append(('val', n, self.expr(o)))
            return
        if d in ('.ascii', '.asciz', '.string'):
            b = self.strlit(a)
            if d != '.ascii': b.append(0)
            L.append(('bytes', b)); return
        self.err('directive ' + d)

    def symname(self, s):
        s = s.strip()
        return s[1:-1] if s.startswith('"') else s

    def strlit(self, a):
        a = a.strip(); out = []; i = 1
        while i < len(a) and a[i] != '"':
            c = a[i]
            if c == '\x02':
                m = PH.match(a, i); out.append((self.terms[int(m.group(2))], 0)); i = m.end(); continue
            if c == '\\':
                i += 1; c = a[i]
                if c in '01234567':
                    m = re.compile('[0-7]{1,3}').match(a, i); out.append(int(m.group(0), 8) & 255); i = m.end(); continue
                out.append({'n': 10, 't': 9, 'r': 13, 'f': 12, 'b': 8, 'a': 7, 'v': 11}.get(c, ord(c))); i += 1; continue
            out += list(c.encode('utf-8') if ord(c) > 255 else [ord(c)]); i += 1
        return out

    def layout(self):
        p = self.p
        for sec, L in self.secs.items():
            if sec.startswith('.note') or sec.startswith('.debug') or sec.startswith('.llvm') or sec == '.comment' or sec.startswith('.eh_frame'): continue
            tls = sec.startswith('.tdata') or sec.startswith('.tbss')
            # size pass; start aligned to 64
            off, offs = 0, []
            for it in L:
                k = it[0]
                if k == 'align': off = (off + it[1] - 1) // it[1] * it[1]
                offs.append(off)
                if k == 'zero': off += it[1]
                elif k == 'val': off += it[1]
                elif k == 'bytes': off += len(it[1])
            base = p.alloc(off, 64, self.name + ':' + sec, tls)
            for i in range(off): p.mem[base + i] = 0
            for it, o in zip(L, offs):
                if it[0] == 'label':
                    if it[1].isdigit(): continue
                    self.local[it[1]] = base + o
                    if tls: p.tls[it[1]] = base + o
                elif it[0] == 'val': self.fix.append((base + o, it[1], it[2]))
                elif it[0] == 'bytes':
                    for i, b in enumerate(it[1]): p.mem[base + o + i] = b
        for nm, sz, al in self.comms:
            if nm not in p.gsym:
                a = p.alloc(sz, max(al, 1), nm)
                for i in range(sz): p.mem[a + i] = 0
                p.gsym[nm] = a
        for nm in self.globl:
            if nm in self.local:
                if nm in p.gsym and (nm in self.weak or nm in p.strong):
                    if nm not in self.weak and nm in p.strong: self.err('duplicate symbol ' + nm)
                    self.local[nm] = p.gsym[nm]
                    continue
                p.gsym[nm] = self.local[nm]
                if nm not in self.weak: p.strong.add(nm)

    def fixups(self):
        for nm, e in self.sets:
            ex = self.expr(e)
            v = self.eval(ex)
            self.local[nm] = v
            if nm in self.globl: self.p.gsym[nm] = v
        for a, n, e in self.fix: self.p.put(a, self.trunc(self.eval(e), n), n)
        # a strong definition elsewhere replaces a weak local one
        for nm in self.globl:
            if nm in self.p.gsym: self.local[nm] = self.p.gsym[nm]

    def trunc(self, v, n):
        if isint(v): return mask(v, n * 8)
        return EXTRACT(n * 8 - 1, 0, v, 64)

    def symaddr(self, nm, idx=None):
        m = re.match(r'^(\d+)([bf])$', nm)
        if m:
            L = self.numlab.get(m.group(1), [])
            if m.group(2) == 'b': c = [x for x in L if x <= idx]; t = c[-1] if c else None
            else: c = [x for x in L if x > idx]; t = c[0] if c else None
            if t is None: self.err('label ' + nm)
            return self.p.CODE0 + 16 * t
        a = self.p.addr_of(nm, self)
        if a is None and nm in self.weak: return 0
        if a is None:
            # an undefined symbol: an external function
            a = self.p.CODE0 - 0x100000 + 16 * (len([k for k in self.p.gsym if self.p.gsym[k] < self.p.CODE0]) + 1)
            self.p.gsym[nm] = a
        return a

    def eval(self, ex, idx=None):
        r = 0
        for sign, k, v in ex:
            if k == 's':
                nm, rel = v
                if rel in ('GOTPCREL', 'GOT', 'GOTTPOFF', 'TLSGD', 'TLSLD'):
                    key = (nm, rel, self.name if nm in self.local and nm not in self.globl else None)
                    if key not in self.p.got:
                        a = self.p.gtop; self.p.gtop += 16
                        self.p.got[key] = a
                        self.p.regions.append((a, a + 16, 'got'))
                        t = self.symaddr(nm)
                        self.p.put(a, mask(t - self.p.FSBASE, 64) if rel == 'GOTTPOFF' else self.p.FSBASE if rel == 'TLSLD' else t, 8)
                    v = self.p.got[key]
                elif rel in ('TPOFF', 'DTPOFF'): v = mask(self.symaddr(nm) - self.p.FSBASE, 64)
                else: v = self.symaddr(nm, idx)
            if sign < 0: v = mask(-v, 64) if isint(v) else -v
            r = bin_('add', mask(r, 64) if isint(r) else r, mask(v, 64) if isint(v) else v, 64)
        return r

    def insn(self, st):
        I = Insn()
        I.txt, I.tu, I.lock, I.line = st, self, False, self.lno
        parts = st.split(None, 1)
        op = parts[0]
        while op in ('lock', 'rep', 'data16', 'rex64', 'notrack', 'repz'):
            if op == 'lock': I.lock = True
            if op == 'rep':
                if len(parts) < 2: self.pend_rep = True; return
                parts = parts[1].split(None, 1); op = 'rep ' + parts[0]; break
            if len(parts) < 2: return
            parts = parts[1].split(None, 1); op = parts[0]
        if getattr(self, 'pend_rep', False): op = 'rep ' + op; self.pend_rep = False
        I.op = op
        I.ops = [self.operand(o) for o in self.splitops(parts[1])] if len(parts) > 1 else []
        I.fn = None
        self.p.insns.append(I)


# ------------------------------------------------------------------ machine state
class State:
    __slots__ = ('r', 'x', 'fl', 'm', 'pc', 'cond', 'cs', 'st', 'cw', 'steps', 'model', 'tr', 'npc', 'aux', 'viol')

    def copy(self):
        s = State()
        s.r = dict(self.r); s.x = list(self.x); s.fl = self.fl; s.m = dict(self.m); s.pc = self.pc
        s.cond = list(self.cond); s.cs = list(self.cs); s.st = list(self.st); s.cw = self.cw; s.steps = self.steps
        s.model = self.model; s.tr = self.tr; s.aux = dict(self.aux); s.viol = list(self.viol)
        return s


class Fork(Exception):
    pass


class Machine:
    def __init__(self, prog, fpmode='uf', maxsteps=20000, maxpaths=4000, timeout=300, hooks=None, solver_ms=20000):
        self.p = prog
        prog.finish()
        self.fpu = FPU(fpmode)
        self.maxsteps, self.maxpaths, self.deadline = maxsteps, maxpaths, time.time() + timeout
        self.q, self.qt = 0, 0.0
        self.hooks = hooks or {}
        self.ext = {'memcpy': self.x_memcpy, 'memmove': self.x_memcpy, 'memset': self.x_memset, '__tls_get_addr': self.x_tls, '__emutls_get_address': self.x_emutls, 'abort': self.x_abort}
        self.ext.update(self.hooks.get('ext', {}))
        self.solver_ms = solver_ms
        self.noisy = False
        self.cur = None
        self.unknown = 0
        self.executed = set()

    # -- solver
    def sat(self, conds, want_model=False):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', min(self.solver_ms, 3000))
        s.add(*[c for c in conds if not isinstance(c, bool)])
        if any(c is False for c in conds): return (False, None)
        r = s.check()
        self.q += 1; self.qt += time.time() - t
        if r == z3.unsat: return (False, None)
        if r == z3.unknown: self.unknown += 1; return (True, None)
        return (True, s.model())

    # -- memory
    def region(self, a, n):
        p = self.p
        if p.STK - 0x400000 <= a and a + n <= p.STK + 256: return True
        for lo, hi, nm in p.regions:
            if lo <= a and a + n <= hi: return True
        return False

    def ld(self, s, a, n):
        if not isint(a): return self.ld_sym(s, a, n)
        if not self.region(a, n): raise Stop('error', 'read of %d bytes at invalid address 0x%x' % (n, a))
        h = self.hooks.get('load')
        if h:
            v = h(self, s, a, n)
            if v is not None: return v
        m = s.m
        parts, i = [], 0
        while i < n:
            c = m.get(a + i)
            if c is None:
                c = (fresh('uninit_%x' % (a + i), 8), 0); m[a + i] = c
            if isint(c) and not isinstance(c, tuple):
                parts.append((c, 8)); i += 1; continue
            e, k = c
            j = 1
            ew = e.size() // 8
            while i + j < n and k + j < ew:
                c2 = m.get(a + i + j)
                if not isinstance(c2, tuple) or c2[1] != k + j or not c2[0] is e: break
                j += 1
            parts.append((EXTRACT((k + j) * 8 - 1, k * 8, e, ew * 8), j * 8)); i += j
        parts.reverse()
        return CONCAT(parts)

    def sto(self, s, a, v, n):
        if not isint(a): return self.sto_sym(s, a, v, n)
        if not self.region(a, n): raise Stop('error', 'write of %d bytes at invalid address 0x%x' % (n, a))
        sp = s.r['rsp']
        if self.p.STK - 0x400000 <= a < self.p.STK + 256 and isint(sp) and a < sp - 128:
            raise Stop('error', 'write below the red zone (0x%x, rsp 0x%x)' % (a, sp))
        h = self.hooks.get('store')
        if h and h(self, s, a, v, n): return
        m = s.m
        if isint(v):
            for i in range(n): m[a + i] = v >> (8 * i) & 255
        else:
            for i in range(n): m[a + i] = (v, i)

    def addr_values(self, s, a, limit=200):
        a = SIMP(a)
        if isint(a): return [a]
        out, conds = [], list(s.cond)
        sol = z3.Solver(); sol.set('timeout', self.solver_ms)
        sol.add(*[c for c in conds if not isinstance(c, bool)])
        t = time.time()
        while len(out) < limit:
            r = sol.check(); self.q += 1
            if r == z3.unsat: break
            if r == z3.unknown: raise Stop('unsupported', 'unknown while resolving an address')
            v = sol.model().eval(a, model_completion=True).as_long()
            out.append(v); sol.add(a != v)
        self.qt += time.time() - t
        if len(out) >= limit: raise Stop('unsupported', 'address with too many values')
        return sorted(out)

    def ld_sym(self, s, a, n):
        vs = self.addr_values(s, a)
        r = None
        for v in vs:
            e = self.ld(s, v, n)
            r = e if r is None else ITE(a == v, e, r, n * 8)
        return r

    def sto_sym(self, s, a, v, n):
        vs = self.addr_values(s, a)
        if len(vs) == 1: return self.sto(s, vs[0], v, n)
        old = [(x, self.ld(s, x, n)) for x in vs]
        # overlapping cells would need care: require distinct, non-overlapping targets
        for i in range(len(vs) - 1):
            if vs[i + 1] - vs[i] < n:
                self.choose(s, a, vs)      # fork over the values
        for x, o in old: self.sto(s, x, ITE(a == x, v, o, n * 8), n)

    def choose(self, s, a, vs):
        """fork so that a has one concrete value; re-executes the instruction"""
        for v in vs[1:]:
            t = self.snap.copy(); t.cond.append(a == v); t.model = None
            self.work.append(t)
        t = self.snap.copy(); t.cond.append(a == vs[0]); t.model = None
        self.work.append(t)
        raise Fork()

    def need_int(self, s, a):
        """concretise; when several values are feasible, fork"""
        a = SIMP(a)
        if isint(a): return a
        vs = self.addr_values(s, a)
        if len(vs) == 1: return vs[0]
        self.choose(s, a, vs)

    # -- operands
    def ea(self, s, o, I):
        _, ex, base, idx, sc, seg = o
        d = self.evalx(ex, I)
        if base is not None and base != 'rip':
            b = self.rd_reg(s, base)
            d = bin_('add', b, d, 64)
        if idx is not None:
            v = self.rd_reg(s, idx)
            if sc != 1: v = bin_('mul', v, sc, 64)
            d = bin_('add', d, v, 64)
        if seg == 'fs': d = bin_('add', d, self.p.FSBASE, 64)
        return SIMP(d) if not isint(d) else d

    def evalx(self, ex, I):
        if len(ex) == 0: return 0
        if len(ex) == 1 and ex[0][1] == 'n' and isint(ex[0][2]): return mask(ex[0][0] * ex[0][2], 64)
        return I.tu.eval(ex, self.curidx)

    def rd_reg(self, s, name):
        r, w, off = REGS[name]
        return s.r[r] if w == 64 else EXTRACT(off + w - 1, off, s.r[r], 64)

    def get(self, s, o, w, I):
        k = o[0]
        if k == 'r':
            return EXTRACT(o[3] + w - 1, o[3], s.r[o[1]], 64) if w != 64 else s.r[o[1]]
        if k == 'i':
            v = self.evalx(o[1], I)
            return EXTRACT(w - 1, 0, v, 64)
        if k == 'm':
            return self.ld(s, self.ea(s, o, I), w // 8)
        if k == 'x': return EXTRACT(w - 1, 0, s.x[o[1]], 128)
        raise Stop('unsupported', 'operand in ' + I.txt)

    def put(self, s, o, v, w, I):
        k = o[0]
        if k == 'r':
            r = o[1]
            if w == 64: s.r[r] = v
            elif w == 32: s.r[r] = ZEXT(v, 32, 64)
            else:
                old, off = s.r[r], o[3]
                parts = [(EXTRACT(63, off + w, old, 64), 64 - off - w), (v, w)]
                if off: parts.append((EXTRACT(off - 1, 0, old, 64), off))
                s.r[r] = CONCAT(parts)
        elif k == 'm': self.sto(s, self.ea(s, o, I), v, w // 8)
        elif k == 'x':
            if w == 128: s.x[o[1]] = v
            else: s.x[o[1]] = CONCAT([(EXTRACT(127, w, s.x[o[1]], 128), 128 - w), (v, w)])
        else: raise Stop('unsupported', 'destination in ' + I.txt)
        if k == 'r' and o[1] == 'rsp' and not isint(s.r['rsp']):
            s.r['rsp'] = self.need_int(s, s.r['rsp'])

    def opsize(self, I, suffix):
        if suffix: return SUF[suffix]
        for o in reversed(I.ops):
            if o[0] == 'r': return o[2]
        raise Stop('unsupported', 'operand size of ' + I.txt)

    # -- run
    def start(self, entry):
        s = State()
        s.r = {n: z3.BitVec('init_' + n, 64) for n in ['rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'] + CALLEE}
        s.r['rsp'] = self.p.STK - 4096
        s.x = [z3.BitVec('init_xmm%d' % i, 128) for i in range(16)]
        s.fl = Flags('undef'); s.m = dict(self.p.mem); s.cond = []; s.cs = []; s.st = []; s.cw = 0x37f; s.steps = 0
        s.model = None; s.tr = []; s.aux = {}; s.viol = []
        a = self.p.gsym.get(entry)
        if a is None: raise Stop('unsupported', 'no symbol ' + entry)
        s.pc = (a - self.p.CODE0) // 16
        s.r['rsp'] -= 8
        self.sto(s, s.r['rsp'], 0xdead0000, 8)
        s.cs.append((0xdead0000, s.r['rsp'] + 8, [s.r[n] for n in CALLEE], s.cw, entry))
        return s

    def run(self, entry, pre=None, regs=None):
        """explore all paths: list of (kind, msg, state)"""
        s0 = self.start(entry)
        s0.r.update(regs or {})
        if pre: s0.cond += pre
        self.work = [s0]
        done = []
        while self.work:
            if len(done) > self.maxpaths or time.time() > self.deadline:
                done.append(('limit', 'path or time budget', self.work[-1])); break
            s = self.work.pop()
            try:
                self.path(s)
            except Stop as e:
                done.append((e.kind, e.msg, s))
            except Fork:
                pass
        return done

    def path(self, s):
        insns, n = self.p.insns, len(self.p.insns)
        while True:
            s.steps += 1
            if s.steps > self.maxsteps: raise Stop('limit', 'step budget')
            if s.pc < 0 or s.pc >= n: raise Stop('error', 'control leaves the program')
            I = insns[s.pc]
            self.curidx = s.pc
            f = I.fn
            if f is None: f = I.fn = self.bind(I)
            self.snap = s.copy() if getattr(f, 'mayfork', True) and self.forky(I) else None
            s.pc += 1
            try:
                f(self, s, I)
            except Stop as e:
                if e.kind in ('error', 'unsupported') and '[' not in e.msg: e.msg += ' [%s: %s]' % (self.where(s), I.txt)
                raise

    def forky(self, I):
        # instructions that may need concretisation (re-executed from a snapshot)
        return any(o[0] == 'm' and (o[3] is not None or o[2] not in (None, 'rip', 'rbp', 'rsp')) or o[0] == 'r' and o[1] == 'rsp' for o in I.ops) or I.op in ('leave', 'ret') or (I.ops and I.op[:1] in 'jc' and I.txt.find('*') > 0) or I.op.startswith('rep') or I.op.startswith('call')

    def where(self, s):
        i = s.pc - 1
        while i >= 0 and (i not in self.p.fnames or self.p.fnames[i].startswith('.L')): i -= 1
        return self.p.fnames.get(i, '?')

    def branch(self, s, c, target):
        c = SIMP(c)
        if isint(c):
            if c: s.pc = target
            return
        nc = z3.Not(c)
        ft = ff = None
        if s.model is not None:
            v = s.model.eval(c, model_completion=True)
            if z3.is_true(v): ft = s.model
            elif z3.is_false(v): ff = s.model
        if ft is None:
            ok, m = self.sat(s.cond + [c])
            ft = m if ok and m is not None else (True if ok else False)
        if ff is None:
            ok, m = self.sat(s.cond + [nc])
            ff = m if ok and m is not None else (True if ok else False)
        if ft is False and ff is False: raise Fork()
        if ft is not False and ff is not False:
            t = s.copy()
            t.cond.append(c); t.pc = target; t.model = ft if ft is not True else None
            self.work.append(t)
            s.cond.append(nc); s.model = ff if ff is not True else None
            return
        if ft is not False: s.pc = target

    def target(self, s, I):
        o = I.ops[0]
        if I.txt.find('*') >= 0:
            w = 64
            a = self.get(s, o, 64, I)
            a = self.need_int(s, a)
        else:
            a = self.evalx(o[1], I)
        return a

    # -- instruction binding
    def bind(self, I):
        op = I.op
        f = TABLE.get(op)
        if f: return f
        m = re.match(r'^j([a-z]+)$', op)
        if m and op != 'jmp':
            cc = m.group(1)
            return lambda M, s, I: M.branch(s, s.fl.cond(cc), (M.evalx(I.ops[0][1], I) - M.p.CODE0) // 16)
        m = re.match(r'^set([a-z]+)$', op)
        if m:
            cc = m.group(1)
            return lambda M, s, I: M.put(s, I.ops[0], b2v(s.fl.cond(cc), 8), 8, I)
        m = re.match(r'^cmov([a-z]+?)([wlq]?)$', op)
        if m and op.startswith('cmov'):
            cc, sf = op[4:], None
            if cc not in CCS and cc[-1] in 'wlq': cc, sf = cc[:-1], cc[-1]
            def cm(M, s, I, cc=cc, sf=sf):
                w = M.opsize(I, sf)
                c = s.fl.cond(cc)
                v = M.get(s, I.ops[0], w, I)
                M.put(s, I.ops[1], ITE(c, v, M.get(s, I.ops[1], w, I), w), w, I)
            return cm
        m = re.match(r'^mov([sz])([bwl])([wlq])$', op)
        if m:
            z, w0, w1 = m.group(1) == 'z', SUF[m.group(2)], SUF[m.group(3)]
            return lambda M, s, I: M.put(s, I.ops[1], (ZEXT if z else SEXT)(M.get(s, I.ops[0], w0, I), w0, w1), w1, I)
        m = re.match(r'^mov([sz])([bw])$', op)
        if m:
            z, w0 = m.group(1) == 'z', SUF[m.group(2)]
            def mv(M, s, I):
                w1 = I.ops[1][2]
                M.put(s, I.ops[1], (ZEXT if z else SEXT)(M.get(s, I.ops[0], w0, I), w0, w1), w1, I)
            return mv
        if op[-1] in 'bwlq' and op[:-1] in BASE:
            g, sf = BASE[op[:-1]], op[-1]
            return lambda M, s, I: g(M, s, I, M.opsize(I, sf))
        if op in BASE:
            g = BASE[op]
            return lambda M, s, I: g(M, s, I, M.opsize(I, None))
        raise Stop('unsupported', 'instruction ' + I.txt)

    # -- calls
    def do_call(self, s, a):
        sp = s.r['rsp']
        if sp % 16: raise Stop('error', 'stack not 16-byte aligned at call (rsp %% 16 = %d)' % (sp % 16))
        if s.st: raise Stop('error', 'x87 stack not empty at call')
        if s.cw != 0x37f: raise Stop('error', 'x87 control word changed at call')
        name = None
        if a < self.p.CODE0 or a not in self._codeaddr():
            for k, v in self.p.gsym.items():
                if v == a: name = k
            if name in self.ext:
                self.ext[name](s)
                self.havoc_caller(s)
                return
            raise Stop('unsupported' if name else 'error', 'call to undefined %s (0x%x)' % (name, a))
        ret = self.p.CODE0 + 16 * s.pc
        s.r['rsp'] = sp - 8
        self.sto(s, sp - 8, ret, 8)
        idx = (a - self.p.CODE0) // 16
        nm = self.p.fnames.get(idx, '?')
        self.executed.add(nm)
        s.cs.append((ret, sp, [s.r[n] for n in CALLEE], s.cw, nm))
        if len(s.cs) > 60: raise Stop('limit', 'call depth')
        s.pc = idx
        s.fl = Flags('undef')
        h = self.hooks.get('call')
        if h: h(self, s, nm)

    def _codeaddr(self):
        if not hasattr(self, '_ca'): self._ca = range(self.p.CODE0, self.p.CODE0 + 16 * len(self.p.insns), 16)
        return self._ca

    def havoc_caller(self, s):
        for n in CALLER: s.r[n] = fresh('clob_' + n, 64)
        for i in range(2, 16): s.x[i] = fresh('clob_xmm%d' % i, 128)
        s.fl = Flags('undef')
        sp, lo = s.r['rsp'], self.p.STK - 0x400000
        for a in [a for a in s.m if lo <= a < sp]: del s.m[a]

    def do_ret(self, s):
        if not s.cs: raise Stop('error', 'ret without call')
        ret, sp, saved, cw, nm = s.cs.pop()
        if not isint(s.r['rsp']): raise Stop('error', 'symbolic rsp at ret')
        if s.r['rsp'] != sp - 8: raise Stop('error', 'rsp not restored at ret of %s (off by %d)' % (nm, s.r['rsp'] - sp + 8))
        v = SIMP(self.ld(s, sp - 8, 8))
        if v != ret if isint(v) else True: raise Stop('error', 'return address overwritten in ' + nm)
        for n, old in zip(CALLEE, saved):
            new = s.r[n]
            if isint(new) and isint(old):
                if new != old: raise Stop('error', 'callee-saved %s not preserved by %s' % (n, nm))
            elif isint(new) or isint(old) or not new.eq(old):
                ok, m = self.sat(s.cond + [bv(new, 64) != bv(old, 64)])
                if ok: raise Stop('error', 'callee-saved %s not preserved by %s' % (n, nm))
        if s.cw != cw: raise Stop('error', 'x87 control word not restored by ' + nm)
        if len(s.st) > 2: raise Stop('error', 'x87 stack deeper than 2 at ret of ' + nm)
        s.r['rsp'] = sp
        self.havoc_caller(s)
        if not s.cs: raise Stop('ret')
        s.pc = (ret - self.p.CODE0) // 16

    def x_memcpy(self, s):
        d, a, n = (self.need_int(s, s.r[k]) for k in ('rdi', 'rsi', 'rdx'))
        vs = [self.ld(s, a + i, 1) for i in range(n)]
        for i, v in enumerate(vs): self.sto(s, d + i, v, 1)
        s.r['rax'] = d

    def x_memset(self, s):
        d, n = self.need_int(s, s.r['rdi']), self.need_int(s, s.r['rdx'])
        c = EXTRACT(7, 0, s.r['rsi'], 64)
        for i in range(n): self.sto(s, d + i, c, 1)
        s.r['rax'] = d

    def x_tls(self, s):
        s.r['rax'] = self.ld(s, self.need_int(s, s.r['rdi']), 8)
        s.r['rdx'] = fresh('clob_rdx', 64)

    def x_emutls(self, s):
        """libgcc's: one zeroed or initialized copy per control object"""
        c = self.need_int(s, s.r['rdi'])
        reg = self.__dict__.setdefault('emutls', {})
        size, align, tmpl = [self.need_int(s, self.ld(s, c + k, 8)) for k in (0, 8, 24)]
        if c not in reg: reg[c] = self.p.alloc(size, max(16, align), 'emutls')
        if ('emutls', c) not in s.aux:
            s.aux[('emutls', c)] = True
            for i in range(size): s.m[reg[c] + i] = s.m.get(tmpl + i, 0) if tmpl else 0
        s.r['rax'] = reg[c]

    def x_abort(self, s): raise Stop('trap', 'abort')

    def final(self, s, name, n):
        a = self.p.gsym[name]
        return self.ld(s, a, n)


CCS = set('e ne z nz l ge nge nl le g ng nle b ae c nc nae nb be a na nbe s ns o no p np po pe'.split())


def b2v(c, w):
    if isinstance(c, bool): return int(c)
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


# ------------------------------------------------------------------ instructions
TABLE, BASE = {}, {}


def T(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d


def B(*names):
    def d(f):
        for n in names: BASE[n] = f
        return f
    return d


@B('mov')
def i_mov(M, s, I, w):
    a, b = I.ops
    if a[0] == 'x' or b[0] == 'x':
        if b[0] == 'x':
            v = M.get(s, a, w, I); s.x[b[1]] = ZEXT(v, w, 128)
        else: M.put(s, b, EXTRACT(w - 1, 0, s.x[a[1]], 128), w, I)
        return
    M.put(s, b, M.get(s, a, w, I), w, I)


@T('movabs', 'movabsq')
def i_movabs(M, s, I): M.put(s, I.ops[1], M.get(s, I.ops[0], 64, I), 64, I)


@T('movd')
def i_movd(M, s, I):
    a, b = I.ops
    if b[0] == 'x': s.x[b[1]] = ZEXT(M.get(s, a, a[2] if a[0] == 'r' else 32, I), 32 if a[0] != 'r' else a[2], 128)
    else:
        w = b[2] if b[0] == 'r' else 32
        M.put(s, b, EXTRACT(w - 1, 0, s.x[a[1]], 128), w, I)


@T('movq')
def i_movq(M, s, I):
    a, b = I.ops
    if b[0] == 'x': s.x[b[1]] = ZEXT(M.get(s, a, 64, I), 64, 128)
    else: M.put(s, b, M.get(s, a, 64, I), 64, I)


def ss_move(w):
    def f(M, s, I):
        if not I.ops: raise Stop('unsupported', I.txt)
        a, b = I.ops
        if a[0] == 'm': s.x[b[1]] = ZEXT(M.get(s, a, w, I), w, 128)
        else: M.put(s, b, M.get(s, a, w, I), w, I)
    return f


TABLE['movss'] = ss_move(32)
TABLE['movsd'] = ss_move(64)


def half_move(high):
    def f(M, s, I):
        a, b = I.ops
        if a[0] == 'm':
            old, v = s.x[b[1]], M.get(s, a, 64, I)
            s.x[b[1]] = CONCAT([(v, 64), (EXTRACT(63, 0, old, 128), 64)]) if high else CONCAT([(EXTRACT(127, 64, old, 128), 64), (v, 64)])
        else: M.put(s, b, EXTRACT(127, 64, s.x[a[1]], 128) if high else EXTRACT(63, 0, s.x[a[1]], 128), 64, I)
    return f


TABLE['movlps'] = TABLE['movlpd'] = half_move(False)
TABLE['movhps'] = TABLE['movhpd'] = half_move(True)


def mv128(al):
    def f(M, s, I):
        a, b = I.ops
        for o in (a, b):
            if al and o[0] == 'm':
                e = M.ea(s, o, I)
                if isint(e) and e % 16: raise Stop('error', 'misaligned %s' % I.op)
        M.put(s, b, M.get(s, a, 128, I), 128, I)
    return f


for _n in ('movaps', 'movapd', 'movdqa'): TABLE[_n] = mv128(True)
for _n in ('movups', 'movupd', 'movdqu'): TABLE[_n] = mv128(False)


@B('lea')
def i_lea(M, s, I, w):
    v = M.ea(s, I.ops[0], I)
    M.put(s, I.ops[1], EXTRACT(w - 1, 0, v, 64), w, I)


def arith(op):
    def f(M, s, I, w):
        a, d = I.ops
        if op in ('xor', 'sub') and a[0] == 'r' and a == d:
            M.put(s, d, 0, w, I); s.fl = Flags('logic', r=0, w=w) if op == 'xor' else Flags('sub', 0, 0, 0, w); return
        y = M.get(s, a, w, I); x = M.get(s, d, w, I)
        r = bin_(op, x, y, w)
        s_fl = Flags(op, x, y, r, w) if op in ('add', 'sub') else Flags('logic', r=r, w=w)
        M.put(s, d, r, w, I)
        s.fl = s_fl
    return f


for _n in ('add', 'sub', 'and', 'or', 'xor'): BASE[_n] = arith(_n)


@B('adc')
def i_adc(M, s, I, w):
    y = M.get(s, I.ops[0], w, I); x = M.get(s, I.ops[1], w, I); c = b2v(s.fl.CF(), w)
    r = bin_('add', bin_('add', x, y, w), c, w)
    wide = bin_('add', bin_('add', ZEXT(x, w, w + 1), ZEXT(y, w, w + 1), w + 1), ZEXT(c, w, w + 1), w + 1)
    M.put(s, I.ops[1], r, w, I); s.fl = Flags('sh', r=r, w=w, cf=MSB(wide, w + 1))


@B('sbb')
def i_sbb(M, s, I, w):
    y = M.get(s, I.ops[0], w, I); x = M.get(s, I.ops[1], w, I); c = b2v(s.fl.CF(), w)
    r = bin_('sub', bin_('sub', x, y, w), c, w)
    b2 = bin_('add', ZEXT(y, w, w + 1), ZEXT(c, w, w + 1), w + 1)
    cf = ULT(ZEXT(x, w, w + 1), b2, w + 1)
    M.put(s, I.ops[1], r, w, I); s.fl = Flags('sh', r=r, w=w, cf=cf)


@B('cmp')
def i_cmp(M, s, I, w):
    y = M.get(s, I.ops[0], w, I); x = M.get(s, I.ops[1], w, I)
    s.fl = Flags('sub', x, y, bin_('sub', x, y, w), w)


@B('test')
def i_test(M, s, I, w):
    y = M.get(s, I.ops[0], w, I); x = M.get(s, I.ops[1], w, I)
    s.fl = Flags('logic', r=bin_('and', x, y, w), w=w)


@B('inc')
def i_inc(M, s, I, w):
    x = M.get(s, I.ops[0], w, I); r = bin_('add', x, 1, w); old = s.fl
    M.put(s, I.ops[0], r, w, I); s.fl = Flags('inc', r=r, w=w, cf=old.CF)


@B('dec')
def i_dec(M, s, I, w):
    x = M.get(s, I.ops[0], w, I); r = bin_('sub', x, 1, w); old = s.fl
    M.put(s, I.ops[0], r, w, I); s.fl = Flags('dec', r=r, w=w, cf=old.CF)


@B('neg')
def i_neg(M, s, I, w):
    x = M.get(s, I.ops[0], w, I); r = bin_('sub', 0, x, w)
    M.put(s, I.ops[0], r, w, I); s.fl = Flags('sub', 0, x, r, w)


@B('not')
def i_not(M, s, I, w):
    x = M.get(s, I.ops[0], w, I)
    M.put(s, I.ops[0], mask(~x, w) if isint(x) else ~x, w, I)


def shift(op):
    def f(M, s, I, w):
        if len(I.ops) == 1: c, d = 1, I.ops[0]
        else: c, d = M.get(s, I.ops[0], 8, I), I.ops[1]
        x = M.get(s, d, w, I)
        m = 63 if w == 64 else 31
        if isint(c):
            c &= m
            if c == 0: M.put(s, d, x, w, I); return
            if op in ('shl', 'sal'):
                r = (mask(x << c, w) if isint(x) else (x << c if c < w else 0)); cf = EQ(EXTRACT(w - c, w - c, x, w), 1, 1) if c <= w else None
            elif op == 'shr':
                r = x >> c if isint(x) else (z3.LShR(x, c) if c < w else 0); cf = EQ(EXTRACT(c - 1, c - 1, x, w), 1, 1) if c <= w else None
            else:
                c2 = min(c, w - 1)
                r = mask(sx(x, w) >> c, w) if isint(x) else x >> c2; cf = EQ(EXTRACT(min(c, w) - 1, min(c, w) - 1, x, w), 1, 1)
            M.put(s, d, r, w, I); s.fl = Flags('sh', r=r, w=w, cf=cf); return
        n = ZEXT(c & m, 8, w) if w > 8 else (c & m)
        x = bv(x, w)
        r = x << n if op in ('shl', 'sal') else z3.LShR(x, n) if op == 'shr' else x >> n
        M.put(s, d, r, w, I); s.fl = Flags('undef')
    return f


for _n in ('shl', 'sal', 'shr', 'sar'): BASE[_n] = shift(_n)


def rot(left):
    def f(M, s, I, w):
        if len(I.ops) == 1: c, d = 1, I.ops[0]
        else: c, d = M.get(s, I.ops[0], 8, I), I.ops[1]
        x = M.get(s, d, w, I)
        if not isint(c): raise Stop('unsupported', I.txt)
        c %= w
        if not left: c = (w - c) % w
        if c: x = CONCAT([(EXTRACT(w - c - 1, 0, x, w), w - c), (EXTRACT(w - 1, w - c, x, w), c)])
        M.put(s, d, x, w, I)
    return f


BASE['rol'], BASE['ror'] = rot(True), rot(False)


def shxd(left):
    def f(M, s, I, w):
        c = M.get(s, I.ops[0], 8, I) if len(I.ops) == 3 else None
        if not isint(c): raise Stop('unsupported', I.txt)
        c &= 63 if w == 64 else 31
        src, x = M.get(s, I.ops[1], w, I), M.get(s, I.ops[2], w, I)
        if c:
            if left: x = CONCAT([(EXTRACT(w - c - 1, 0, x, w), w - c), (EXTRACT(w - 1, w - c, src, w), c)])
            else: x = CONCAT([(EXTRACT(c - 1, 0, src, w), c), (EXTRACT(w - 1, c, x, w), w - c)])
        M.put(s, I.ops[2], x, w, I); s.fl = Flags('undef')
    return f


BASE['shld'], BASE['shrd'] = shxd(True), shxd(False)


@B('imul')
def i_imul(M, s, I, w):
    if len(I.ops) == 1: return wide_mul(M, s, I, w, True)
    if len(I.ops) == 3:
        y = M.get(s, I.ops[0], w, I); x = M.get(s, I.ops[1], w, I); d = I.ops[2]
    else:
        y = M.get(s, I.ops[0], w, I); d = I.ops[1]; x = M.get(s, d, w, I)
    r = bin_('mul', x, y, w)
    if isint(x) and isint(y): of = sx(x, w) * sx(y, w) != sx(r, w)
    else: of = OfMul(x, y, w)
    M.put(s, d, r, w, I)
    s.fl = Flags('mul', r=r, w=w, cf=of)


def OfMul(x, y, w):
    return z3.Not(z3.And(z3.BVMulNoOverflow(bv(x, w), bv(y, w), True), z3.BVMulNoUnderflow(bv(x, w), bv(y, w))))


def wide_mul(M, s, I, w, sign):
    y = M.get(s, I.ops[0], w, I)
    acc = ('r', 'rax', w, 0)
    x = M.get(s, acc, w, I)
    E = SEXT if sign else ZEXT
    p = bin_('mul', E(x, w, 2 * w), E(y, w, 2 * w), 2 * w)
    lo, hi = bin_('mul', x, y, w), EXTRACT(2 * w - 1, w, p, 2 * w)
    if w == 8: M.put(s, ('r', 'rax', 16, 0), p, 16, I)
    else: M.put(s, acc, lo, w, I); M.put(s, ('r', 'rdx', w, 0), hi, w, I)
    if sign: of = (sx(p, 2 * w) != sx(lo, w)) if isint(p) else OfMul(x, y, w)
    else: of = (hi != 0) if isint(p) else z3.Not(z3.BVMulNoOverflow(bv(x, w), bv(y, w), False))
    s.fl = Flags('mul', r=lo, w=w, cf=of)


@B('mul')
def i_mul(M, s, I, w): wide_mul(M, s, I, w, False)


def divide(sign):
    def f(M, s, I, w):
        y = M.get(s, I.ops[-1 if len(I.ops) == 1 else 0], w, I)
        if w == 8:
            d16 = M.get(s, ('r', 'rax', 16, 0), 16, I)
            lo, hi = EXTRACT(7, 0, d16, 16), EXTRACT(15, 8, d16, 16)
        else:
            lo, hi = M.get(s, ('r', 'rax', w, 0), w, I), M.get(s, ('r', 'rdx', w, 0), w, I)
        # simple case: the high half is the extension of the low half
        if sign:
            ext = EXTRACT(2 * w - 1, w, SEXT(lo, w, 2 * w), 2 * w)
            simple = SIMP(EQ(hi, ext, w))
        else: simple = SIMP(EQ(hi, 0, w))
        if not isint(simple):
            simple = not M.sat(s.cond + [z3.Not(simple)])[0]
        z = SIMP(EQ(y, 0, w))
        trap = z
        if isint(simple) and simple:
            if sign: trap = OR(z, AND(EQ(y, (1 << w) - 1, w), EQ(lo, 1 << (w - 1), w)))
            if isint(lo) and isint(y):
                if trap: raise Stop('trap', 'divide error')
                a, b = (sx(lo, w), sx(y, w)) if sign else (lo, y)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1); r = a - q * b
                q, r = mask(q, w), mask(r, w)
            else:
                a, b = bv(lo, w), bv(y, w)
                q, r = (a / b, z3.SRem(a, b)) if sign else (z3.UDiv(a, b), z3.URem(a, b))
        else:
            a = bv(CONCAT([(hi, w), (lo, w)]), 2 * w); b = bv(SEXT(y, w, 2 * w) if sign else ZEXT(y, w, 2 * w), 2 * w)
            Q, R = (a / b, z3.SRem(a, b)) if sign else (z3.UDiv(a, b), z3.URem(a, b))
            q, r = EXTRACT(w - 1, 0, Q, 2 * w), EXTRACT(w - 1, 0, R, 2 * w)
            trap = OR(z, bv(SEXT(q, w, 2 * w) if sign else ZEXT(q, w, 2 * w), 2 * w) != Q)
        trap = SIMP(trap)
        if trap is True: raise Stop('trap', 'divide error')
        if trap is not False and not (isint(trap) and not trap):
            ok, m = M.sat(s.cond + [trap])
            if ok:
                t = s.copy(); t.cond.append(trap); t.model = m; t.pc = M.trap_pc(); M.work.append(t)
                ok2, m2 = M.sat(s.cond + [z3.Not(trap)])
                if not ok2: raise Fork()
                s.cond.append(z3.Not(trap)); s.model = m2
        if w == 8: M.put(s, ('r', 'rax', 16, 0), CONCAT([(r, 8), (q, 8)]), 16, I)
        else: M.put(s, ('r', 'rax', w, 0), q, w, I); M.put(s, ('r', 'rdx', w, 0), r, w, I)
        s.fl = Flags('undef')
    return f


BASE['idiv'], BASE['div'] = divide(True), divide(False)


def trap_pc(self):
    if not hasattr(self, '_tp'):
        I = Insn(); I.op, I.ops, I.txt, I.tu, I.lock, I.fn = 'ud2', [], 'ud2 (divide error)', None, False, None
        self.p.insns.append(I); self._tp = len(self.p.insns) - 1
    return self._tp


Machine.trap_pc = trap_pc


@T('cltd', 'cdq')
def i_cdq(M, s, I):
    v = EXTRACT(31, 0, s.r['rax'], 64)
    M.put(s, ('r', 'rdx', 32, 0), EXTRACT(63, 32, SEXT(v, 32, 64), 64), 32, I)


@T('cqto', 'cqo')
def i_cqo(M, s, I): s.r['rdx'] = EXTRACT(127, 64, SEXT(s.r['rax'], 64, 128), 128)


@T('cltq', 'cdqe')
def i_cltq(M, s, I): s.r['rax'] = SEXT(EXTRACT(31, 0, s.r['rax'], 64), 32, 64)


@T('cwtl', 'cwde')
def i_cwtl(M, s, I): M.put(s, ('r', 'rax', 32, 0), SEXT(EXTRACT(15, 0, s.r['rax'], 64), 16, 32), 32, I)


@T('cwtd', 'cwd')
def i_cwtd(M, s, I): M.put(s, ('r', 'rdx', 16, 0), EXTRACT(31, 16, SEXT(EXTRACT(15, 0, s.r['rax'], 64), 16, 32), 32), 16, I)


@T('cbtw', 'cbw')
def i_cbtw(M, s, I): M.put(s, ('r', 'rax', 16, 0), SEXT(EXTRACT(7, 0, s.r['rax'], 64), 8, 16), 16, I)


@B('xchg')
def i_xchg(M, s, I, w):
    h = M.hooks.get('atomic')
    if h and any(o[0] == 'm' for o in I.ops): h(M, s, I, w)
    a, b = I.ops
    if b[0] == 'm': ad = M.ea(s, b, I); y = M.ld(s, ad, w // 8); x = M.get(s, a, w, I); M.sto(s, ad, x, w // 8); M.put(s, a, y, w, I)
    elif a[0] == 'm': ad = M.ea(s, a, I); y = M.ld(s, ad, w // 8); x = M.get(s, b, w, I); M.sto(s, ad, x, w // 8); M.put(s, b, y, w, I)
    else:
        x, y = M.get(s, a, w, I), M.get(s, b, w, I)
        M.put(s, b, x, w, I); M.put(s, a, y, w, I)


@B('cmpxchg')
def i_cmpxchg(M, s, I, w):
    h = M.hooks.get('atomic')
    if h: h(M, s, I, w)
    src, d = I.ops
    if not I.lock and d[0] == 'm': s.aux['unlocked'] = True
    ad = M.ea(s, d, I) if d[0] == 'm' else None
    old = M.ld(s, ad, w // 8) if ad is not None else M.get(s, d, w, I)
    acc = M.get(s, ('r', 'rax', w, 0), w, I)
    eq = EQ(acc, old, w)
    new = M.get(s, src, w, I)
    v = ITE(eq, new, old, w)
    if ad is not None: M.sto(s, ad, v, w // 8)
    else: M.put(s, d, v, w, I)
    s.fl = Flags('sub', acc, old, bin_('sub', acc, old, w), w)
    # on failure the accumulator receives the old value (equal otherwise)
    M.put(s, ('r', 'rax', w, 0), old if w >= 32 else old, w, I)


@B('xadd')
def i_xadd(M, s, I, w):
    h = M.hooks.get('atomic')
    if h: h(M, s, I, w)
    src, d = I.ops
    ad = M.ea(s, d, I) if d[0] == 'm' else None
    old = M.ld(s, ad, w // 8) if ad is not None else M.get(s, d, w, I)
    x = M.get(s, src, w, I)
    r = bin_('add', old, x, w)
    M.put(s, src, old, w, I)
    if ad is not None: M.sto(s, ad, r, w // 8)
    else: M.put(s, d, r, w, I)
    s.fl = Flags('add', old, x, r, w)


@B('bswap')
def i_bswap(M, s, I, w):
    d = I.ops[0]
    v = M.get(s, d, w, I)
    n = w // 8
    if isint(v): r = int.from_bytes(v.to_bytes(n, 'little'), 'big')
    else: r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)])
    M.put(s, d, r, w, I)


@B('bt')
def i_bt(M, s, I, w):
    c, x = M.get(s, I.ops[0], w, I), M.get(s, I.ops[1], w, I)
    c = bin_('and', c, w - 1, w)
    r = (x >> c & 1) == 1 if isint(x) and isint(c) else EQ(EXTRACT(0, 0, z3.LShR(bv(x, w), bv(c, w)), w), 1, 1)
    s.fl = Flags('bt', r)


def i_push(M, s, I, w=64):
    v = M.get(s, I.ops[0], 64, I)
    s.r['rsp'] -= 8
    M.sto(s, s.r['rsp'], v, 8)


def i_pop(M, s, I, w=64):
    v = M.ld(s, s.r['rsp'], 8)
    s.r['rsp'] += 8
    M.put(s, I.ops[0], v, 64, I)


BASE['push'] = TABLE['push'] = i_push
BASE['pop'] = TABLE['pop'] = i_pop


@T('leave', 'leaveq')
def i_leave(M, s, I):
    s.r['rsp'] = M.need_int(s, s.r['rbp'])
    s.r['rbp'] = M.ld(s, s.r['rsp'], 8)
    s.r['rsp'] += 8


@T('jmp', 'jmpq')
def i_jmp(M, s, I):
    a = M.target(s, I)
    if a in M._codeaddr(): s.pc = (a - M.p.CODE0) // 16
    else: raise Stop('error', 'jump to 0x%x' % a)


@T('call', 'callq')
def i_call(M, s, I):
    if I.txt.find('*') >= 0: a = M.target(s, I)
    else: a = M.evalx(I.ops[0][1], I)
    M.do_call(s, a)


@T('ret', 'retq')
def i_ret(M, s, I): M.do_ret(s)


@T('ud2', 'ud1l', 'ud1', 'int3', 'ud1q')
def i_ud(M, s, I): raise Stop('trap', I.txt)


@T('nop', 'nopw', 'nopl', 'endbr64', 'mfence', 'lfence', 'sfence', 'pause', 'emms', 'cld')
def i_nop(M, s, I): pass


# SSE
def sse_logic(op):
    def f(M, s, I):
        a, d = I.ops
        if op == 'xor' and a == d: s.x[d[1]] = 0; return
        y, x = M.get(s, a, 128, I), s.x[d[1]]
        if op == 'andn': r = bin_('and', mask(~x, 128) if isint(x) else ~x, y, 128)
        else: r = bin_(op, x, y, 128)
        s.x[d[1]] = r
    return f


for _o, _ns in (('xor', 'xorps xorpd pxor'), ('and', 'andps andpd pand'), ('or', 'orps orpd por'), ('andn', 'andnps andnpd pandn')):
    for _n in _ns.split(): TABLE[_n] = sse_logic(_o)


def sse_arith(op, w):
    def f(M, s, I):
        a, d = I.ops
        y, x = M.get(s, a, w, I), EXTRACT(w - 1, 0, s.x[d[1]], 128)
        M.put(s, d, M.fpu.arith(op, x, y, w), w, I)
    return f


for _o in ('add', 'sub', 'mul', 'div'):
    TABLE[_o + 'ss'] = sse_arith(_o, 32); TABLE[_o + 'sd'] = sse_arith(_o, 64)


def sse_sqrt(w):
    def f(M, s, I): M.put(s, I.ops[1], M.fpu.sqrt(M.get(s, I.ops[0], w, I), w), w, I)
    return f


TABLE['sqrtss'], TABLE['sqrtsd'] = sse_sqrt(32), sse_sqrt(64)


def sse_cmp(w):
    def f(M, s, I):
        a, d = I.ops
        y, x = M.get(s, a, w, I), EXTRACT(w - 1, 0, s.x[d[1]], 128)
        un, lt, eq = M.fpu.cmp(x, y, w)
        s.fl = Flags('f', un, lt, eq)
    return f


for _n in ('ucomiss', 'comiss'): TABLE[_n] = sse_cmp(32)
for _n in ('ucomisd', 'comisd'): TABLE[_n] = sse_cmp(64)


def cmpsd(pred, w):
    def f(M, s, I):
        a, d = I.ops
        y, x = M.get(s, a, w, I), EXTRACT(w - 1, 0, s.x[d[1]], 128)
        un, lt, eq = M.fpu.cmp(x, y, w)
        c = {'eq': eq, 'lt': lt, 'le': OR(lt, eq), 'unord': un, 'neq': NOT(eq), 'nlt': NOT(lt), 'nle': NOT(OR(lt, eq)), 'ord': NOT(un)}[pred]
        M.put(s, d, ITE(c, (1 << w) - 1, 0, w), w, I)
    return f


for _p in ('eq', 'lt', 'le', 'unord', 'neq', 'nlt', 'nle', 'ord'):
    TABLE['cmp%sss' % _p] = cmpsd(_p, 32); TABLE['cmp%ssd' % _p] = cmpsd(_p, 64)


@T('cvtss2sd')
def i_c1(M, s, I): M.put(s, I.ops[1], M.fpu.cvt(M.get(s, I.ops[0], 32, I), 32, 64), 64, I)


@T('cvtsd2ss')
def i_c2(M, s, I): M.put(s, I.ops[1], M.fpu.cvt(M.get(s, I.ops[0], 64, I), 64, 32), 32, I)


def cvtsi(wf):
    def g(suf):
        def f(M, s, I):
            a = I.ops[0]
            wi = SUF[suf] if suf else a[2] if a[0] == 'r' else 32
            M.put(s, I.ops[1], M.fpu.from_int(M.get(s, a, wi, I), wi, wf), wf, I)
        return f
    return g


for _s in ('', 'l', 'q'):
    TABLE['cvtsi2ss' + _s] = cvtsi(32)(_s); TABLE['cvtsi2sd' + _s] = cvtsi(64)(_s)


def cvtt(wf, rm):
    def f(M, s, I):
        d = I.ops[1]; wi = d[2]
        M.put(s, d, M.fpu.to_int(M.get(s, I.ops[0], wf, I), wf, wi, rm), wi, I)
    return f


for _s in ('', 'l', 'q'):
    TABLE['cvttss2si' + _s] = cvtt(32, 'rtz'); TABLE['cvttsd2si' + _s] = cvtt(64, 'rtz')
    TABLE['cvtss2si' + _s] = cvtt(32, 'rne'); TABLE['cvtsd2si' + _s] = cvtt(64, 'rne')


def unpck(w, hi):
    def f(M, s, I):
        a, d = I.ops
        y, x = M.get(s, a, 128, I), s.x[d[1]]
        n = 128 // w
        idx = range(n // 2, n) if hi else range(0, n // 2)
        parts = []
        for i in idx:
            parts.append((EXTRACT(w * i + w - 1, w * i, x, 128), w)); parts.append((EXTRACT(w * i + w - 1, w * i, y, 128), w))
        s.x[d[1]] = CONCAT(parts[::-1])
    return f


TABLE['unpcklps'] = TABLE['punpckldq'] = unpck(32, False); TABLE['unpcklpd'] = TABLE['punpcklqdq'] = unpck(64, False)
TABLE['unpckhps'] = TABLE['punpckhdq'] = unpck(32, True); TABLE['unpckhpd'] = TABLE['punpckhqdq'] = unpck(64, True)
TABLE['movlhps'] = lambda M, s, I: s.x.__setitem__(I.ops[1][1], CONCAT([(EXTRACT(63, 0, s.x[I.ops[0][1]], 128), 64), (EXTRACT(63, 0, s.x[I.ops[1][1]], 128), 64)]))
TABLE['movhlps'] = lambda M, s, I: s.x.__setitem__(I.ops[1][1], CONCAT([(EXTRACT(127, 64, s.x[I.ops[1][1]], 128), 64), (EXTRACT(127, 64, s.x[I.ops[0][1]], 128), 64)]))


def packed(op, w):
    def f(M, s, I):
        a, d = I.ops
        y, x = M.get(s, a, 128, I), s.x[d[1]]
        n = 128 // w
        s.x[d[1]] = CONCAT([(M.fpu.arith(op, EXTRACT(w * i + w - 1, w * i, x, 128), EXTRACT(w * i + w - 1, w * i, y, 128), w), w) for i in range(n - 1, -1, -1)])
    return f


for _o in ('add', 'sub', 'mul', 'div'): TABLE[_o + 'pd'] = packed(_o, 64); TABLE[_o + 'ps'] = packed(_o, 32)


def shufps(M, s, I):
    k = M.evalx(I.ops[0][1], I); y, x = M.get(s, I.ops[1], 128, I), s.x[I.ops[2][1]]
    g = lambda v, i: (EXTRACT(32 * i + 31, 32 * i, v, 128), 32)
    s.x[I.ops[2][1]] = CONCAT([g(y, k >> 6 & 3), g(y, k >> 4 & 3), g(x, k >> 2 & 3), g(x, k & 3)])


TABLE['shufps'] = shufps


def pshufd(M, s, I):
    k = M.evalx(I.ops[0][1], I); y = M.get(s, I.ops[1], 128, I)
    s.x[I.ops[2][1]] = CONCAT([(EXTRACT(32 * (k >> 2 * i & 3) + 31, 32 * (k >> 2 * i & 3), y, 128), 32) for i in (3, 2, 1, 0)])


TABLE['pshufd'] = pshufd


def psrldq(M, s, I):
    k = M.evalx(I.ops[0][1], I) * 8; x = s.x[I.ops[1][1]]
    s.x[I.ops[1][1]] = CONCAT([(0, k), (EXTRACT(127, k, x, 128), 128 - k)])


TABLE['psrldq'] = psrldq


# x87: the stack holds 80-bit patterns, top last
def st_push(s, v):
    if len(s.st) >= 8: raise Stop('error', 'x87 stack overflow')
    s.st = s.st + [v]


def st_pop(s):
    if not s.st: raise Stop('error', 'x87 stack underflow')
    v = s.st[-1]; s.st = s.st[:-1]; return v


def st_get(s, i):
    if len(s.st) <= i: raise Stop('error', 'x87 stack underflow')
    return s.st[-1 - i]


def st_set(s, i, v):
    l = list(s.st); l[-1 - i] = v; s.st = l


def fld(w):
    def f(M, s, I):
        if I.ops[0][0] == 'st': st_push(s, st_get(s, I.ops[0][1])); return
        v = M.ld(s, M.ea(s, I.ops[0], I), w // 8)
        st_push(s, M.fpu.cvt(v, w, 80))
    return f


TABLE['fldt'], TABLE['fldl'], TABLE['flds'], TABLE['fld'] = fld(80), fld(64), fld(32), fld(80)


def fst(w, pop):
    def f(M, s, I):
        v = st_get(s, 0)
        if I.ops[0][0] == 'st': st_set(s, I.ops[0][1], v)
        else: M.sto(s, M.ea(s, I.ops[0], I), M.fpu.cvt(v, 80, w), w // 8)
        if pop: st_pop(s)
    return f


TABLE['fstpt'], TABLE['fstpl'], TABLE['fstps'], TABLE['fstp'] = fst(80, True), fst(64, True), fst(32, True), fst(80, True)
TABLE['fstl'], TABLE['fsts'], TABLE['fst'] = fst(64, False), fst(32, False), fst(80, False)


def fild(w):
    def f(M, s, I): st_push(s, M.fpu.from_int(M.ld(s, M.ea(s, I.ops[0], I), w // 8), w, 80))
    return f


TABLE['filds'] = TABLE['fild'] = fild(16); TABLE['fildl'] = fild(32); TABLE['fildll'] = TABLE['fildq'] = fild(64)


def fistp(w, pop=True):
    def f(M, s, I):
        v = st_get(s, 0)
        rm = {0: 'rne', 3: 'rtz'}.get(s.cw >> 10 & 3)
        if rm is None: raise Stop('unsupported', 'x87 rounding mode')
        M.sto(s, M.ea(s, I.ops[0], I), M.fpu.to_int(v, 80, w, rm), w // 8)
        if pop: st_pop(s)
    return f


TABLE['fistps'] = TABLE['fistp'] = fistp(16); TABLE['fistpl'] = fistp(32); TABLE['fistpll'] = TABLE['fistpq'] = fistp(64)


@T('fnstcw', 'fstcw')
def i_fnstcw(M, s, I): M.sto(s, M.ea(s, I.ops[0], I), s.cw, 2)


@T('fldcw')
def i_fldcw(M, s, I):
    s.cw = M.need_int(s, M.ld(s, M.ea(s, I.ops[0], I), 2))


@T('fninit')
def i_fninit(M, s, I):
    s.cw = 0x37f
    if s.st: s.st = []; s.aux['fninit_lost'] = True


def fconst(bits):
    return lambda M, s, I: st_push(s, bits)


TABLE['fldz'], TABLE['fld1'] = fconst(0), fconst(f_pack(np.longdouble(1), 80))


@T('fchs')
def i_fchs(M, s, I): st_set(s, 0, bin_('xor', st_get(s, 0), 1 << 79, 80))


@T('fabs')
def i_fabs(M, s, I): st_set(s, 0, bin_('and', st_get(s, 0), (1 << 79) - 1, 80))


@T('fxch')
def i_fxch(M, s, I):
    i = I.ops[0][1] if I.ops else 1
    a, b = st_get(s, 0), st_get(s, i)
    st_set(s, 0, b); st_set(s, i, a)


# AT&T quirk: with the destination %st(i), i>0, fsub/fsubr and fdiv/fdivr are swapped with respect to
# the Intel names: fsubp = st(1) <- st(0) - st(1); fsubrp = st(1) <- st(1) - st(0)
def farith(op, rev, pop, memw=0):
    def f(M, s, I):
        if memw:
            v = M.fpu.cvt(M.ld(s, M.ea(s, I.ops[0], I), memw // 8), memw, 80)
            a = st_get(s, 0)
            st_set(s, 0, M.fpu.arith(op, v, a, 80) if rev else M.fpu.arith(op, a, v, 80)); return
        if not I.ops: src, dst = 0, 1
        elif len(I.ops) == 1: src, dst = (0, I.ops[0][1]) if pop else (I.ops[0][1], 0)
        else: src, dst = I.ops[0][1], I.ops[1][1]
        d, x = st_get(s, dst), st_get(s, src)
        if dst == 0: r = M.fpu.arith(op, x, d, 80) if rev else M.fpu.arith(op, d, x, 80)
        elif op in ('sub', 'div'): r = M.fpu.arith(op, d, x, 80) if rev else M.fpu.arith(op, x, d, 80)
        else: r = M.fpu.arith(op, d, x, 80)
        st_set(s, dst, r)
        if pop: st_pop(s)
    return f


for _o in ('add', 'sub', 'mul', 'div'):
    TABLE['f%s' % _o] = farith(_o, False, False); TABLE['f%sp' % _o] = farith(_o, False, True)
    TABLE['f%ss' % _o] = farith(_o, False, False, 32); TABLE['f%sl' % _o] = farith(_o, False, False, 64)
    if _o in ('sub', 'div'):
        TABLE['f%sr' % _o] = farith(_o, True, False); TABLE['f%srp' % _o] = farith(_o, True, True)
        TABLE['f%srs' % _o] = farith(_o, True, False, 32); TABLE['f%srl' % _o] = farith(_o, True, False, 64)


def fcomi(pop):
    def f(M, s, I):
        i = I.ops[0][1] if I.ops else 1
        un, lt, eq = M.fpu.cmp(st_get(s, 0), st_get(s, i), 80)
        s.fl = Flags('f', un, lt, eq)
        if pop: st_pop(s)
    return f


TABLE['fucomi'] = TABLE['fcomi'] = fcomi(False); TABLE['fucomip'] = TABLE['fcomip'] = TABLE['fucompi'] = TABLE['fcompi'] = fcomi(True)


def fcmov(cc):
    def f(M, s, I):
        c = s.fl.cond(cc); i = I.ops[0][1]
        st_set(s, 0, ITE(c, st_get(s, i), st_get(s, 0), 80))
    return f


for _a, _b in (('b', 'b'), ('e', 'e'), ('be', 'be'), ('nb', 'ae'), ('ne', 'ne'), ('nbe', 'a'), ('u', 'p'), ('nu', 'np')): TABLE['fcmov' + _a] = fcmov(_b)


def rep_op(w, mov):
    def f(M, s, I):
        d, n = M.need_int(s, s.r['rdi']), M.need_int(s, s.r['rcx'])
        if mov:
            a = M.need_int(s, s.r['rsi'])
            for i in range(n): M.sto(s, d + i * w, M.ld(s, a + i * w, w), w)
            s.r['rsi'] = a + n * w
        else:
            c = EXTRACT(8 * w - 1, 0, s.r['rax'], 64) if w < 8 else s.r['rax']
            for i in range(n): M.sto(s, d + i * w, c, w)
        s.r['rdi'], s.r['rcx'] = d + n * w, 0
    return f


for _c, _w in (('b', 1), ('w', 2), ('l', 4), ('q', 8)):
    TABLE['rep movs' + _c] = rep_op(_w, True); TABLE['rep stos' + _c] = rep_op(_w, False)
