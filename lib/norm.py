"""width-reducing canonical form of bit-vector terms: multiplications, divisions and remainders are done in
the narrowest width their operands need, so that the same operation written at different widths becomes
the same term.  Every rewrite is an identity of bit-vector arithmetic."""
import z3

K = z3
_memo, _sw, _uw, _keep = {}, {}, {}, []
DIVS = {z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BSREM_I: 'srem', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUREM_I: 'urem'}


def num(e): return e.as_long() if z3.is_bv_value(e) else None


def swidth(e):
    """n such that e is the sign extension of its low n bits"""
    i = e.get_id()
    if i in _sw: return _sw[i]
    w = e.size(); r = w
    k = e.decl().kind()
    v = num(e)
    if v is not None:
        if v >> (w - 1): v = (1 << w) - 1 - v
        r = v.bit_length() + 1
    elif k == z3.Z3_OP_SIGN_EXT: r = swidth(e.arg(0))
    elif k == z3.Z3_OP_ZERO_EXT: r = uwidth(e.arg(0)) + 1
    elif k == z3.Z3_OP_CONCAT:
        v = num(e.arg(0))
        if v == 0: r = w - e.arg(0).size() + 1
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        if lo == 0: r = min(w, swidth(e.arg(0)))
    elif k == z3.Z3_OP_ITE: r = max(swidth(e.arg(1)), swidth(e.arg(2)))
    elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB) and e.num_args() == 2: r = max(swidth(e.arg(0)), swidth(e.arg(1))) + 1
    elif k == z3.Z3_OP_BNEG: r = swidth(e.arg(0)) + 1
    elif k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR): r = max(swidth(c) for c in e.children())
    elif k == z3.Z3_OP_BNOT: r = swidth(e.arg(0))
    u = uwidth(e)
    r = min(w, r, u + 1)
    _sw[i] = r; _keep.append(e)
    return r


def uwidth(e):
    i = e.get_id()
    if i in _uw: return _uw[i]
    w = e.size(); r = w
    k = e.decl().kind()
    v = num(e)
    if v is not None: r = max(1, v.bit_length())
    elif k == z3.Z3_OP_ZERO_EXT: r = uwidth(e.arg(0))
    elif k == z3.Z3_OP_CONCAT:
        v = num(e.arg(0))
        if v == 0:
            rest = w - e.arg(0).size()
            r = uwidth(e.arg(1)) if e.num_args() == 2 else rest
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        r = min(w, max(1, uwidth(e.arg(0)) - lo))
    elif k == z3.Z3_OP_ITE: r = max(uwidth(e.arg(1)), uwidth(e.arg(2)))
    elif k == z3.Z3_OP_BAND: r = min(uwidth(c) for c in e.children())
    elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR): r = max(uwidth(c) for c in e.children())
    elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I): r = w
    elif k == z3.Z3_OP_BLSHR and num(e.arg(1)) is not None: r = max(1, uwidth(e.arg(0)) - num(e.arg(1)))
    _uw[i] = r; _keep.append(e)
    return r


def low(e, n):
    w = e.size()
    if n == w: return e
    k = e.decl().kind()
    if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        a = e.arg(0)
        if n == a.size(): return a
        if n < a.size(): return low(a, n)
        return z3.SignExt(n - a.size(), a) if k == z3.Z3_OP_SIGN_EXT else z3.ZeroExt(n - a.size(), a)
    if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0: return low(e.arg(0), n)
    v = num(e)
    if v is not None: return z3.BitVecVal(v & ((1 << n) - 1), n)
    return z3.simplify(z3.Extract(n - 1, 0, e))


def sx(e, w):
    return e if e.size() == w else z3.SignExt(w - e.size(), e)


def zx(e, w):
    return e if e.size() == w else z3.ZeroExt(w - e.size(), e)


def rebuild(e, ch):
    if all(a.eq(b) for a, b in zip(ch, e.children())): return e
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE: return z3.If(*ch)
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    return e.decl()(*ch)


def node(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_BASHR and num(ch[1]) is not None:
        c, w = num(ch[1]), e.size()
        if c >= w: c = w - 1
        return z3.SignExt(c, z3.simplify(z3.Extract(w - 1, c, ch[0]))) if c else ch[0]
    if k == z3.Z3_OP_CONCAT and num(ch[0]) == 0:
        rest = ch[1] if len(ch) == 2 else z3.Concat(*ch[1:])
        return z3.ZeroExt(ch[0].size(), rest)
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        if lo == 0: return low(ch[0], hi + 1)
        a = ch[0]
        if a.decl().kind() == z3.Z3_OP_SIGN_EXT:
            b = a.arg(0); bw = b.size()
            if hi < bw: return z3.simplify(z3.Extract(hi, lo, b))
            if lo < bw: return z3.SignExt(hi + 1 - bw, z3.simplify(z3.Extract(bw - 1, lo, b)))
        if a.decl().kind() == z3.Z3_OP_ZERO_EXT:
            b = a.arg(0); bw = b.size()
            if hi < bw: return z3.simplify(z3.Extract(hi, lo, b))
            if lo >= bw: return z3.BitVecVal(0, hi - lo + 1)
            return z3.ZeroExt(hi + 1 - bw, z3.simplify(z3.Extract(bw - 1, lo, b)))
        return z3.Extract(hi, lo, a)
    if k == z3.Z3_OP_SIGN_EXT:
        a = ch[0]
        if a.decl().kind() == z3.Z3_OP_SIGN_EXT: return z3.SignExt(e.size() - a.arg(0).size(), a.arg(0))
        if a.decl().kind() == z3.Z3_OP_ZERO_EXT and a.size() > a.arg(0).size(): return z3.ZeroExt(e.size() - a.arg(0).size(), a.arg(0))
    if k == z3.Z3_OP_ZERO_EXT:
        a = ch[0]
        if a.decl().kind() == z3.Z3_OP_ZERO_EXT: return z3.ZeroExt(e.size() - a.arg(0).size(), a.arg(0))
    if k == z3.Z3_OP_BMUL and e.num_args() == 2:
        a, b = ch
        w = e.size()
        n, m = swidth(a) + swidth(b), uwidth(a) + uwidth(b)
        if n < w:
            a, b = sx(low(a, swidth(a)), n), sx(low(b, swidth(b)), n)
            return z3.SignExt(w - n, order(a, b))
        if m < w:
            a, b = zx(low(a, uwidth(a)), m), zx(low(b, uwidth(b)), m)
            return z3.ZeroExt(w - m, order(a, b))
        return order(a, b)
    if k in DIVS and e.num_args() == 2:
        op, w = DIVS[k], e.size()
        a, b = ch
        if op[0] == 'u':
            n = max(uwidth(a), uwidth(b))
            a, b = low(a, n), low(b, n)
            q = z3.UDiv(a, b) if op == 'udiv' else z3.URem(a, b)
            if n == w: return q
            # division by zero yields all ones at the full width
            if op == 'udiv': return z3.If(b == 0, z3.BitVecVal((1 << w) - 1, w), z3.ZeroExt(w - n, q))
            return z3.ZeroExt(w - n, q)
        n = max(swidth(a), swidth(b))
        a, b = low(a, n), low(b, n)
        if op == 'srem':
            q = z3.SRem(a, b)
            return q if n == w else z3.SignExt(w - n, q)
        q = a / b
        if n == w: return q
        mn = z3.BitVecVal(1 << (n - 1), n)
        full = z3.If(z3.And(a == mn, b == z3.BitVecVal((1 << n) - 1, n)), z3.BitVecVal(1 << (n - 1), w), z3.SignExt(w - n, q))
        return full
    return rebuild(e, ch)


def order(a, b):
    if str(a.hash()) > str(b.hash()): a, b = b, a
    return a * b


def canon(e):
    if not isinstance(e, z3.ExprRef): return e
    stack = [e]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _memo: stack.pop(); continue
        ch = x.children()
        miss = [c for c in ch if c.get_id() not in _memo]
        if miss: stack.extend(miss); continue
        stack.pop()
        r = x if not ch else node(x, [_memo[c.get_id()] for c in ch])
        _memo[i] = r; _keep.append(x); _keep.append(r)
    return _memo[e.get_id()]


# ---------------------------------------------------------------- polynomials modulo 2^w
def _signcat(e):
    """(x, k) if the concatenation e repeats the sign bit of its remaining part x"""
    ch = e.children()
    b = ch[0]
    if b.size() != 1 or b.decl().kind() != z3.Z3_OP_EXTRACT: return None
    hi, lo = b.params()
    src = b.arg(0)
    n = 0
    while n < len(ch) and ch[n].eq(b): n += 1
    if n == len(ch): return None
    nx = ch[n]
    if nx.eq(src) and hi == src.size() - 1: pass
    elif nx.decl().kind() == z3.Z3_OP_EXTRACT and nx.arg(0).eq(src) and nx.params()[0] == hi: pass
    elif nx.decl().kind() == z3.Z3_OP_EXTRACT and nx.arg(0).eq(src) and nx.params()[0] == hi - 1: n -= 1; ch = ch[:n] + [z3.simplify(z3.Extract(hi, nx.params()[1], src))] + ch[n + 1 + 1:]
    else: return None
    rest = ch[n] if n == len(ch) - 1 else z3.Concat(*ch[n:])
    return rest if rest.size() < e.size() else None


def poly(e, w, memo=None, depth=0):
    """{sorted tuple of atoms: coefficient} equal to the low w bits of e"""
    memo = {} if memo is None else memo
    key = (e.get_id(), w)
    if key in memo: return memo[key]
    _keep.append(e)
    M = (1 << w) - 1
    k = e.decl().kind()
    v = num(e)
    r = None
    if v is not None: r = {(): v & M}
    elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        r = {}
        for i, c in enumerate(e.children()):
            for m, x in poly(c, w, memo).items(): r[m] = r.get(m, 0) + (-x if i and k == z3.Z3_OP_BSUB else x)
    elif k == z3.Z3_OP_BNEG: r = {m: -x for m, x in poly(e.arg(0), w, memo).items()}
    elif k == z3.Z3_OP_BNOT: r = {m: -x for m, x in poly(e.arg(0), w, memo).items()}; r[()] = r.get((), 0) - 1
    elif k == z3.Z3_OP_BMUL:
        r = {(): 1}
        for c in e.children():
            q = {}
            pc = poly(c, w, memo)
            if len(pc) * len(r) > 200: q = None; break
            for m1, x1 in r.items():
                for m2, x2 in pc.items():
                    mm = tuple(sorted(m1 + m2)); q[mm] = (q.get(mm, 0) + x1 * x2) & M
            r = q
        if r is not None and q is None: r = None
    elif k == z3.Z3_OP_BSHL and num(e.arg(1)) is not None:
        c = num(e.arg(1))
        r = {} if c >= w else {m: x << c for m, x in poly(e.arg(0), w, memo).items()}
    elif k == z3.Z3_OP_EXTRACT and e.params()[1] == 0: r = poly(e.arg(0), w, memo)
    elif k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        x = e.arg(0)
        if x.size() >= w: r = poly(x, w, memo)
        else:
            x = canon(z3.simplify(x)); _keep.append(x)
            while x.decl().kind() == z3.Z3_OP_ZERO_EXT or x.decl().kind() == k and k == z3.Z3_OP_SIGN_EXT:
                k = x.decl().kind(); x = x.arg(0)
            r = {(('s' if k == z3.Z3_OP_SIGN_EXT else 'z', x.get_id()),): 1}
    elif k == z3.Z3_OP_CONCAT:
        ch = e.children()
        if num(ch[-1]) == 0:
            n = ch[-1].size()
            hi = ch[0] if len(ch) == 2 else z3.Concat(*ch[:-1])
            r = {} if n >= w else {m: x << n for m, x in poly(hi, w - n, memo).items()}
        elif num(ch[0]) == 0:
            x = ch[1] if len(ch) == 2 else z3.Concat(*ch[1:])
            r = poly(z3.ZeroExt(ch[0].size(), x), w, memo)
        elif ch[-1].size() >= w: r = poly(ch[-1], w, memo)
        else:
            x = _signcat(e)
            if x is not None: r = poly(z3.SignExt(e.size() - x.size(), x), w, memo)
    if r is None:
        x = canon(z3.simplify(e)); _keep.append(x)
        if x.eq(e) or depth > 3: r = {(('', x.get_id()),): 1}
        else: r = poly(x, w, memo, depth + 1)
    r = {m: x & M for m, x in r.items() if x & M}
    memo[key] = r
    return r


def poly_eq(x, y):
    try: return poly(x, x.size()) == poly(y, y.size())
    except (z3.Z3Exception, RecursionError): return False
