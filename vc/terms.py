"""Bit-vector / boolean terms: Python ints (and bools) when concrete, z3 terms otherwise."""
import z3

MASK = [(1 << w) - 1 for w in range(0, 4097)]


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x


def isc(x):
    return isinstance(x, int)


def norm(t):
    """fold a z3 bit-vector numeral to an int"""
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def simp(t):
    if isinstance(t, (int, bool)):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def simpb(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def asbool(t):
    """the Boolean c when t is the word (c ? 1 : 0), else None"""
    if isinstance(t, int):
        return bool(t) if t in (0, 1) else None
    if not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            x, y = a.as_long(), b.as_long()
            if x == 1 and y == 0:
                return t.arg(0)
            if x == 0 and y == 1:
                return not_(t.arg(0))
        return None
    if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
        return asbool(t.arg(1))
    return None


def add(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a + b) & MASK[w]
        if a == 0:
            return b
    elif isinstance(b, int) and b == 0:
        return a
    return bv(a, w) + bv(b, w)


def sub(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return (a - b) & MASK[w]
        if b == 0:
            return a
    elif not isinstance(a, int) and a.eq(b):
        return 0
    return bv(a, w) - bv(b, w)


def and_(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a & b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        # contiguous mask -> extract/concat
        lo = (b & -b).bit_length() - 1
        hi = b.bit_length()
        if b == ((1 << hi) - (1 << lo)):
            parts = []
            if hi < w:
                parts.append(z3.BitVecVal(0, w - hi))
            parts.append(z3.Extract(hi - 1, lo, a))
            if lo:
                parts.append(z3.BitVecVal(0, lo))
            return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    elif a.eq(b):
        return a
    p = asbool(a)
    if p is not None:
        q = asbool(b)
        if q is not None:
            return b2i(band(p, q), w)
    return bv(a, w) & bv(b, w)


def or_(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a | b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == MASK[w]:
            return b
    elif a.eq(b):
        return a
    p = asbool(a)
    if p is not None:
        q = asbool(b)
        if q is not None:
            return b2i(bor(p, q), w)
    return bv(a, w) | bv(b, w)


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    p = asbool(a)
    if p is not None:
        q = asbool(b)
        if q is not None:
            return b2i(bxor(p, q), w)
    return bv(a, w) ^ bv(b, w)


def shl(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & MASK[w]
        return z3.Concat(z3.Extract(w - 1 - b, 0, a), z3.BitVecVal(0, b))
    return bv(a, w) << bv(b, w)


def lshr(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        return z3.Concat(z3.BitVecVal(0, b), z3.Extract(w - 1, b, a))
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(a, b, w):
    if isinstance(b, int) and isinstance(a, int):
        b = min(b, w - 1)
        return (sgn(a, w) >> b) & MASK[w]
    if isinstance(b, int):
        b = min(b, w - 1)
    return bv(a, w) >> bv(b, w)


def trunc(a, w, nw):
    if isinstance(a, int):
        return a & MASK[nw]
    p = asbool(a)
    if p is not None:
        return b2i(p, nw)
    return norm(z3.Extract(nw - 1, 0, a))


def extract(a, hi, lo):
    if isinstance(a, int):
        return (a >> lo) & MASK[hi - lo + 1]
    if lo == 0 and hi == a.size() - 1:
        return a
    return z3.Extract(hi, lo, a)


def zext(a, w, nw):
    if isinstance(a, int) or nw == w:
        return a
    p = asbool(a)
    if p is not None:
        return b2i(p, nw)
    return z3.Concat(z3.BitVecVal(0, nw - w), a)


def sext(a, w, nw):
    if isinstance(a, int):
        return sgn(a, w) & MASK[nw]
    return z3.SignExt(nw - w, a) if nw > w else a


def concat(parts):
    """parts: list of (value,width), most significant first"""
    if all(isinstance(p[0], int) for p in parts):
        r = 0
        for v, w in parts:
            r = (r << w) | v
        return r
    if len(parts) == 1:
        return parts[0][0]
    return z3.Concat(*[bv(v, w) for v, w in parts])


def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        p = asbool(a)
        if p is not None:
            return p if b == 1 else not_(p) if b == 0 else False
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return True
    return a == b


def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if isinstance(b, int) and b == 0:
        return False
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return False
    return z3.ULT(a, b)


def ule(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if isinstance(a, int) and a == 0:
        return True
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return True
    return z3.ULE(a, b)


def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) < sgn(b, w)
    return bv(a, w) < bv(b, w)


def sle(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) <= sgn(b, w)
    return bv(a, w) <= bv(b, w)


def icmp(p, a, b, w):
    if p == 'eq':
        return eq(a, b, w)
    if p == 'ne':
        return not_(eq(a, b, w))
    if p == 'ult':
        return ult(a, b, w)
    if p == 'ule':
        return ule(a, b, w)
    if p == 'ugt':
        return ult(b, a, w)
    if p == 'uge':
        return ule(b, a, w)
    if p == 'slt':
        return slt(a, b, w)
    if p == 'sle':
        return sle(a, b, w)
    if p == 'sgt':
        return slt(b, a, w)
    if p == 'sge':
        return sle(b, a, w)
    raise AssertionError(p)


def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


def bandl(l):
    r = True
    for x in l:
        r = band(r, x)
    return r


def borl(l):
    r = False
    for x in l:
        r = bor(r, x)
    return r


def bxor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        return not_(b) if a else b
    if isinstance(b, bool):
        return not_(a) if b else a
    return z3.Xor(a, b)


def ite(c, a, b, w):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return norm(a)
    return z3.If(c, a, b)


def iteb(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else not_(c)
    if isinstance(a, bool):
        return bor(c, b) if a else band(not_(c), b)
    if isinstance(b, bool):
        return bor(not_(c), a) if b else band(c, a)
    return z3.If(c, a, b)


def b2i(b, w):
    if isinstance(b, bool):
        return int(b)
    return z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def i2b(a):
    """1-bit vector to bool"""
    if isinstance(a, int):
        return bool(a & 1)
    p = asbool(a)
    if p is not None:
        return p
    return a == z3.BitVecVal(1, 1)


def low_zero(t, k):
    """are the k low bits of t syntactically zero?"""
    if k == 0:
        return True
    if isinstance(t, int):
        return t & MASK[k] == 0
    r = z3.simplify(z3.Extract(k - 1, 0, t))
    return z3.is_bv_value(r) and r.as_long() == 0
