"""A small certified-by-construction decision procedure for equalities of machine words.

Every bit-vector term t is given an exact integer value as a linear combination of atoms
(uninterpreted words, products, and floor quotients floor(S / 2^k) of linear forms S), with
bounds.  `a == b` at width w holds when the difference of the two linear forms vanishes modulo
2^w.  Wrap-around and extraction become floor atoms with canonical keys:
    floor((2^k*A + B) / 2^k) = A + floor(B / 2^k),   coefficients of B reduced to [0, 2^k)
The procedure only ever proves; when the difference does not vanish it answers "don't know"."""
import z3

ONE = ()


class RingNF:
    def __init__(self, limit=4000):
        self.cache = {}
        self.bounds = {}      # atom -> (lo, hi)
        self.keep = []
        self.ites = {}
        self.conds = {}
        self.limit = limit
        self.n = 0

    # linear forms: dict atom -> int; ONE is the constant
    def lin_bounds(self, L):
        lo = hi = 0
        for a, c in L.items():
            if a == ONE:
                lo += c
                hi += c
                continue
            l, h = self.bounds[a]
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    @staticmethod
    def addl(A, B, k=1):
        R = dict(A)
        for a, c in B.items():
            v = R.get(a, 0) + k * c
            if v:
                R[a] = v
            else:
                R.pop(a, None)
        return R

    @staticmethod
    def scale(A, k):
        return {a: c * k for a, c in A.items()} if k else {}

    def floor(self, S, k, lo, hi):
        """floor(S / 2^k) as a linear form, S within [lo, hi]"""
        l2, h2 = self.lin_bounds(S)
        lo, hi = max(lo, l2), min(hi, h2)
        if lo >> k == hi >> k:
            v = lo >> k
            return ({ONE: v} if v else {}), v, v
        m = 1 << k
        A, B = {}, {}
        for a, c in S.items():
            q, r = divmod(c, m)
            # prefer the small signed remainder when the atom keeps its sign tight
            if q:
                A[a] = q
            if r:
                B[a] = r
        al, ah = self.lin_bounds(A)
        bl, bh = self.lin_bounds(B)
        if bl >> k == bh >> k:
            v = bl >> k
            R = dict(A)
            if v:
                R = self.addl(R, {ONE: v})
            return R, lo >> k, hi >> k
        nz = [(a, c) for a, c in B.items()]
        if len(nz) == 1 and nz[0][1] == 1 and nz[0][0] != ONE and nz[0][0][0] == 'F':
            # floor(floor(S'/2^j)/2^k) = floor(S'/2^(j+k))
            _, key, j = nz[0][0]
            S2 = dict(key)
            b2 = self.lin_bounds(S2)
            R2, l3, h3 = self.floor(S2, j + k, *b2)
            return self.addl(A, R2), lo >> k, hi >> k
        g = min(((c & -c).bit_length() - 1) for c in B.values())
        if g:
            # common power of two
            B = {a: c >> g for a, c in B.items()}
            k2 = k - g
        else:
            k2 = k
        key = ('F', tuple(sorted(B.items(), key=repr)), k2)
        b0, b1 = self.lin_bounds(B)
        b0, b1 = b0 >> k2, b1 >> k2
        if not A:
            b0, b1 = max(b0, lo >> k), min(b1, hi >> k)
        else:
            # floor(B/2^k) = floor(S/2^k) - A
            b0, b1 = max(b0, (lo >> k) - ah), min(b1, (hi >> k) - al)
        if key in self.bounds:
            o0, o1 = self.bounds[key]
            b0, b1 = max(b0, o0), min(b1, o1)
        self.bounds[key] = (b0, b1)
        if b0 == b1:
            return self.addl(A, {ONE: b0} if b0 else {}), lo >> k, hi >> k
        return self.addl(A, {key: 1}), lo >> k, hi >> k

    def atom(self, t, hi):
        k = ('t', t.get_id())
        self.keep.append(t)
        if k not in self.bounds:
            self.bounds[k] = (0, hi)
        return {k: 1}, 0, hi

    def wrap(self, S, w, lo, hi):
        """S mod 2^w"""
        if lo >= 0 and hi < (1 << w):
            return S, lo, hi
        q, ql, qh = self.floor(S, w, lo, hi)
        R = self.addl(S, q, -(1 << w))
        if ql == qh:
            return R, lo - (ql << w), hi - (ql << w)
        return R, 0, (1 << w) - 1

    def extract(self, V, hi, lo):
        S, l, h = V
        if lo:
            S, l, h = self.floor(S, lo, l, h)
        return self.wrap(S, hi - lo + 1, l, h)

    def ind(self, c):
        """integer value of a Boolean term, 0 or 1"""
        k = ('b', c.get_id())
        if k in self.cache:
            return self.cache[k]
        d = c.decl().kind()
        r = None
        ch = c.children()
        if z3.is_true(c):
            r = ({ONE: 1}, 1, 1)
        elif z3.is_false(c):
            r = ({}, 0, 0)
        elif d == z3.Z3_OP_NOT:
            S, l, h = self.ind(ch[0])
            r = (self.addl({ONE: 1}, S, -1), 1 - h, 1 - l)
        elif d in (z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ):
            p, q = ch
            if d in (z3.Z3_OP_UGT, z3.Z3_OP_ULEQ):
                p, q = q, p
            w = p.sort().size()
            P, pl, ph = self.val(p)
            Q, ql, qh = self.val(q)
            F, fl, fh = self.floor(self.addl(P, Q, -1), w, pl - qh, ph - ql)
            S, l, h = self.scale(F, -1), -fh, -fl      # [p < q]
            if d in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ):
                S, l, h = self.addl({ONE: 1}, S, -1), 1 - h, 1 - l
            r = (S, max(l, 0), min(h, 1))
        elif d == z3.Z3_OP_EQ and z3.is_bv(ch[0]) and ch[0].sort().size() == 1:
            a, b = ch
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                S, l, h = self.val(a)
                r = (S, l, h) if b.as_long() else (self.addl({ONE: 1}, S, -1), 1 - h, 1 - l)
        if r is None:
            self.keep.append(c)
            self.conds[k] = c
            self.bounds[k] = (0, 1)
            r = ({k: 1}, 0, 1)
        self.cache[k] = r
        return r

    def bits(self, t, depth=0):
        """mask of the bits that may be set"""
        w = t.sort().size()
        full = (1 << w) - 1
        if z3.is_bv_value(t):
            return t.as_long()
        if depth > 40:
            return full
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_CONCAT:
            m = 0
            for c in ch:
                m = m << c.sort().size() | self.bits(c, depth + 1)
            return m
        if d == z3.Z3_OP_ITE:
            return self.bits(ch[1], depth + 1) | self.bits(ch[2], depth + 1)
        if d in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            m = 0
            for c in ch:
                m |= self.bits(c, depth + 1)
            return m
        if d == z3.Z3_OP_BAND:
            m = full
            for c in ch:
                m &= self.bits(c, depth + 1)
            return m
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return (self.bits(ch[0], depth + 1) >> lo) & full
        if d == z3.Z3_OP_ZERO_EXT:
            return self.bits(ch[0], depth + 1)
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            return (self.bits(ch[0], depth + 1) << min(w, ch[1].as_long())) & full
        if d == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            return self.bits(ch[0], depth + 1) >> min(w, ch[1].as_long())
        hi = self.val(t)[2]
        return full & ((1 << hi.bit_length()) - 1)

    def val(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        self.n += 1
        if self.n > self.limit:
            raise OverflowError
        r = self._val(t)
        self.cache[i] = r
        self.keep.append(t)
        return r

    def _val(self, t):
        w = t.sort().size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return ({ONE: v} if v else {}), v, v
        d = t.decl().kind()
        ch = t.children()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            S, lo, hi = self.val(ch[0])
            for c in ch[1:]:
                C, l, h = self.val(c)
                if d == z3.Z3_OP_BADD:
                    S = self.addl(S, C)
                    lo += l
                    hi += h
                else:
                    S = self.addl(S, C, -1)
                    lo -= h
                    hi -= l
            return self.wrap(S, w, lo, hi)
        if d == z3.Z3_OP_BNEG:
            S, l, h = self.val(ch[0])
            return self.wrap(self.scale(S, -1), w, -h, -l)
        if d == z3.Z3_OP_BNOT:
            S, l, h = self.val(ch[0])
            m = (1 << w) - 1
            return self.addl({ONE: m}, S, -1), m - h, m - l
        if d == z3.Z3_OP_BMUL:
            cs = [c for c in ch if z3.is_bv_value(c)]
            ns = [c for c in ch if not z3.is_bv_value(c)]
            if len(ns) == 1:
                k = 1
                for c in cs:
                    k = k * c.as_long() % (1 << w)
                S, l, h = self.val(ns[0])
                if k >> (w - 1) and (k != 1 << (w - 1)):
                    k -= 1 << w
                    return self.wrap(self.scale(S, k), w, k * h, k * l)
                return self.wrap(self.scale(S, k), w, k * l, k * h)
            return self.atom(t, (1 << w) - 1)
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            k = ch[1].as_long()
            if k >= w:
                return {}, 0, 0
            S, l, h = self.val(ch[0])
            return self.wrap(self.scale(S, 1 << k), w, l << k, h << k)
        if d == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            k = ch[1].as_long()
            if k >= w:
                return {}, 0, 0
            S, l, h = self.val(ch[0])
            return self.floor(S, k, l, h)
        if d == z3.Z3_OP_CONCAT:
            S, lo, hi = {}, 0, 0
            sh = w
            for c in ch:
                sh -= c.sort().size()
                C, l, h = self.val(c)
                S = self.addl(S, C, 1 << sh)
                lo += l << sh
                hi += h << sh
            return S, lo, hi
        if d == z3.Z3_OP_ZERO_EXT:
            return self.val(ch[0])
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return self.extract(self.val(ch[0]), hi, lo)
        if d == z3.Z3_OP_ITE and z3.is_bv_value(ch[1]) and z3.is_bv_value(ch[2]):
            a, b = ch[1].as_long(), ch[2].as_long()
            I, l, h = self.ind(ch[0])
            S = self.addl(self.scale(I, a - b), {ONE: b})
            S = {k: v for k, v in S.items() if v}
            return S, min(a, b), max(a, b)
        if d == z3.Z3_OP_ITE:
            # b + [c]*(a-b) with an opaque product
            A, B = self.val(ch[1]), self.val(ch[2])
            r = self.atom(t, max(A[2], B[2]))
            self.ites[('t', t.get_id())] = (ch[0], A[0], B[0])
            return r
        if d == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('mul') and len(ch) == 2:
            L = ch[0].sort().size()
            # congruence: products with equal factors are the same atom
            k = ('m', L) + tuple(tuple(sorted(self.val(c)[0].items(), key=repr)) for c in ch)
            h = ((1 << L) - 1) ** 2
            if k not in self.bounds:
                self.bounds[k] = (0, h)
            return {k: 1}, 0, h
        if d in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            # disjoint words: or is addition
            m, ok = 0, True
            for c in ch:
                b = self.bits(c)
                if m & b:
                    ok = False
                m |= b
            if ok:
                S, lo, hi = {}, 0, 0
                for c in ch:
                    C, l, h = self.val(c)
                    S = self.addl(S, C)
                    lo += l
                    hi += h
                return S, lo, min(hi, m)
        if d == z3.Z3_OP_BAND and len(ch) == 2:
            for m, x in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(m):
                    k = m.as_long() + 1
                    if k & (k - 1) == 0 and k > 1:
                        return self.extract(self.val(x), k.bit_length() - 2, 0)
        return self.atom(t, (1 << w) - 1)


def prove_eq(a, b):
    """True when a == b is valid at their common width"""
    n = RingNF()
    try:
        w = a.sort().size()
        A, _, _ = n.val(a)
        B, _, _ = n.val(b)
    except (OverflowError, RecursionError):
        return False
    D = n.addl(A, B, -1)
    return all(c % (1 << w) == 0 for c in D.values())


def prove(c):
    if z3.is_and(c):
        return all(prove(x) for x in c.children())
    if z3.is_eq(c) and z3.is_bv(c.children()[0]):
        return prove_eq(*c.children())
    return False


# ---- linear integer arithmetic ----------------------------------------------------------------
class Lia:
    """Translate bit-vector facts to linear integer constraints over the atoms of RingNF.
    Only facts that translate exactly are used; an unsat answer is therefore a proof."""

    def __init__(self):
        self.nf = RingNF(20000)
        self.vars = {}
        self.defs = []
        self.bools = {}

    def var(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        v = z3.Int('a%d' % len(self.vars))
        self.vars[a] = v
        lo, hi = self.nf.bounds[a]
        self.defs.append(v >= lo)
        self.defs.append(v <= hi)
        if a[0] == 'F':
            S = self.lin(dict(a[1]))
            m = 1 << a[2]
            self.defs.append(S >= m * v)
            self.defs.append(S < m * v + m)
        if a in self.nf.conds:
            self.defs.append(v == z3.If(self.cond(self.nf.conds[a]), z3.IntVal(1), z3.IntVal(0)))
        if a in self.nf.ites:
            c, x, y = self.nf.ites[a]
            self.defs.append(v == z3.If(self.cond(c), self.lin(x), self.lin(y)))
        return v

    def lin(self, L):
        r = None
        for a, c in L.items():
            t = z3.IntVal(c) if a == ONE else (self.var(a) if c == 1 else c * self.var(a))
            r = t if r is None else r + t
        return z3.IntVal(0) if r is None else r

    def cond(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        ch = c.children()
        if z3.is_and(c):
            return z3.And(*[self.cond(x) for x in ch])
        if z3.is_or(c):
            return z3.Or(*[self.cond(x) for x in ch])
        if z3.is_not(c):
            return z3.Not(self.cond(ch[0]))
        if z3.is_implies(c):
            return z3.Implies(self.cond(ch[0]), self.cond(ch[1]))
        d = c.decl().kind()
        if d == z3.Z3_OP_ITE:
            return z3.If(self.cond(ch[0]), self.cond(ch[1]), self.cond(ch[2]))
        if d == z3.Z3_OP_EQ:
            if z3.is_bool(ch[0]):
                return self.cond(ch[0]) == self.cond(ch[1])
            if z3.is_bv(ch[0]):
                return self.lin(self.nf.addl(self.nf.val(ch[0])[0], self.nf.val(ch[1])[0], -1)) == 0
        if d in (z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ):
            D = self.lin(self.nf.addl(self.nf.val(ch[0])[0], self.nf.val(ch[1])[0], -1))
            return {z3.Z3_OP_ULT: D < 0, z3.Z3_OP_UGT: D > 0, z3.Z3_OP_ULEQ: D <= 0,
                    z3.Z3_OP_UGEQ: D >= 0}[d]
        k = c.get_id()
        if k not in self.bools:
            self.bools[k] = (z3.Bool('c%d' % len(self.bools)), c)
        return self.bools[k][0]


def lia_prove(pc, c, timeout=3000, nf=None):
    """is c implied by pc?  True or False (= don't know)"""
    t = Lia()
    if nf is not None:
        nf.n = 0
        t.nf = nf
    try:
        fs = [t.cond(p) for p in pc]
        goals = c.children() if c is not False and z3.is_and(c) else [c]
        for g in goals:
            gt = z3.BoolVal(False) if g is False else t.cond(g)
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*fs)
            s.add(z3.Not(gt))
            s.add(*t.defs)
            if s.check() != z3.unsat:
                return False
            fs.append(gt)
    except (OverflowError, RecursionError):
        return False
    return True
