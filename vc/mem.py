"""Byte-addressed objects with a functional history of updates (no quantifiers, no bound on size)."""
import z3
from terms import *


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(0, 0)


class Undef:
    __slots__ = ()


UNDEF = Undef()


# ---- base nodes -----------------------------------------------------------
class NUndef:
    __slots__ = ('oid', 'arr', 'cache')

    def __init__(self, oid):
        self.oid, self.arr, self.cache = oid, None, {}

    def read(self, cx, off, n):
        if isinstance(off, int):
            k = (off, n)
            r = self.cache.get(k)
            if r is None:
                bs = []
                for i in range(n):
                    b = self.cache.get((off + i, 1))
                    if b is None:
                        b = z3.BitVec('undef_%s_%d' % (self.oid, off + i), 8)
                        self.cache[(off + i, 1)] = b
                    bs.append((b, 8))
                r = concat(bs[::-1])
                self.cache[k] = r
            return r
        return cx.fresh(8 * n, 'undef')


class NZero:
    __slots__ = ()

    def read(self, cx, off, n):
        return 0


class NArr:
    """symbolic content: an array of ew-byte words"""
    __slots__ = ('arr', 'ew', 'obj')

    def __init__(self, arr, ew, obj=None):
        self.arr, self.ew, self.obj = arr, ew, obj

    def word(self, idx):
        return z3.Select(self.arr, bv(idx, 64))

    def read(self, cx, off, n):
        ew = self.ew
        if self.obj is not None:
            # array of pointers, every one of them null or a given pointer: not supported here
            pass
        if ew == 1:
            if n == 1:
                return self.word(simp(off))
            return concat([(self.word(simp(add(off, i, 64))), 8) for i in range(n)][::-1])
        k = ew.bit_length() - 1
        if n % ew == 0 and low_zero(off, k):
            i0 = simp(lshr(off, k, 64))
            return concat([(self.word(simp(add(i0, i, 64))), 8 * ew) for i in range(n // ew)][::-1])
        if isinstance(off, int) or n == 1 or low_zero(off, n.bit_length() - 1):
            if isinstance(off, int):
                w0, w1 = off // ew, (off + n - 1) // ew
                t = concat([(self.word(i), 8 * ew) for i in range(w0, w1 + 1)][::-1])
                s = off - w0 * ew
                return extract(t, 8 * (s + n) - 1, 8 * s)
            if (n & (n - 1)) == 0 and n < ew:
                w = self.word(simp(lshr(off, k, 64)))
                kn = n.bit_length() - 1
                lo = extract(off, k - 1, kn)
                r = extract(w, 8 * n - 1, 0)
                for j in range(1, ew // n):
                    r = ite(eq(lo, j, k - kn), extract(w, 8 * n * (j + 1) - 1, 8 * n * j), r, 8 * n)
                return r
        bs = [(self.read(cx, simp(add(off, i, 64)), 1), 8) for i in range(n)]
        return concat(bs[::-1])


class NStore:
    __slots__ = ('off', 'n', 'val', 'prev')

    def __init__(self, off, n, val, prev):
        self.off, self.n, self.val, self.prev = off, n, val, prev

    def read(self, cx, off, n):
        node = self
        # iterative walk with pending ites
        conds = []
        while isinstance(node, NStore):
            d = simp(sub(off, node.off, 64))
            sn = node.n
            if isinstance(d, int):
                if d == 0 and n == sn:
                    return self._wrap(cx, conds, node.val, n)
                ds = sgn(d, 64)
                if ds >= sn or ds + n <= 0:
                    node = node.prev
                    continue
                if 0 <= ds and ds + n <= sn and not isinstance(node.val, Ptr):
                    return self._wrap(cx, conds, extract(node.val, 8 * (ds + n) - 1, 8 * ds), n)
                return self._wrap(cx, conds, self._bytes(cx, node, off, n), n)
            if n == sn:
                k = n.bit_length() - 1
                if (n & (n - 1)) == 0 and low_zero(off, k) and low_zero(node.off, k):
                    c = cx.known(eq(off, node.off, 64))
                    if c is True:
                        return self._wrap(cx, conds, node.val, n)
                    if c is not False:
                        if isinstance(node.val, Ptr):
                            if cx.decide(c):
                                return self._wrap(cx, conds, node.val, n)
                        else:
                            conds.append((c, node.val))
                    node = node.prev
                    continue
                if n == 1:
                    c = cx.known(eq(off, node.off, 64))
                    if c is True:
                        return self._wrap(cx, conds, node.val, n)
                    if c is not False:
                        conds.append((c, node.val))
                    node = node.prev
                    continue
            # disjoint?
            dj = cx.known(bor(ule(add(node.off, sn, 64), off, 64), ule(add(off, n, 64), node.off, 64)))
            if dj is True:
                node = node.prev
                continue
            if n == 1 and not isinstance(node.val, Ptr):
                c = cx.known(ult(d, sn, 64))
                if c is False:
                    node = node.prev
                    continue
                v = extract(node.val, 7, 0)
                for j in range(1, sn):
                    v = ite(eq(d, j, 64), extract(node.val, 8 * j + 7, 8 * j), v, 8)
                if c is True:
                    return self._wrap(cx, conds, v, n)
                conds.append((c, v))
                node = node.prev
                continue
            return self._wrap(cx, conds, self._bytes(cx, node, off, n), n)
        return self._wrap(cx, conds, node.read(cx, off, n), n)

    @staticmethod
    def _bytes(cx, node, off, n):
        if n == 1:
            # pointer byte
            v = cx.ptr2int(node.val) if isinstance(node.val, Ptr) else node.val
            d = simp(sub(off, node.off, 64))
            if isinstance(d, int):
                return extract(v, 8 * d + 7, 8 * d)
            r = node.prev.read(cx, off, 1)
            for j in range(node.n):
                r = ite(eq(d, j, 64), extract(v, 8 * j + 7, 8 * j), r, 8)
            return r
        return concat([(node.read(cx, simp(add(off, i, 64)), 1), 8) for i in range(n)][::-1])

    @staticmethod
    def _wrap(cx, conds, v, n):
        if conds:
            if isinstance(v, Ptr):
                v = cx.ptr2int(v)
            for c, x in reversed(conds):
                v = ite(c, x, v, 8 * n)
        return v


class NRange:
    """bytes [off, off+len) come from elsewhere; the rest from prev"""
    __slots__ = ('off', 'len', 'prev')

    def inner(self, cx, rel, n):
        raise NotImplementedError

    def read(self, cx, off, n):
        rel = simp(sub(off, self.off, 64))
        # wholly inside / outside?
        if n == 1:
            c = cx.known(ult(rel, self.len, 64))
            if c is True:
                return self.inner(cx, rel, 1)
            if c is False:
                return self.prev.read(cx, off, 1)
            return ite(c, cx.as_int(self.inner(cx, rel, 1), 1), cx.as_int(self.prev.read(cx, off, 1), 1), 8)
        ln = self.len
        inside = band(ule(n, ln, 64), ule(rel, sub(ln, n, 64), 64))
        c = cx.known(inside)
        if c is True:
            return self.inner(cx, rel, n)
        outside = bor(eq(ln, 0, 64), bor(ule(add(off, n, 64), self.off, 64), ule(add(self.off, ln, 64), off, 64)))
        o = cx.known(outside)
        if o is True:
            return self.prev.read(cx, off, n)
        k = n.bit_length() - 1
        if (n & (n - 1)) == 0 and low_zero(rel, k) and low_zero(ln, k) and low_zero(off, k):
            a = self.inner(cx, rel, n)
            b = self.prev.read(cx, off, n)
            cc = ult(rel, ln, 64)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return a if cx.decide(cc) else b
            return ite(cc, a, b, 8 * n)
        return concat([(cx.as_int(self.read(cx, simp(add(off, i, 64)), 1), 1), 8) for i in range(n)][::-1])


class NCopy(NRange):
    __slots__ = ('src', 'soff')

    def __init__(self, off, ln, src, soff, prev):
        self.off, self.len, self.src, self.soff, self.prev = off, ln, src, soff, prev

    def inner(self, cx, rel, n):
        return self.src.read(cx, simp(add(self.soff, rel, 64)), n)


class NSet(NRange):
    __slots__ = ('byte',)

    def __init__(self, off, ln, byte, prev):
        self.off, self.len, self.byte, self.prev = off, ln, byte, prev

    def inner(self, cx, rel, n):
        if isinstance(self.byte, int):
            return int.from_bytes(bytes([self.byte]) * n, 'little')
        return concat([(self.byte, 8)] * n)


class NHavoc(NRange):
    __slots__ = ('arr',)

    def __init__(self, off, ln, arr, prev):
        self.off, self.len, self.arr, self.prev = off, ln, arr, prev

    def inner(self, cx, rel, n):
        return self.arr.read(cx, rel, n)


class Obj:
    __slots__ = ('id', 'size', 'align', 'kind', 'alive', 'name', 'cells', 'base', 'owner', 'ro', 'maxw')

    def __init__(self, id, size, align, kind, name, base, owner=None):
        self.id, self.size, self.align, self.kind, self.name = id, size, align, kind, name
        self.alive = True
        self.cells = {}
        self.base = base
        self.owner = owner
        self.ro = False
        self.maxw = 1

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.size, o.align, o.kind, o.name = self.id, self.size, self.align, self.kind, self.name
        o.alive, o.base, o.ro, o.maxw = self.alive, self.base, self.ro, self.maxw
        o.cells = dict(self.cells)
        o.owner = owner
        return o

    # -- reading -----------------------------------------------------------
    def read(self, cx, off, n):
        cells = self.cells
        if not cells:
            return self.base.read(cx, off, n)
        if isinstance(off, int):
            c = cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            # any overlap?
            lap = False
            for s in range(off - self.maxw + 1, off + n):
                c = cells.get(s)
                if c is not None and s + c[0] > off:
                    lap = True
                    break
            if not lap:
                return self.base.read(cx, off, n)
            parts = []   # least significant first
            p = off
            end = off + n
            while p < end:
                cov = None
                for s in range(p - self.maxw + 1, p + 1):
                    c = cells.get(s)
                    if c is not None and s + c[0] > p:
                        cov = (s, c)
                        break
                if cov:
                    s, (cn, cv) = cov
                    e = min(end, s + cn)
                    v = cx.as_int(cv, cn)
                    parts.append((extract(v, 8 * (e - s) - 1, 8 * (p - s)), 8 * (e - p)))
                    p = e
                else:
                    e = p + 1
                    while e < end and e not in cells:
                        e += 1
                    parts.append((cx.as_int(self.base.read(cx, p, e - p), e - p), 8 * (e - p)))
                    p = e
            r = concat(parts[::-1])
            return r
        # symbolic offset over cells
        return self.flushed().read(cx, off, n)

    def flushed(self):
        """the content as a node chain"""
        b = self.base
        for o in sorted(self.cells):
            n, v = self.cells[o]
            b = NStore(o, n, v, b)
        return b

    def flush(self):
        if self.cells:
            self.base = self.flushed()
            self.cells = {}
            self.maxw = 1

    # -- writing (self must be owned) ----------------------------------------
    def clear(self, cx, off, n):
        """remove/trim cells overlapping [off, off+n)"""
        cells = self.cells
        if n > 64 and len(cells) < n:
            todo = [s for s in cells if s < off + n and s + cells[s][0] > off]
        else:
            todo = []
            for s in range(off - self.maxw + 1, off + n):
                c = cells.get(s)
                if c is not None and s + c[0] > off:
                    todo.append(s)
        for s in todo:
            cn, cv = cells.pop(s)
            if s < off:
                v = cx.as_int(cv, cn)
                cells[s] = (off - s, extract(v, 8 * (off - s) - 1, 0))
            if s + cn > off + n:
                v = cx.as_int(cv, cn)
                k = off + n - s
                cells[off + n] = (cn - k, extract(v, 8 * cn - 1, 8 * k))

    def write(self, cx, off, n, val):
        if isinstance(off, int):
            c = self.cells.get(off)
            if c is None or c[0] != n:
                self.clear(cx, off, n)
                if n > self.maxw:
                    self.maxw = n
            self.cells[off] = (n, val)
        else:
            self.flush()
            self.base = NStore(off, n, val, self.base)
