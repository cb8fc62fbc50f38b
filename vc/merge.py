"""Joining the paths of a symbolic two-way branch at its immediate post-dominator."""
import z3
import irload
import engine as E
from terms import *
from mem import Ptr, Obj, Undef


class PSel:
    """c ? a : b where a and b point into different objects"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class NIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, cx, off, n):
        k = cx.known(self.c)
        if k is True:
            return self.a.read(cx, off, n)
        if k is False:
            return self.b.read(cx, off, n)
        x, y = self.a.read(cx, off, n), self.b.read(cx, off, n)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                return Ptr(x.obj, ite(k, x.off, y.off, 64))
            return x if cx.decide(k) else y
        return ite(k, x, y, 8 * n)


class Refuse(Exception):
    pass


RET = -1


def pdoms(F):
    """block -> immediate post-dominator (RET = the function's return), along normal control flow;
    blocks that cannot return normally do not count"""
    r = getattr(F, 'ipdom', None)
    if r is not None:
        return r
    n = len(F.blocks)
    succ = {}
    for B in F.blocks:
        t = B.insts[-1]
        if t.op == 'ret':
            succ[B.idx] = [RET]
        elif t.op == 'invoke':
            succ[B.idx] = [t.x['normal']]
        elif t.op in ('br', 'switch'):
            succ[B.idx] = sorted(set(B.succs))
        else:
            succ[B.idx] = []
    # blocks that reach RET
    live = {RET}
    ch = True
    while ch:
        ch = False
        for b in succ:
            if b not in live and any(s in live for s in succ[b]):
                live.add(b)
                ch = True
    pd = {RET: {RET}}
    full = set(live)
    for b in live:
        if b != RET:
            pd[b] = full
    ch = True
    order = sorted((b for b in live if b != RET), reverse=True)
    while ch:
        ch = False
        for b in order:
            s = [pd[x] for x in succ[b] if x in live]
            new = set.intersection(*s) | {b}
            if new != pd[b]:
                pd[b] = new
                ch = True
    r = {}
    for b in order:
        cand = pd[b] - {b}
        # the immediate one is post-dominated by all the others
        best = max(cand, key=lambda x: len(pd[x]))
        r[b] = best
    try:
        F.ipdom = r
    except AttributeError:
        pass
    return r


def join_of(F, b):
    key = F.name
    j = pdoms(F).get(b)
    if j is None:
        return None
    L = irload.loops(F)
    if j != RET and j in L:
        return None
    for h, body in L.items():
        if b in body and (j == RET or j not in body):
            return None
    return j


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) is type(b) and a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    return False


def mval(e, c, a, b, ty):
    """c ? a : b as a register value"""
    if same(a, b):
        return a
    k = ty.kind
    if k == 'ptr':
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off, 64))
        if isinstance(a, (Ptr, PSel)) and isinstance(b, (Ptr, PSel)):
            return PSel(c, a, b)
        raise Refuse('pointer')
    if k == 'int':
        if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
            raise Refuse('pointer as integer')
        return iteb(c, a, b) if ty.bits == 1 else ite(c, a, b, ty.bits)
    if k == 'fp':
        return ite(c, a, b, ty.bits)
    if k == 'struct':
        return [mval(e, c, x, y, t) for x, y, t in zip(a, b, ty.elems)]
    return [mval(e, c, x, y, ty.elem) for x, y in zip(a, b)]


def mcell(e, c, a, b, n):
    if same(a, b):
        return a
    pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
    if pa or pb:
        if pa and pb and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off, 64))
        raise Refuse('pointer cell')
    return ite(c, a, b, 8 * n)


def mobj(e, st, c, x, y):
    if x is y:
        return x
    if not x.alive or not y.alive:
        if x.alive != y.alive:
            raise Refuse('lifetime')
        return x
    if not same(x.size, y.size) or x.align != y.align:
        raise Refuse('size')
    o = x.clone(st.owner)
    if x.base is not y.base:
        o.cells = {}
        o.maxw = 1
        o.base = NIte(c, x.flushed(), y.flushed())
        return o
    cx, cy = x.cells, y.cells
    out = {}
    iv = sorted(set([(k, k + v[0]) for k, v in cx.items()] + [(k, k + v[0]) for k, v in cy.items()]))
    # clusters of overlapping intervals
    i = 0
    maxw = 1
    while i < len(iv):
        lo, hi = iv[i]
        j = i + 1
        while j < len(iv) and iv[j][0] < hi:
            hi = max(hi, iv[j][1])
            j += 1
        n = hi - lo
        if j == i + 1 or n <= 64:
            a, b = x.read(e, lo, n), y.read(e, lo, n)
            out[lo] = (n, mcell(e, c, a, b, n))
            maxw = max(maxw, n)
        else:
            for k in range(lo, hi):
                out[k] = (1, mcell(e, c, e.as_int(x.read(e, k, 1), 1), e.as_int(y.read(e, k, 1), 1), 1))
        i = j
    o.cells = out
    o.maxw = max(o.maxw, x.maxw, y.maxw, maxw)
    return o


def conj(e, st, n0):
    return [c for c in st.pc[n0:] if c.get_id() not in st.drv and c.get_id() not in e.prodax]


def merge2(e, A, B, n0, phis, j):
    if len(A.frames) != len(B.frames) or len(A.log) != len(B.log) or len(A.ghosts) != len(B.ghosts) or \
            len(A.facts) != len(B.facts) or A.exc != B.exc or A.uncaught != B.uncaught or \
            len(A.caught) != len(B.caught) or len(A.hints) != len(B.hints) or len(A.trace) != len(B.trace) or \
            A.pending is not None or B.pending is not None:
        raise Refuse('state')
    for k in set(A.flags) | set(B.flags):
        if isinstance(k, tuple) and k[0] == 'prod' or k == 'exact':
            continue
        if k not in ('nf', 'modelpc') and A.flags.get(k) != B.flags.get(k):
            raise Refuse('flag ' + k)
    ea, eb = conj(e, A, n0), conj(e, B, n0)
    ida = {x.get_id() for x in ea}
    idb = {x.get_id() for x in eb}
    only_a = [x for x in ea if x.get_id() not in idb]
    only_b = [x for x in eb if x.get_id() not in ida]
    both = [x for x in ea if x.get_id() in idb]
    sel = None
    nb = {x.get_id() for x in only_b}
    for x in only_a:
        if simpb(not_(x)).get_id() in nb:
            sel = x
            break
    if sel is None:
        sel = bandl(only_a) if only_a else True
        sel = simpb(sel)
        if isinstance(sel, bool):
            raise Refuse('selector')
    M = A.clone()
    e.cur = M
    for k in set(A.mem) | set(B.mem):
        x, y = A.mem.get(k), B.mem.get(k)
        if x is y:
            continue
        if x is None or y is None:
            g = e.gobj.get(k)
            if g is not None:
                x = x or g
                y = y or g
            else:
                z = x or y
                if z.alive and z.kind == 'heap':
                    raise Refuse('allocation')
                M.mem[k] = z
                continue
        M.mem[k] = mobj(e, M, sel, x, y)
    fr, fb = M.frames[-1], B.frames[-1]
    if j == RET:
        if A.ret is not None and phis is not None:
            M.ret = mval(e, sel, A.ret, B.ret, phis)
    else:
        for p in phis:
            fr.regs[p.dst] = mval(e, sel, fr.regs[p.dst], fb.regs[p.dst], p.ty)
    for f, g in zip(M.frames, B.frames):
        f.allocas = f.allocas + [a for a in g.allocas if a not in f.allocas]
    pre = A.pc[:n0]
    M.pc, M.pcset, M.pcid = [], set(), 0
    for x in pre:
        e.push_pc(M, x)
    for x in A.pc[n0:] + B.pc[n0:]:
        if x.get_id() in e.prodax:
            e.assume(M, x)
    for k, v in B.flags.items():
        if isinstance(k, tuple) and k[0] == 'prod':
            M.flags[k] = v
        elif k == 'exact':
            M.flags[k] = tuple(dict((x.get_id(), x) for x in M.flags.get('exact', ()) + v).values())
    M.drv = {x.get_id() for x in pre if x.get_id() in A.drv}
    for x in both:
        e.assume(M, x)
    # derived facts both paths know stay known
    db = {x.get_id() for x in B.pc[n0:]}
    for x in A.pc[n0:]:
        if x.get_id() in db:
            e.assume(M, x, x.get_id() in A.drv and x.get_id() in B.drv)
    # the defining conditions of both paths, beyond their selector
    ra = [x for x in only_a if x is not sel]
    ns = simpb(not_(sel))
    rb = [x for x in only_b if x.get_id() != (ns.get_id() if not isinstance(ns, bool) else -1)]
    if any(x is sel for x in only_a) or len(only_a) != len(ra):
        for x in ra:
            e.assume(M, bor(ns, x))
        for x in rb:
            e.assume(M, bor(sel, x))
    else:
        # sel is the whole condition of A
        e.assume(M, bor(sel, bandl(rb) if rb else True))
    M.flags['nf'] = max(A.flags.get('nf', 0), B.flags.get('nf', 0))
    if A.writes is not None or B.writes is not None:
        M.writes = (A.writes or set()) | (B.writes or set())
    M.model = None
    return M


def merge_branch(e, st, fr, k, t, f):
    """explore both sides of an undecided branch up to its join; True when handled"""
    F = fr.fn
    j = join_of(F, fr.bi)
    if j is None:
        return False
    depth = len(st.frames)
    n0 = len(st.pc)
    outs = []
    st.flags['nf'] = st.flags.get('nf', 0) + 1
    save_extra = getattr(e, '_extra', None)
    e._extra = []
    for c, target in ((k, t), (not_(k), f)):
        s = st.clone()
        e.cur = s
        s.stops.append(('join', depth, j))
        try:
            e.assume(s, c)
            e.goto(s, target)
        except E.PathEnd:
            if s.why is None:
                s.why = 'dead'
            outs.append(s)
            continue
        outs.extend(e.explore([s]))
    e._extra = save_extra
    e.cur = st
    joined = [o for o in outs if o.why == 'join']
    rest = [o for o in outs if o.why == 'exit']
    if j == RET:
        phis = F.retty if F.retty is not None and F.retty.kind != 'void' else None
    else:
        B = F.blocks[j]
        phis = B.insts[:B.nphi]
    acc = []
    for o in joined:
        o.why = None
        for i, a in enumerate(acc):
            try:
                acc[i] = merge2(e, a, o, n0, phis, j)
                e.stats['merges'] = e.stats.get('merges', 0) + 1
                break
            except Refuse:
                pass
        else:
            acc.append(o)
    work = []
    for s in acc:
        if j == RET:
            # continue at the return
            e.cur = s
            try:
                e.do_return(s, s.ret)
            except E.PathEnd:
                if s.why == 'ret' or s.why == 'join' or s.why == 'exit' or s.why == 'back' or s.why == 'end':
                    pass
                s.flags['fin'] = True
        elif s.stops and s.stops[-1] == ('join', depth, j):
            # the enclosing branch joins at the same block
            s.stops.pop()
            s.why = 'join'
            s.flags['fin'] = True
        work.append(s)
    e._extra = getattr(e, '_extra', None) or []
    for s in work:
        e._extra.append(s)
    for s in rest:
        e._extra.append(s)
    st.why = 'cut'
    return True


def resolve(e, p):
    while isinstance(p, PSel):
        p = p.a if e.decide(p.c) else p.b
    return p


def load_sel(e, st, p, ty):
    """load through a conditional pointer; forks unless both sides are plainly accessible"""
    def ok(q):
        if isinstance(q, PSel):
            return ok(q.a) and ok(q.b)
        if q.obj == 0 or not isinstance(q.off, int):
            return False
        o = e.obj(st, q.obj)
        return o is not None and o.alive and o.kind != 'fn' and isinstance(o.size, int) and q.off + ty.store <= o.size

    def rd(q):
        if isinstance(q, PSel):
            k = e.known(q.c)
            if k is True:
                return rd(q.a)
            if k is False:
                return rd(q.b)
            a, b = rd(q.a), rd(q.b)
            return iteb(k, a, b) if ty.bits == 1 else ite(k, a, b, ty.bits)
        return e.load(st, q, ty)
    if ty.kind in ('int', 'fp') and ok(p):
        return rd(p)
    return e.load(st, resolve(e, p), ty)
