"""Harness primitives and contracts of external (C/C++ runtime) functions."""
import re
import z3
from terms import *
from mem import *
import engine as E

B = {}


def bi(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f
    return d


PATTERNS = []


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


_cache = {}


def builtins_get(name):
    f = B.get(name)
    if f is not None:
        return f
    if name in _cache:
        return _cache[name]
    r = None
    for rx, f in PATTERNS:
        if rx.match(name):
            r = f
            break
    _cache[name] = r
    return r


def cstr(e, st, p):
    o = e.obj(st, p.obj)
    s = b''
    i = p.off
    while True:
        c = o.read(e, i, 1)
        if not isinstance(c, int):
            raise E.Unsupported('symbolic string')
        if c == 0:
            return s.decode('latin1')
        s += bytes([c])
        i += 1


# ------------------------------------------------------------------ harness primitives
def nondet(w):
    def f(e, st, I, a):
        n = cstr(e, st, a[0])
        v = e.freshb(n) if w == 1 else e.fresh(w, n)
        st.log.append(('int', n, v))
        return v
    return f


B['vc_u8'] = nondet(8)
B['vc_u16'] = nondet(16)
B['vc_u32'] = nondet(32)
B['vc_u64'] = nondet(64)
B['vc_bool'] = nondet(1)


@bi('vc_len')
def vc_len(e, st, I, a):
    n = cstr(e, st, a[0])
    v = e.fresh(64, n)
    st.log.append(('len', n, v))
    e.assume(st, z3.ULE(v, 1 << 40))
    return v


@bi('vc_ghost_u64')
def vc_ghost_u64(e, st, I, a):
    return e.fresh(64, 'ghost')


@bi('vc_witness_set')
def vc_witness_set(e, st, I, a):
    """record (inside an invariant hint) a value usable as an existential witness after the loop"""
    if not isinstance(a[0], int):
        raise E.Unsupported('witness slot')
    e.witness[a[0]] = a[1]
    return None


@bi('vc_witness_get')
def vc_witness_get(e, st, I, a):
    w = st.flags.get('witness', {})
    return w[a[0]] if a[0] in w else e.fresh(64, 'witness')


@bi('vc_is_symbolic')
def vc_is_symbolic(e, st, I, a):
    return True


@bi('vc_assume')
def vc_assume(e, st, I, a):
    c = simpb(a[0])
    if c is True:
        return None
    if c is False:
        raise E.PathEnd()
    if not e.feasible(st, c):
        raise E.PathEnd()
    e.assume(st, c)
    return None


@bi('vc_assert')
def vc_assert(e, st, I, a):
    name = cstr(e, st, a[1])
    e.oblige(st, a[0], name, 'contract')
    return None


@bi('vc_cover')
def vc_cover(e, st, I, a):
    name = cstr(e, st, a[0])
    if not e.dry and not e.predmode:
        if not e.covers.get(name):
            r, _ = e.check(st.pc)
            e.covers[name] = r != 'unsat'
    return None


@bi('vc_end')
def vc_end(e, st, I, a):
    st.why = 'end'
    raise E.PathEnd()


@bi('vc_config')
def vc_config(e, st, I, a):
    k = cstr(e, st, a[0])
    v = a[1]
    if k == 'limb':
        e.limb = v or None
    elif k == 'merge':
        e.merge = bool(v)
    elif k == 'unfold':
        e.unfold = v
    elif k == 'unwind':
        e.unwind = v
    elif k == 'ob_timeout':
        e.ob_timeout = v
    elif k == 'q_timeout':
        e.q_timeout = v
    elif k == 'alloc_may_fail':
        st.flags['amf'] = v
    elif k == 'leakbase':
        st.flags['leakbase'] = e.next_id
    else:
        st.flags['cfg_' + k] = v
    return None


def _newbytes(e, st, n, ew, align, name):
    n = simp(n)
    arr = z3.Array('%s!arr%d' % (name, e.next_id), z3.BitVecSort(64), z3.BitVecSort(8 * ew))
    p = e.new_obj(st, n, align, 'sym', name, NArr(arr, ew))
    st.log.append(('bytes', name, (n, arr, ew)))
    return p


@bi('vc_bytes')
def vc_bytes(e, st, I, a):
    n, ew, align = a[0], a[1], a[2]
    return _newbytes(e, st, n, ew, align, cstr(e, st, a[3]))


@bi('vc_havoc')
def vc_havoc(e, st, I, a):
    p, n, name = a[0], simp(a[1]), cstr(e, st, a[2])
    if n == 0:
        return None
    e.access(st, p, n, 'havoc', True)
    o = e.wobj(st, p.obj)
    if st.writes is not None:
        st.writes.add((p.obj, None, 0))
    if isinstance(n, int) and n <= 256 and isinstance(p.off, int):
        arr = z3.Array('%s!arr%d' % (name, e.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
        e.fresh_n += 1
        vals = []
        pos = 0
        while pos < n:
            k = min(8, n - pos)
            while k & (k - 1):
                k -= 1
            v = concat([(z3.Select(arr, z3.BitVecVal(pos + i, 64)), 8) for i in range(k)][::-1])
            o.write(e, p.off + pos, k, v)
            pos += k
        st.log.append(('bytes', name, (n, arr, 1)))
        return None
    arr = z3.Array('%s!arr%d' % (name, e.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
    e.fresh_n += 1
    o.flush()
    o.base = NHavoc(p.off, n, NArr(arr, 1), o.base)
    st.log.append(('bytes', name, (n, arr, 1)))
    return None


@bi('vc_hint0', 'vc_hint_u64', 'vc_hint_ptr', 'vc_hint_obj2', 'vc_hint2_u64', 'vc_hint2_ptr')
def vc_hint(e, st, I, a):
    callee = I.x['callee'].v.name
    F = e.idfn[a[0].obj]
    if callee == 'vc_hint_obj2':
        F = (F, a[1])
    st.hints.append((callee[7:].lstrip('_') if callee != 'vc_hint0' else '0', F))
    return None


@bi('vc_atomic_hooks')
def vc_atomic_hooks(e, st, I, a):
    st.flags['athooks'] = (e.idfn[a[0].obj], e.idfn[a[1].obj])
    return None


@bi('vc_guard')
def vc_guard(e, st, I, a):
    st.flags['guards'] = st.flags.get('guards', ()) + ((a[0].obj, a[0].off, a[1], a[2]),)
    return None


@bi('vc_guards')
def vc_guards(e, st, I, a):
    st.flags['guardon'] = bool(a[0])
    return None


@bi('vc_ite')
def vc_ite(e, st, I, a):
    c = a[0]
    if isinstance(c, (int, bool)):
        return a[1] if c & 1 else a[2]
    return ite(c, a[1], a[2], 64)


@bi('vc_clear_hints')
def vc_clear_hints(e, st, I, a):
    st.hints = []
    return None


@bi('vc_instantiate')
def vc_instantiate(e, st, I, a):
    p = a[0]
    add_ghost(e, st, p)
    return None


@bi('vc_same_object')
def vc_same_object(e, st, I, a):
    return a[0].obj == a[1].obj


@bi('vc_live_heap')
def vc_live_heap(e, st, I, a):
    n = 0
    lb = st.flags.get('leakbase', 0)
    for oid, o in st.mem.items():
        if o.kind == 'heap' and o.alive and oid >= lb and o.name != 'exc':
            n += 1
    return n


@bi('vc_is_live')
def vc_is_live(e, st, I, a):
    o = e.obj(st, a[0].obj)
    return bool(o is not None and o.alive)


@bi('vc_obj_size')
def vc_obj_size(e, st, I, a):
    o = e.obj(st, a[0].obj)
    return o.size if o is not None else 0


@bi('vc_obj_offset')
def vc_obj_offset(e, st, I, a):
    return a[0].off


@bi('vc_obj_align')
def vc_obj_align(e, st, I, a):
    return e.obj(st, a[0].obj).align


@bi('vc_alloc')
def vc_alloc(e, st, I, a):
    return e.new_obj(st, simp(a[0]), a[1], 'heap', 'malloc')


@bi('llvm.threadlocal.address.p0')
def l_tls(e, st, I, a):
    return a[0]         # one thread


@bi('vc_known')
def vc_known(e, st, I, a):
    """split the path on a condition (a hint only)"""
    return e.decide(a[0])


@bi('vc_trace')
def vc_trace(e, st, I, a):
    st.trace.append(cstr(e, st, a[0]))
    return None


# ------------------------------------------------------------------ ghost addresses / universal facts
def add_ghost(e, st, p):
    for g in st.ghosts:
        if g.obj == p.obj:
            d = simp(sub(g.off, p.off, 64))
            if d == 0:
                return
    st.ghosts.append(p)
    for anchors, inst in list(st.facts):
        for oid, start in anchors:
            if oid == p.obj:
                e.assume(st, inst(simp(sub(p.off, start, 64))))


def add_fact(e, st, anchors, inst):
    st.facts.append((anchors, inst))
    for g in list(st.ghosts):
        for oid, start in anchors:
            if oid == g.obj:
                e.assume(st, inst(simp(sub(g.off, start, 64))))


# ------------------------------------------------------------------ memory intrinsics
@pat(r'llvm\.memcpy\.|llvm\.memmove\.')
def i_memcpy(e, st, I, a):
    n = a[2]
    e.memcpy(st, a[0], a[1], n)
    return None


@bi('memcpy', 'memmove')
def l_memcpy(e, st, I, a):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@pat(r'llvm\.memset\.')
def i_memset(e, st, I, a):
    e.memset(st, a[0], a[1], a[2])
    return None


@bi('memset')
def l_memset(e, st, I, a):
    e.memset(st, a[0], trunc(a[1], 32, 8), a[2])
    return a[0]


def content(e, st, p):
    return e.snapshot(st, e.obj(st, p.obj))


def rd(e, c, off):
    v = c.read(e, simp(off), 1)
    return e.as_int(v, 1)


@bi('memcmp', 'bcmp')
def l_memcmp(e, st, I, a):
    p, q, n = a[0], a[1], simp(a[2])
    if n == 0:
        return 0
    if not isinstance(n, int) and (p.obj == 0 or q.obj == 0):
        if e.decide(eq(n, 0, 64)):
            return 0
    e.access(st, p, n, 'memcmp left')
    e.access(st, q, n, 'memcmp right')
    cp, cq = content(e, st, p), content(e, st, q)
    if isinstance(n, int) and n <= 64:
        r = 0
        for i in range(n - 1, -1, -1):
            x, y = rd(e, cp, add(p.off, i, 64)), rd(e, cq, add(q.off, i, 64))
            r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), MASK[32], 1, 32), 32)
        return r
    iseq = e.decide_fresh(st, I, 'memcmp_eq')
    if iseq:
        def inst(j, n=n):
            return bor(not_(ult(j, n, 64)),
                       eq(rd(e, cp, add(p.off, j, 64)), rd(e, cq, add(q.off, j, 64)), 8))
        add_fact(e, st, [(p.obj, p.off), (q.obj, q.off)], inst)
        return 0
    w = e.fresh(64, 'memcmp_diff')
    e.assume(st, ult(w, n, 64))
    x, y = rd(e, cp, add(p.off, w, 64)), rd(e, cq, add(q.off, w, 64))
    e.assume(st, not_(eq(x, y, 8)))

    def inst2(j):
        return bor(not_(ult(j, w, 64)),
                   eq(rd(e, cp, add(p.off, j, 64)), rd(e, cq, add(q.off, j, 64)), 8))
    add_fact(e, st, [(p.obj, p.off), (q.obj, q.off)], inst2)
    add_ghost(e, st, Ptr(p.obj, simp(add(p.off, w, 64))))
    add_ghost(e, st, Ptr(q.obj, simp(add(q.off, w, 64))))
    return ite(ult(x, y, 8), MASK[32], 1, 32)


@bi('memchr')
def l_memchr(e, st, I, a):
    p, c, n = a[0], trunc(a[1], 32, 8), simp(a[2])
    if n == 0:
        return NULL
    if not isinstance(n, int) and p.obj == 0:
        if e.decide(eq(n, 0, 64)):
            return NULL
    e.access(st, p, n, 'memchr')
    cp = content(e, st, p)
    if e.decide_fresh(st, I, 'memchr_found'):
        w = e.fresh(64, 'memchr_at')
        e.assume(st, ult(w, n, 64))
        e.assume(st, eq(rd(e, cp, add(p.off, w, 64)), c, 8))
        lim = w
        r = Ptr(p.obj, simp(add(p.off, w, 64)))
        add_ghost(e, st, r)
    else:
        lim = n
        r = NULL

    def inst(j):
        return bor(not_(ult(j, lim, 64)), not_(eq(rd(e, cp, add(p.off, j, 64)), c, 8)))
    add_fact(e, st, [(p.obj, p.off)], inst)
    return r


@bi('strlen')
def l_strlen(e, st, I, a):
    p = a[0]
    o = e.access(st, p, 1, 'strlen')
    if isinstance(p.off, int):
        n = 0
        while True:
            b = o.read(e, p.off + n, 1)
            if not isinstance(b, int):
                break
            if b == 0:
                return n
            n += 1
    cp = content(e, st, p)
    w = e.fresh(64, 'strlen')
    e.assume(st, ult(add(p.off, w, 64), o.size, 64))
    e.assume(st, ult(w, 1 << 47, 64))
    e.assume(st, eq(rd(e, cp, add(p.off, w, 64)), 0, 8))

    def inst(j):
        return bor(not_(ult(j, w, 64)), not_(eq(rd(e, cp, add(p.off, j, 64)), 0, 8)))
    add_fact(e, st, [(p.obj, p.off)], inst)
    add_ghost(e, st, Ptr(p.obj, simp(add(p.off, w, 64))))
    if not e.feasible(st, True):
        raise E.PathEnd()
    return w


def decide_fresh(self, st, I, name):
    """a nondeterministic two-way choice made by an external function"""
    key = ('choice', id(I), len(st.trace))
    b = st.flags.get(key)
    if b is None:
        b = self.freshb(name)
        st.flags[key] = b
    if b.get_id() in st.pcset:
        r = True
    elif z3.Not(b).get_id() in st.pcset or any(z3.is_not(t) and t.arg(0).eq(b) for t in st.pc[-4:]):
        r = False
    else:
        r = self.decide(b)
    del st.flags[key]
    st.trace.append(None)
    return r


E.Engine.decide_fresh = decide_fresh


# ------------------------------------------------------------------ heap
@bi('_Znwm', '_Znam')
def l_new(e, st, I, a):
    n = simp(a[0])
    if st.flags.get('amf'):
        if e.decide_fresh(st, I, 'bad_alloc'):
            raise E.CppThrow('_ZTISt9bad_alloc')
    if isinstance(n, int):
        if n > 1 << 47:
            raise E.CppThrow('_ZTISt9bad_alloc')
    elif not e.decide(ule(n, 1 << 46, 64)):
        raise E.CppThrow('_ZTISt9bad_alloc')
    return e.new_obj(st, n, 16, 'heap', 'new')


@bi('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def l_new_nt(e, st, I, a):
    n = simp(a[0])
    if st.flags.get('amf') and e.decide_fresh(st, I, 'bad_alloc'):
        return NULL
    return e.new_obj(st, n, 16, 'heap', 'new')


@bi('_ZnwmSt11align_val_t')
def l_new_al(e, st, I, a):
    return e.new_obj(st, simp(a[0]), a[1], 'heap', 'new')


@bi('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', 'free')
def l_delete(e, st, I, a):
    p = a[0]
    if p.obj == 0:
        if isinstance(p.off, int) and p.off == 0:
            return None
        e.oblige(st, eq(p.off, 0, 64), e.at(st, 'deallocated pointer is valid'), 'memory')
        return None
    o = e.obj(st, p.obj)
    ok = o is not None and o.alive and o.kind == 'heap'
    e.oblige(st, band(ok, eq(p.off, 0, 64)),
             e.at(st, 'deallocated pointer is a live allocation'), 'memory')
    o = e.wobj(st, p.obj)
    want = 'malloc' if I.x['callee'].v.name == 'free' else 'new'
    e.oblige(st, o.name == want or o.name == 'exc', e.at(st, 'deallocation matches allocation'), 'memory')
    o.alive = False
    return None


@bi('malloc')
def l_malloc(e, st, I, a):
    if e.decide_fresh(st, I, 'enomem'):
        return NULL
    return e.new_obj(st, simp(a[0]), 16, 'heap', 'malloc')


@bi('__cxa_allocate_exception')
def l_alloc_exc(e, st, I, a):
    return e.new_obj(st, simp(a[0]), 16, 'heap', 'exc')


@bi('__cxa_free_exception')
def l_free_exc(e, st, I, a):
    return None


@bi('__cxa_throw')
def l_throw(e, st, I, a):
    p, ti = a[0], a[1]
    name = e.obj(st, ti.obj).name
    st.tmap[p.obj] = name
    e.throw(st, (p, name))
    return E.NORET


@bi('__cxa_begin_catch')
def l_begin_catch(e, st, I, a):
    p = a[0]
    st.caught.append((Ptr(p.obj, 0), st.tmap.get(p.obj)))
    st.uncaught -= 1
    return p


@bi('__cxa_get_exception_ptr')
def l_get_exc(e, st, I, a):
    return a[0]


@bi('__cxa_end_catch')
def l_end_catch(e, st, I, a):
    if not st.caught:
        raise E.Unsupported('end_catch without begin_catch')
    st.caught.pop()
    return None


@bi('__dynamic_cast')
def l_dynamic_cast(e, st, I, a):
    p = a[0]
    vt = e.access(st, p, 8, 'dynamic_cast').read(e, p.off, 8)
    if not isinstance(vt, Ptr) or not isinstance(vt.off, int):
        raise E.Unsupported('dynamic_cast of an unknown object')
    vo = e.obj(st, vt.obj)
    ti, top = vo.read(e, vt.off - 8, 8), vo.read(e, vt.off - 16, 8)
    if isinstance(top, Ptr):
        top = top.off
    off = e.ti_find(e.obj(st, a[2].obj).name, e.obj(st, ti.obj).name)
    if off is None:
        return NULL
    return Ptr(p.obj, simp(add(add(p.off, top & 0xffffffffffffffff, 64), off, 64)))


@bi('__cxa_rethrow')
def l_rethrow(e, st, I, a):
    exc = st.caught[-1]
    e.throw(st, exc)
    return E.NORET


@bi('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def l_typeid(e, st, I, a):
    p = a[0]
    if p.obj == 0:
        return e.tid(None)
    return e.tid(e.obj(st, p.obj).name)


@bi('_ZSt9terminatev', '__cxa_pure_virtual', '__cxa_call_unexpected')
def l_terminate(e, st, I, a):
    e.oblige(st, False, e.at(st, 'std::terminate is not reached'), 'exception')
    raise E.PathEnd()


@bi('__clang_call_terminate')
def l_cct(e, st, I, a):
    e.oblige(st, False, e.at(st, 'std::terminate is not reached'), 'exception')
    raise E.PathEnd()


@bi('abort', 'exit', '_exit')
def l_abort(e, st, I, a):
    e.oblige(st, False, e.at(st, 'abort is not reached'), 'assert')
    raise E.PathEnd()


@bi('__assert_fail')
def l_assert_fail(e, st, I, a):
    s = cstr(e, st, a[0])
    e.oblige(st, False, e.at(st, 'assert(%s)' % s), 'assert')
    raise E.PathEnd()


@bi('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def l_glibcxx_assert(e, st, I, a):
    e.oblige(st, False, e.at(st, 'libstdc++ precondition'), 'assert')
    raise E.PathEnd()


UBK = dict(enumerate([
    'add overflow', 'builtin unreachable', 'cfi', 'division overflow', 'dynamic type cache miss',
    'float cast overflow', 'function type mismatch', 'implicit conversion', 'invalid builtin', 'invalid objc cast',
    'load of invalid value', 'missing return', 'mul overflow', 'negate overflow', 'nullability arg',
    'nullability return', 'nonnull arg', 'nonnull return', 'out of bounds index', 'pointer overflow',
    'shift out of bounds', 'sub overflow', 'type mismatch (null or misaligned)', 'alignment assumption',
    'vla bound']))


@bi('llvm.ubsantrap')
def l_ubsantrap(e, st, I, a):
    e.oblige(st, False, e.at(st, 'no undefined behaviour: ' + UBK.get(a[0], str(a[0]))), 'ub')
    raise E.PathEnd()


@bi('llvm.trap')
def l_trap(e, st, I, a):
    e.oblige(st, False, e.at(st, 'no trap'), 'ub')
    raise E.PathEnd()


@pat(r'llvm\.(lifetime|invariant|experimental\.noalias|assume|donothing|prefetch|stackrestore|va_|dbg|sideeffect)')
def i_nop(e, st, I, a):
    return None


@pat(r'llvm\.stacksave')
def i_stacksave(e, st, I, a):
    return NULL


@pat(r'llvm\.expect\.')
def i_expect(e, st, I, a):
    return a[0]


@pat(r'llvm\.launder\.invariant|llvm\.strip\.invariant')
def i_launder(e, st, I, a):
    return a[0]


@pat(r'llvm\.is\.constant')
def i_isconst(e, st, I, a):
    return False


@pat(r'llvm\.objectsize')
def i_objsize(e, st, I, a):
    return MASK[64]


@pat(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.')
def i_ovf(e, st, I, a):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', I.x['callee'].v.name)
    s, op, w = m.group(1), m.group(2), int(m.group(3))
    x, y = a
    r = e.binop1(op, x, y, I.ty.elems[0], None)
    if op == 'mul':
        W = 2 * w
    else:
        W = w + 1
    if isinstance(x, int) and isinstance(y, int):
        X, Y = (sgn(x, w), sgn(y, w)) if s == 's' else (x, y)
        full = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
        o = (full != sgn(r, w)) if s == 's' else (full != r)
        return [r, o]
    X = bv(sext(x, w, W) if s == 's' else zext(x, w, W), W)
    Y = bv(sext(y, w, W) if s == 's' else zext(y, w, W), W)
    if op == 'mul' and s == 'u' and e.limb:
        full = e.mul(X, Y, W)
        return [r, not_(eq(extract(full, W - 1, w), 0, w))]
    if op == 'mul' and e.limb:
        # signed product = unsigned product - (x < 0 ? y : 0) * 2^w - (y < 0 ? x : 0) * 2^w
        XU, YU = zext(x, w, W), zext(y, w, W)
        full = e.mul(XU, YU, W)
        for p, q in ((x, YU), (y, XU)):
            n = simp(extract(p, w - 1, w - 1))
            if n != 0 or not isinstance(n, int):
                full = sub(full, ite(eq(n, 1, 1), shl(q, w, W), 0, W), W)
        top = simp(extract(full, W - 1, w - 1))
        return [r, simpb(not_(bor(eq(top, 0, W - w + 1), eq(top, MASK[W - w + 1], W - w + 1))))]
    full = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
    R = bv(sext(r, w, W) if s == 's' else zext(r, w, W), W)
    if s == 'u' and op == 'sub':
        return [r, ult(x, y, w)]
    return [r, full != R]


@pat(r'llvm\.(u|s)(min|max)\.')
def i_minmax(e, st, I, a):
    m = re.match(r'llvm\.(u|s)(min|max)\.', I.x['callee'].v.name)
    w = I.ty.bits
    c = (ule if m.group(1) == 'u' else sle)(a[0], a[1], w)
    if m.group(2) == 'max':
        c = not_(c)
    return ite(c, a[0], a[1], w)


@pat(r'llvm\.abs\.')
def i_abs(e, st, I, a):
    w = I.ty.bits
    return ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w)


@pat(r'llvm\.bswap\.')
def i_bswap(e, st, I, a):
    w = I.ty.bits
    return concat([(extract(a[0], 8 * i + 7, 8 * i), 8) for i in range(w // 8)])


@pat(r'llvm\.ctpop\.')
def i_ctpop(e, st, I, a):
    w = I.ty.bits
    r = 0
    for i in range(w):
        r = add(r, zext(extract(a[0], i, i), 1, w), w)
    return r


@pat(r'llvm\.(ctlz|cttz)\.')
def i_clz(e, st, I, a):
    w = I.ty.bits
    r = w
    rng = range(w) if 'ctlz' in I.x['callee'].v.name else range(w - 1, -1, -1)
    for i in rng:
        k = (w - 1 - i) if 'ctlz' in I.x['callee'].v.name else i
        r = ite(eq(extract(a[0], i, i), 1, 1), k, r, w)
    return r


@pat(r'llvm\.fsh(l|r)\.')
def i_fsh(e, st, I, a):
    w = I.ty.bits
    s = e.binop1('urem', a[2], w, I.ty, None)
    x = concat([(a[0], w), (a[1], w)])
    if 'fshl' in I.x['callee'].v.name:
        return extract(shl(x, zext(s, w, 2 * w), 2 * w), 2 * w - 1, w)
    return extract(lshr(x, zext(s, w, 2 * w), 2 * w), w - 1, 0)


# ------------------------------------------------------------------ libstdc++ throws
THROWS = {
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '_ZSt20__throw_future_errori': '_ZTISt12future_error',
    '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
}
for _n, _t in THROWS.items():
    def _f(e, st, I, a, t=_t):
        raise E.CppThrow(t)
    B[_n] = _f


@pat(r'_ZNSt(9exception|9bad_alloc|11logic_error|13runtime_error|12out_of_range|12length_error|16invalid_argument|'
     r'12system_error|8bad_cast|12domain_error|11range_error|14overflow_error|17bad_function_call|20bad_array_new_length|12bad_weak_ptr)[CD]\d')
def std_exc_ctor(e, st, I, a):
    return None


@bi('_ZSt18uncaught_exceptionv')
def l_unc(e, st, I, a):
    return st.uncaught > 0


@bi('_ZSt19uncaught_exceptionsv')
def l_uncs(e, st, I, a):
    return st.uncaught


# exception_ptr holds the exception object's address
@bi('_ZSt17current_exceptionv')
def l_curexc(e, st, I, a):
    p = st.caught[-1][0] if st.caught else NULL
    e.store(st, a[0], p, PTRT(e))
    return None


def PTRT(e):
    import irload
    t = e.__dict__.get('_ptrt')
    if t is None:
        t = irload.Type()
        t.kind, t.bits, t.size, t.store, t.align = 'ptr', 64, 8, 8, 8
        t.n = t.elem = t.elems = t.offs = None
        e._ptrt = t
    return t


@bi('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def l_rethrow_exc(e, st, I, a):
    p = e.load(st, a[0], PTRT(e))
    e.oblige(st, p.obj != 0, e.at(st, 'rethrow_exception needs a non-null exception_ptr'), 'exception')
    if p.obj == 0:
        raise E.PathEnd()
    e.throw(st, (Ptr(p.obj, 0), st.tmap.get(p.obj)))
    return E.NORET


@bi('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv', '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
def l_eptr_rc(e, st, I, a):
    return None


@bi('_ZNSt15__exception_ptr13exception_ptrC1EPv', '_ZNSt15__exception_ptr13exception_ptrC2EPv')
def l_eptr_ctor(e, st, I, a):
    e.store(st, a[0], a[1], PTRT(e))
    return None


@bi('_ZNSt15__exception_ptr13exception_ptrD1Ev', '_ZNSt15__exception_ptr13exception_ptrD2Ev')
def l_eptr_dtor(e, st, I, a):
    return None


@bi('_ZNSt15__exception_ptr13exception_ptrC1ERKS0_', '_ZNSt15__exception_ptr13exception_ptrC2ERKS0_')
def l_eptr_copy(e, st, I, a):
    e.store(st, a[0], e.load(st, a[1], PTRT(e)), PTRT(e))
    return None


@bi('_ZNSt15__exception_ptr13exception_ptr4swapERS0_')
def l_eptr_swap(e, st, I, a):
    x, y = e.load(st, a[0], PTRT(e)), e.load(st, a[1], PTRT(e))
    e.store(st, a[0], y, PTRT(e))
    e.store(st, a[1], x, PTRT(e))
    return None


@bi('_ZNKSt15__exception_ptr13exception_ptrcvbEv')
def l_eptr_bool(e, st, I, a):
    return e.load(st, a[0], PTRT(e)).obj != 0


@bi('__cxa_init_primary_exception')
def l_init_prim(e, st, I, a):
    st.tmap[a[0].obj] = e.obj(st, a[1].obj).name
    return a[0]


@bi('__cxa_guard_acquire')
def l_guard(e, st, I, a):
    o = e.access(st, a[0], 1, 'guard')
    return 1 if o.read(e, a[0].off, 1) == 0 else 0


@bi('__cxa_guard_release')
def l_guard_rel(e, st, I, a):
    e.wobj(st, a[0].obj).write(e, a[0].off, 1, 1)
    return None


@bi('__cxa_guard_abort', '__cxa_atexit')
def l_guard_ab(e, st, I, a):
    return 0


@bi('__errno_location')
def l_errno(e, st, I, a):
    k = e.gids.get('$errno')
    if k is None:
        k = e.next_id
        e.next_id += 1
        e.gids['$errno'] = k
        e.gobj[k] = Obj(k, 4, 4, 'global', 'errno', NZero())
    return Ptr(k, 0)


@bi('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy')
def l_mutex(e, st, I, a):
    return 0


@pat(r'__gthrw_|_ZL18__gthread_active_pv')
def l_gth(e, st, I, a):
    return 1


# libstdc++ linked-list hooks, executed on real nodes
def _hook(e, st, I, a):
    T = PTRT(e)
    node, pos = a
    prev = e.load(st, Ptr(pos.obj, add(pos.off, 8, 64)), T)
    e.store(st, node, pos, T)
    e.store(st, Ptr(node.obj, add(node.off, 8, 64)), prev, T)
    e.store(st, prev, node, T)
    e.store(st, Ptr(pos.obj, add(pos.off, 8, 64)), node, T)
    return None


B['_ZNSt8__detail15_List_node_base7_M_hookEPS0_'] = _hook


@bi('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def _unhook(e, st, I, a):
    T = PTRT(e)
    n = a[0]
    nx = e.load(st, n, T)
    pv = e.load(st, Ptr(n.obj, add(n.off, 8, 64)), T)
    e.store(st, pv, nx, T)
    e.store(st, Ptr(nx.obj, add(nx.off, 8, 64)), pv, T)
    return None


@bi('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def _transfer(e, st, I, a):
    T = PTRT(e)
    this, first, last = a
    if this.obj == last.obj and simp(sub(this.off, last.off, 64)) == 0:
        return None

    def nxt(p):
        return e.load(st, p, T)

    def prv(p):
        return e.load(st, Ptr(p.obj, add(p.off, 8, 64)), T)

    def setn(p, v):
        e.store(st, p, v, T)

    def setp(p, v):
        e.store(st, Ptr(p.obj, add(p.off, 8, 64)), v, T)
    lp, fp, tp = prv(last), prv(first), prv(this)
    setn(lp, this)
    setn(fp, last)
    setn(tp, first)
    setp(this, lp)
    setp(last, fp)
    setp(first, tp)
    return None
