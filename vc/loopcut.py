"""Loop invariants: Houdini inference over candidate predicates at a cut loop header."""
import os
import z3
import irload
import engine as E
from terms import *
from mem import *


class Cand:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def cut_loop(self, st, fr, header, entered=False):
    F = fr.fn
    body = irload.loops(F)[header]
    B = F.blocks[header]
    phis = B.insts[:B.nphi]
    if entered:         # the header's phis have been assigned already
        src = fr.prev
        init = [fr.regs[p.dst] for p in phis]
    else:
        src = fr.bi
        init = [self.ev(fr, p.x[src]) for p in phis]
    depth = len(st.frames)
    # state just before entering the header
    fr.cnt.pop(header, None)
    base = st
    outer_writes = st.writes

    writes = {}          # (obj, off) -> n  or (obj, None)
    live = None          # surviving candidates
    structural_bad = set()
    rounds = 0
    while True:
        rounds += 1
        if rounds > 60:
            raise E.Unsupported('loop invariant inference did not stabilise in ' + F.name)
        s, hv = havoc_state(self, base, F, header, src, phis, init, writes, structural_bad)
        vars_ = hv
        if live is None:
            cands = candidates(self, base, F, header, phis, init, vars_, body)
            # initially true?
            live = []
            s0 = base.clone()
            set_phis(s0, phis, init, header, src)
            self.cur = s0
            ts = [(c, eval_cand(self, s0, c, init_env(self, s0, phis, init, vars_))) for c in cands]
            ts = [(c, t) for c, t in ts if t is not None]
            b0 = not_implied(self, s0, [(i, t) for i, (c, t) in enumerate(ts)])
            live = [c for i, (c, t) in enumerate(ts) if i not in b0]
            havoc_keys = set(k for k, _ in vars_)
        else:
            # new havoced cells give new candidates
            keys = set(k for k, _ in vars_)
            if keys != havoc_keys:
                cands = candidates(self, base, F, header, phis, init, vars_, body)
                s0 = base.clone()
                set_phis(s0, phis, init, header, src)
                self.cur = s0
                have = set(c.name for c in live)
                dead = set(c.name for c in dropped)
                ts = [(c, eval_cand(self, s0, c, init_env(self, s0, phis, init, vars_))) for c in cands
                      if c.name not in have and c.name not in dead]
                ts = [(c, t) for c, t in ts if t is not None]
                b0 = not_implied(self, s0, [(i, t) for i, (c, t) in enumerate(ts)])
                live.extend(c for i, (c, t) in enumerate(ts) if i not in b0)
                havoc_keys = keys
        if rounds == 1:
            dropped = []
        # assume candidates in the havoced state
        self.cur = s
        ok = True
        env = cur_env(self, s, phis, vars_)
        try:
            for c in live:
                t = eval_cand(self, s, c, env)
                if t is not None:
                    self.assume(s, t)
        except E.PathEnd:
            ok = False
        s.writes = set()
        s.stops.append(('loop', depth, header, body))
        head = s.clone()
        self.dry += 1
        try:
            outs = run_from(self, s) if ok else []
        finally:
            self.dry -= 1
        # write set
        grew = False
        for o in outs:
            for (oid, off, n) in (o.writes or ()):
                ob = base.mem.get(oid) or self.gobj.get(oid)
                if ob is None or oid not in base.mem and oid not in self.gobj:
                    continue        # created inside the loop
                if off is None:
                    if (oid, None) not in writes:
                        writes[(oid, None)] = 0
                        grew = True
                elif (oid, None) not in writes:
                    if writes.get((oid, off), 0) < n:
                        writes[(oid, off)] = n
                        grew = True
        if grew:
            continue
        backs = [o for o in outs if o.why == 'back']
        bad = set()
        restart = False
        for o in backs:
            self.cur = o
            ofr = o.frames[-1]
            vals = back_vals(self, o, ofr, phis)
            # structural: pointers stay in their object
            for i, (v0, v1) in enumerate(zip(init, vals)):
                if isinstance(v0, Ptr) and ('phi', i) not in structural_bad:
                    if not isinstance(v1, Ptr) or v1.obj != v0.obj:
                        if self.check(o.pc)[0] == 'unsat':
                            continue
                        raise E.Unsupported('loop-carried pointer changes object in ' + F.name)
            for k, v0 in vars_:
                if isinstance(v0, Ptr):
                    v1 = self.obj(o, k[0]).read(self, k[1], 8)
                    if isinstance(v1, int):
                        v1 = Ptr(0, v1)
                    if not isinstance(v1, Ptr) or v1.obj != v0.obj:
                        if self.check(o.pc)[0] == 'unsat':
                            continue
                        raise E.Unsupported('loop-carried pointer cell changes object in ' + F.name)
            set_phis(o, phis, vals, header, ofr.prev)
            env = cur_env(self, o, phis, vars_)
            ts = []
            for c in live:
                if c.name in bad:
                    continue
                t = eval_cand(self, o, c, env)
                if t is None:
                    bad.add(c.name)
                else:
                    ts.append((c.name, t))
            bad |= not_implied(self, o, ts)
        if os.environ.get('VC_LOOP'):
            print('LOOP', F.name, header, 'round', rounds, 'live', [c.name for c in live], 'bad', sorted(bad), 'backs', len(backs), file=open(os.environ['VC_LOOP'], 'a'))
        if bad:
            dropped.extend(c for c in live if c.name in bad)
            live = [c for c in live if c.name not in bad]
            continue
        break
    # final run, obligations recorded
    self.cur = head
    if not self.dry and not self.predmode:
        key = ('loop invariants inductive in ' + F.name, 'invariant')
        ob = self.obls.get(key)
        if ob is None:
            ob = E.Obligation()
            ob.name, ob.kind, ob.loc = key[0], 'invariant', None
            ob.status, ob.backend, ob.time, ob.n = 'discharged', {}, 0.0, 0
            ob.model = ob.log = None
            ob.detail = [c.name for c in live]
            self.obls[key] = ob
        ob.n += 1 + 2 * len(live)
        ob.backend['houdini/z3'] = ob.backend.get('houdini/z3', 0) + 1 + 2 * len(live)
        outs = run_from(self, head)
    exits = [o for o in outs if o.why == 'exit']
    for o in outs:
        if outer_writes is not None and o.writes is not None:
            o.writes = set(outer_writes) | o.writes
        elif outer_writes is None:
            o.writes = None
    for o in outs:
        if o.why not in ('exit', 'back') and o is not st:
            pass
    # continue the exits in the caller's worklist
    self._extra = getattr(self, '_extra', [])
    self._extra.extend(exits)
    st.why = 'cut'
    st.writes = outer_writes


def back_vals(self, o, ofr, phis):
    if o.flags.pop('entered', False):
        return [ofr.regs[p.dst] for p in phis]
    return [self.ev(ofr, p.x[ofr.prev]) for p in phis]


def run_from(self, s):
    save = self.cur
    # s stands right at the header with phis assigned
    outs = self.explore([s])
    self.cur = save
    return outs


def set_phis(s, phis, vals, header, src):
    fr = s.frames[-1]
    for p, v in zip(phis, vals):
        fr.regs[p.dst] = v
    fr.prev = src
    fr.bi = header
    fr.ii = len(phis)


def havoc_state(self, base, F, header, src, phis, init, writes, structural_bad):
    s = base.clone()
    self.cur = s
    s.why = None
    vals = []
    for i, (p, v) in enumerate(zip(phis, init)):
        vals.append(havoc_val(self, v, p.ty, 'phi%d' % i))
    set_phis(s, phis, vals, header, src)
    hv = []
    for (oid, off) in sorted(writes, key=lambda k: (k[0], -1 if k[1] is None else k[1])):
        n = writes[(oid, off)]
        if (oid, None) in writes and off is not None:
            continue
        o = self.wobj(s, oid)
        if off is None:
            if isinstance(o.size, int) and o.size <= 8:
                v = self.fresh(8 * o.size, 'hvc')
                o.cells = {}
                o.write(self, 0, o.size, v)
                continue
            ew = 1
            arr = z3.Array('hv%d_%d' % (oid, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))
            self.fresh_n += 1
            b0 = o.base
            while hasattr(b0, 'prev'):
                b0 = b0.prev
            if isinstance(b0, NArr):
                ew = b0.ew
                arr = z3.Array('hv%d_%d' % (oid, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8 * ew))
            o.cells = {}
            o.base = NArr(arr, ew)
        else:
            old = o.read(self, off, n)
            if n > 8 or (n & (n - 1)):
                for j in range(n):
                    o.write(self, off + j, 1, self.fresh(8, 'hvb'))
                continue
            if isinstance(old, Ptr):
                nv = Ptr(old.obj, self.fresh(64, 'hvp'))
            else:
                nv = self.fresh(8 * n, 'hvc')
            o.write(self, off, n, nv)
            hv.append(((oid, off, n), old))
    return s, hv


def havoc_val(self, v, ty, name):
    k = ty.kind
    if k == 'int':
        return self.freshb(name) if ty.bits == 1 else self.fresh(ty.bits, name)
    if k == 'ptr':
        return Ptr(v.obj, self.fresh(64, name))
    if k == 'fp':
        return self.fresh(ty.bits, name)
    if k == 'struct':
        return [havoc_val(self, x, t, name) for x, t in zip(v, ty.elems)]
    raise E.Unsupported('loop-carried ' + k)


def init_env(self, s, phis, init, vars_):
    env = {}
    for i, v in enumerate(init):
        env[('phi', i)] = v
    for k, old in vars_:
        env[('cell',) + k] = old
    return env


def cur_env(self, s, phis, vars_):
    env = {}
    fr = s.frames[-1]
    for i, p in enumerate(phis):
        env[('phi', i)] = fr.regs[p.dst]
    for k, old in vars_:
        v = self.obj(s, k[0]).read(self, k[1], k[2])
        if isinstance(old, Ptr) and isinstance(v, int):
            v = Ptr(0, v)
        if not isinstance(old, Ptr) and isinstance(v, Ptr):
            v = self.ptr2int(v)
        env[('cell',) + k] = v
    return env


def implied(self, s, t):
    t = simpb(t)
    if isinstance(t, bool):
        if t:
            return True
        return self.check(s.pc)[0] == 'unsat'
    if t.get_id() in s.pcset:
        return True
    r, _, _ = self.prove(s, t)
    return r == 'unsat'


def not_implied(self, s, terms):
    """indices of the terms that are not implied by the path condition; counterexamples refute many at once"""
    bad = set()
    todo = []
    for i, t in terms:
        t = simpb(t)
        if t is True:
            continue
        if t is False:
            if not implied(self, s, t):
                bad.add(i)
        elif t.get_id() not in s.pcset:
            todo.append((i, t))
    while len(todo) > 1 and not any('mul' in self.tags(t) for _, t in todo):
        r, m = self.check(s.pc, z3.Not(z3.And(*[t for _, t in todo])), 1000)
        if r == 'unsat':
            return bad
        if r != 'sat' or m is None:
            break
        rest = []
        for i, t in todo:
            if z3.is_false(m.eval(t, model_completion=True)):
                bad.add(i)
            else:
                rest.append((i, t))
        if len(rest) == len(todo):
            break
        todo = rest
    for i, t in todo:
        if not implied(self, s, t):
            bad.add(i)
    return bad


def eval_cand(self, s, c, env):
    save = self.cur
    self.cur = s
    try:
        return c.fn(self, s, env)
    except E.Unsupported:
        return None
    except E.PathEnd:
        return None
    except E.ForkOn:
        return None
    finally:
        self.cur = save


def candidates(self, base, F, header, phis, init, vars_, body):
    """templates over loop-carried variables and the loop-invariant values in scope"""
    fr = base.frames[-1]
    out = []
    items = []           # (key, init value, width or 'ptr')
    for i, p in enumerate(phis):
        if p.ty.kind == 'int' and p.ty.bits > 1:
            items.append((('phi', i), init[i], p.ty.bits))
        elif p.ty.kind == 'ptr':
            items.append((('phi', i), init[i], 'ptr'))
    for k, old in vars_:
        items.append((('cell',) + k, old, 'ptr' if isinstance(old, Ptr) else 8 * k[2]))
    # bounds: values of registers defined outside the loop, used within it, plus arguments
    bounds = {}
    seen = set()
    idxs = set(range(F.nargs))
    for b in body:
        for I in F.blocks[b].insts:
            for o in I.ops:
                if isinstance(o, int):
                    idxs.add(o)
            if I.op == 'phi':
                for o in I.x.values():
                    if isinstance(o, int):
                        idxs.add(o)
    for h in irload.loops(F):       # counters of enclosing and preceding loops
        if h != header:
            idxs.update(I.dst for I in F.blocks[h].insts[:F.blocks[h].nphi])
    for i in sorted(idxs):
        v = fr.regs[i]
        if v is None or isinstance(v, (bool, list)):
            continue
        if isinstance(v, Ptr):
            key = ('ptr', v.obj, str(v.off))
            if key not in seen:
                seen.add(key)
                bounds.setdefault('ptr', []).append(('r%d' % i, v))
        elif not isinstance(v, int) and z3.is_bv(v):
            key = (v.size(), v.get_id())
            if key not in seen:
                seen.add(key)
                bounds.setdefault(v.size(), []).append(('r%d' % i, v))
    # ghost values offered by the harness
    for nm, v in base.flags.get('bounds', ()):
        if isinstance(v, Ptr):
            bounds.setdefault('ptr', []).append((nm, v))
        elif not isinstance(v, int):
            bounds.setdefault(v.size(), []).append((nm, v))

    def val(key):
        return lambda env: env[key]

    for key, v0, w in items:
        kn = str(key)
        if w == 'ptr':
            W = 64
            get = (lambda key: lambda env: env[key].off)(key)
            bl = [(n, b.off) for n, b in bounds.get('ptr', []) if b.obj == v0.obj]
            bl.append(('init', v0.off))
            o = self.obj(base, v0.obj)
            if o is not None:
                bl.append(('size', o.size))
            bl += [('%s+%s' % (n, m), simp(add(b, x, 64))) for n, b in bl[:2] for m, x in bounds.get(64, [])[:4]]
        else:
            W = w
            get = val(key)
            bl = [(n, b) for n, b in bounds.get(W, [])]
            bl.append(('init', v0))
            bl.append(('zero', 0))
        for n, b in bl:
            out.append(Cand('%s==%s' % (kn, n), lambda e, s, env, g=get, b=b, W=W: eq(g(env), b, W)))
            out.append(Cand('%s<=%s' % (kn, n), lambda e, s, env, g=get, b=b, W=W: ule(g(env), b, W)))
            out.append(Cand('%s>=%s' % (kn, n), lambda e, s, env, g=get, b=b, W=W: ule(b, g(env), W)))
            if n != 'init':
                out.append(Cand('%s<%s' % (kn, n), lambda e, s, env, g=get, b=b, W=W: ult(g(env), b, W)))
                out.append(Cand('%s!=%s' % (kn, n), lambda e, s, env, g=get, b=b, W=W: not_(eq(g(env), b, W))))
        if W == 64:
            for k in (1, 2, 3):
                out.append(Cand('%s-init aligned %d' % (kn, k),
                                lambda e, s, env, g=get, b=(v0.off if w == 'ptr' else v0), k=k:
                                eq(extract(simp(sub(g(env), b, 64)), k - 1, 0), 0, k)))
    # pairs in lockstep
    for i in range(len(items)):
        for j in range(i + 1, len(items)):
            (k1, a0, w1), (k2, b0, w2) = items[i], items[j]
            W1 = 64 if w1 == 'ptr' else w1
            W2 = 64 if w2 == 'ptr' else w2
            if W1 != W2:
                continue

            def gv(env, k, w):
                return env[k].off if w == 'ptr' else env[k]
            x0 = a0.off if w1 == 'ptr' else a0
            y0 = b0.off if w2 == 'ptr' else b0
            out.append(Cand('%s-%s const' % (k1, k2),
                            lambda e, s, env, k1=k1, k2=k2, w1=w1, w2=w2, x0=x0, y0=y0, W=W1:
                            eq(sub(gv(env, k1, w1), gv(env, k2, w2), W), sub(x0, y0, W), W)))
            out.append(Cand('%s+%s const' % (k1, k2),
                            lambda e, s, env, k1=k1, k2=k2, w1=w1, w2=w2, x0=x0, y0=y0, W=W1:
                            eq(add(gv(env, k1, w1), gv(env, k2, w2), W), add(x0, y0, W), W)))
            if w1 == 'ptr' and w2 == 'ptr' and a0.obj != b0.obj or w1 != w2:
                continue
            out.append(Cand('%s<=%s' % (k1, k2), lambda e, s, env, k1=k1, k2=k2, w1=w1, w2=w2, W=W1:
                            ule(gv(env, k1, w1), gv(env, k2, w2), W)))
            out.append(Cand('%s>=%s' % (k1, k2), lambda e, s, env, k1=k1, k2=k2, w1=w1, w2=w2, W=W1:
                            ule(gv(env, k2, w2), gv(env, k1, w1), W)))
    if base.flags.get('cfg_hints'):      # the specification states the invariants: keep only the cheapest guesses
        out = [c for c in out if c.name.endswith('==init') or c.name.endswith(' const') and base.flags['cfg_hints'] < 2]
    # harness hints
    for kind, H in base.hints:
        if kind == '0':
            out.append(Cand('hint ' + H.name, lambda e, s, env, H=H: e.call_term(s, H, [])))
            continue
        two = kind[0] == '2'
        want = kind.split('_')[-1]
        for key, v0, w in items:
            if (want == 'ptr') != (w == 'ptr') or want != 'ptr' and w != 64:
                continue
            if not two:
                out.append(Cand('hint %s(%s)' % (H.name, key),
                                lambda e, s, env, H=H, key=key: e.call_term(s, H, [env[key]])))
                continue
            for key2, _, w2 in items:
                if key2 != key and w2 == w:
                    out.append(Cand('hint %s(%s,%s)' % (H.name, key, key2),
                                    lambda e, s, env, H=H, key=key, key2=key2: e.call_term(s, H, [env[key], env[key2]])))
            for n, b in bounds.get(w, []):
                out.append(Cand('hint %s(%s,%s)' % (H.name, key, n),
                                lambda e, s, env, H=H, key=key, b=b: e.call_term(s, H, [env[key], b])))
    return out


E.Engine.cut_loop = cut_loop

_orig_run = E.Engine.run


def run(self, st, work):
    _orig_run(self, st, work)
    x = getattr(self, '_extra', None)
    if x:
        self._extra = []
        for s in x:
            work.append(s)


E.Engine.run = run


@E.builtins_get.__globals__['bi']('vc_bound_u64', 'vc_bound_ptr')
def vc_bound(e, st, I, a):
    st.flags['bounds'] = st.flags.get('bounds', ()) + (('b%d' % len(st.flags.get('bounds', ())), a[0]),)
    return None


# ---- stepwise cutting -------------------------------------------------------------------------
def step_loop(self, st, fr, header):
    """A loop whose trip count is fixed by concrete state: every visit of the header is cut.
    What stays concrete (counters, one-hot masks) is kept; everything else the loop writes is
    forgotten except for the invariant hints, which are proved at every visit."""
    F = fr.fn
    body = irload.loops(F)[header]
    B = F.blocks[header]
    src0 = fr.bi
    phis = B.insts[:B.nphi]
    init = [self.ev(fr, p.x[src0]) for p in phis]
    depth = len(st.frames)
    fr.cnt.pop(header, None)
    base = st
    outer_writes = st.writes
    abstract = set()          # phi indices / cells that are forgotten
    writes = {}
    dropped = set()
    saved = {k: _copy_ob(o) for k, o in self.obls.items()}
    rounds = 0

    def conc(v):
        return isinstance(v, (int, bool)) or (isinstance(v, Ptr) and isinstance(v.off, int))

    class Restart(Exception):
        pass

    def head(k, vals, src, cells):
        """state at visit k; vals / cells give the tracked values"""
        s = base.clone()
        self.cur = s
        s.why = None
        pv = []
        for i, (p, v0) in enumerate(zip(phis, init)):
            if ('phi', i) in abstract:
                pv.append(havoc_val(self, v0, p.ty, 'phi%d_%d' % (i, k)))
            else:
                pv.append(vals[i])
        set_phis(s, phis, pv, header, src)
        for (oid, off), n in sorted(writes.items()):
            key = ('cell', oid, off)
            o = self.wobj(s, oid)
            if off is None:
                raise E.Unsupported('stepwise loop writes at a symbolic offset')
            if key in abstract:
                if n > 8 or (n & (n - 1)):
                    j = 0
                    while j < n:
                        w = 8 if n - j >= 8 else 4 if n - j >= 4 else 2 if n - j >= 2 else 1
                        o.write(self, off + j, w, self.fresh(8 * w, 'hvb'))
                        j += w
                else:
                    o.write(self, off, n, self.fresh(8 * n, 'st%d_%d_%d' % (oid, off, k)))
            else:
                o.write(self, off, n, cells[key])
        s.writes = set()
        return s

    def objs(size):
        out = []
        for oid in sorted(set(o for o, _ in writes)):
            ob = base.mem.get(oid)
            if ob is not None and isinstance(ob.size, int) and ob.size == size and \
                    any(('cell', oid, off) in abstract for (o2, off) in writes if o2 == oid):
                v = ob.read(self, 0, 1)
                if not isinstance(v, (int, Ptr)) and z3.is_const(v) and v.decl().name().startswith('undef_'):
                    continue        # uninitialised at entry: a temporary of the body
                out.append(oid)
        return out

    def hold(s, c, k):
        H, size, a, b = c
        try:
            return self.call_term(s, H, [Ptr(a, 0), Ptr(b, 0), k])
        except (E.Unsupported, E.PathEnd, E.ForkOn):
            return None

    while True:
        rounds += 1
        if rounds > 200:
            raise E.Unsupported('stepwise invariant inference did not stabilise in ' + F.name)
        self.obls = {k: _copy_ob(o) for k, o in saved.items()}
        cands = []
        for kind, h in base.hints:
            if kind != 'obj2':
                continue
            H, size = h
            os_ = objs(size)
            for a in os_:
                for b in os_:
                    if a != b and (H.name, a, b) not in dropped:
                        cands.append((H, size, a, b))
        try:
            ninv = 0
            # entry
            s0 = base.clone()
            self.cur = s0
            set_phis(s0, phis, init, header, src0)
            ok = []
            for c in cands:
                t = hold(s0, c, 0)
                if t is not None and implied(self, s0, t):
                    ok.append(c)
                else:
                    if os.environ.get('VC_STEP'):
                        print('entry drop', c[2], c[3], t)
                    dropped.add((c[0].name, c[2], c[3]))
            cands = ok
            vals = list(init)
            cells = {}
            for (oid, off), n in writes.items():
                if ('cell', oid, off) not in abstract:
                    cells[('cell', oid, off)] = self.obj(base, oid).read(self, off, n)
            src = src0
            exits = []
            k = 0
            while True:
                if k > 5000:
                    raise E.Unsupported('stepwise loop does not end')
                s = head(k, vals, src, cells)
                self.cur = s
                dead = False
                try:
                    for c in cands:
                        self.witness = {}
                        t = hold(s, c, k)
                        if t is not None:
                            self.assume(s, t)
                            if self.witness:
                                s.flags['witness'] = {**s.flags.get('witness', {}), **self.witness}
                except E.PathEnd:
                    dead = True
                if dead:
                    break
                s.stops.append(('loop', depth, header, body))
                outs = run_from(self, s)
                exits.extend(o for o in outs if o.why == 'exit')
                grew = False
                for o in outs:
                    for (oid, off, n) in (o.writes or ()):
                        if oid not in base.mem and oid not in self.gobj:
                            continue
                        if off is None:
                            raise E.Unsupported('stepwise loop writes at a symbolic offset')
                        if writes.get((oid, off), 0) < n:
                            writes[(oid, off)] = n
                            v0 = self.obj(base, oid).read(self, off, n)
                            if not conc(v0):
                                abstract.add(('cell', oid, off))
                            grew = True
                if grew:
                    raise Restart()
                backs = [o for o in outs if o.why == 'back']
                if not backs:
                    break
                nv = nc = None
                for o in backs:
                    self.cur = o
                    ofr = o.frames[-1]
                    pv = back_vals(self, o, ofr, phis)
                    cv = {}
                    for (oid, off), n in writes.items():
                        key = ('cell', oid, off)
                        if key not in abstract:
                            v = self.obj(o, oid).read(self, off, n)
                            v = simp(v) if not isinstance(v, (int, Ptr)) else v
                            if not conc(v):
                                abstract.add(key)
                                raise Restart()
                            cv[key] = v
                    for i, v in enumerate(pv):
                        if ('phi', i) not in abstract and not conc(v):
                            abstract.add(('phi', i))
                            raise Restart()
                    if nv is None:
                        nv, nc, src = pv, cv, ofr.prev
                    else:
                        for i in range(len(pv)):
                            if ('phi', i) not in abstract and repr(pv[i]) != repr(nv[i]):
                                abstract.add(('phi', i))
                                raise Restart()
                        for key in cv:
                            if repr(cv[key]) != repr(nc[key]):
                                abstract.add(key)
                                raise Restart()
                    set_phis(o, phis, pv, header, ofr.prev)
                    bad = False
                    for c in cands:
                        t = hold(o, c, k + 1)
                        ninv += 1
                        if t is None or not implied(self, o, t):
                            if os.environ.get('VC_STEP'):
                                print('step drop', k, c[2], c[3], 'None' if t is None else str(simp(t))[:3000])
                                if t is not None:
                                    print('PC', [str(x)[:300] for x in o.pc[-25:]])
                                    r_ = self.prove(o, t)
                                    print('MODEL', r_[1])
                                    if r_[1] is not None and z3.is_and(simp(t)): print([str(z)[:200] for z in simp(t).children() if not z3.is_true(r_[1].eval(z, True))])
                            dropped.add((c[0].name, c[2], c[3]))
                            bad = True
                    if bad:
                        raise Restart()
                vals, cells = nv, nc
                k += 1
            break
        except Restart:
            continue
    if not self.dry and not self.predmode:
        key = ('loop invariants inductive in ' + F.name, 'invariant')
        ob = self.obls.get(key)
        if ob is None:
            ob = E.Obligation()
            ob.name, ob.kind, ob.loc = key[0], 'invariant', None
            ob.status, ob.backend, ob.time, ob.n = 'discharged', {}, 0.0, 0
            ob.model = ob.log = None
            ob.detail = [c[0].name for c in cands]
            self.obls[key] = ob
        ob.n += 1 + ninv
        ob.backend['stepwise/z3'] = ob.backend.get('stepwise/z3', 0) + 1 + ninv
    for o in exits:
        if outer_writes is not None and o.writes is not None:
            o.writes = set(outer_writes) | o.writes
        elif outer_writes is None:
            o.writes = None
    self._extra = getattr(self, '_extra', [])
    self._extra.extend(exits)
    st.why = 'cut'
    st.writes = outer_writes


def _copy_ob(o):
    n = E.Obligation()
    for a in E.Obligation.__slots__:
        setattr(n, a, getattr(o, a, None))
    n.backend = dict(o.backend)
    return n


E.Engine.step_loop = step_loop
