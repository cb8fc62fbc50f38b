"""Verification-condition generator: symbolic execution of LLVM IR with contracts,
exceptions, loop invariants (inferred by Houdini over candidate predicates) and a
quantifier-free functional memory model.  Every obligation goes to an SMT solver."""
import hashlib
import os
import re
import subprocess
import cvc5
import tempfile
import time
import z3
import ringnf
import irload
from terms import *
from mem import *

sys_setrec = __import__('sys').setrecursionlimit
sys_setrec(20000)


class Unsupported(Exception):
    pass


class ForkOn(Exception):
    checked = False

    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    """this path ends here (infeasible, or stopped on purpose)"""


class NeedCut(Exception):
    def __init__(self, fn, header):
        self.fn, self.header = fn, header


class Budget(Exception):
    pass


class CppThrow(Exception):
    """a builtin throws a C++ exception"""

    def __init__(self, ti):
        self.ti = ti


class Frame:
    __slots__ = ('fn', 'bi', 'ii', 'regs', 'prev', 'allocas', 'cnt', 'ghost')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.bi, f.ii, f.prev, f.ghost = self.fn, self.bi, self.ii, self.prev, self.ghost
        f.regs = list(self.regs)
        f.allocas = list(self.allocas)
        f.cnt = dict(self.cnt)
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'log', 'ghosts', 'facts', 'stops', 'owner', 'caught',
                 'exc', 'pending', 'writes', 'model', 'why', 'ret', 'hints', 'flags', 'trace', 'nobj',
                 'uncaught', 'covers', 'tmap', 'pcid', 'drv')

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.pcid = self.pcid
        s.drv = set(self.drv)
        s.log = list(self.log)
        s.ghosts = list(self.ghosts)
        s.facts = list(self.facts)
        s.stops = list(self.stops)
        s.caught = list(self.caught)
        s.exc = self.exc
        s.uncaught = self.uncaught
        s.pending = self.pending
        s.writes = self.writes if self.writes is None else set(self.writes)
        s.model = self.model
        s.why, s.ret = self.why, self.ret
        s.hints = list(self.hints)
        s.flags = dict(self.flags)
        s.trace = list(self.trace)
        s.nobj = self.nobj
        s.covers = self.covers
        s.tmap = dict(self.tmap)
        s.owner = object()
        self.owner = object()
        return s


class Obligation:
    __slots__ = ('name', 'loc', 'kind', 'status', 'backend', 'time', 'n', 'model', 'log', 'detail')


STD_BASES = {
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error',
    '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt17bad_function_call': '_ZTISt9exception',
    '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt12future_error': '_ZTISt11logic_error',
    '_ZTISt16nested_exception': None, '_ZTISt9exception': None,
}


class Engine:
    def __init__(self, mod, cfg):
        self.mod = mod
        self.cfg = cfg
        self.deadline = None
        self.q_timeout = cfg.get('q_timeout', 3000)
        self.ob_timeout = cfg.get('ob_timeout', 60)
        self.unwind = cfg.get('unwind', 40)
        self.max_iter = cfg.get('max_iter', 100000)
        self.unfold = None
        self.witness = {}
        self.merge = False
        self.sidefacts = None
        self.cuts = set()
        self.next_id = 1
        self.fresh_n = 0
        self.gobj = {}
        self.gids = {}
        self.fnids = {}
        self.idfn = {}
        self.tids = {}
        self.obls = {}
        self.dry = 0
        self.predmode = 0
        self.cur = None
        self.stats = dict(queries=0, solver_time=0.0, paths=0, insts=0, trivial=0, feas=0)
        self.fnseen = {}
        self.known_cache = {}
        self.pcmap = {}
        self.prodax = {}      # valid facts about product symbols
        self.solvers = [(z3.Solver(), []), (z3.Solver(), [])]
        self.covers = {}
        self.replaces = {}
        self.axioms = []
        self.assumed_externals = set()
        self.prodcache = {}
        self.tagmemo = {}
        self.nf = None
        self.bvwins = 0
        self.limb = None
        self.alloc_may_fail = False
        self._find_replacements()

    # ------------------------------------------------------------------ utils
    def fresh(self, w, name='v'):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def freshb(self, name='b'):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))

    def new_obj(self, st, size, align, kind, name, base=None):
        oid = self.next_id
        self.next_id += 1
        o = Obj(oid, size, align, kind, name, base or NUndef(oid), st.owner)
        st.mem[oid] = o
        return Ptr(oid, 0)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobj.get(oid)
        return o

    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.owner is not st.owner:
            o = o.clone(st.owner)
            st.mem[oid] = o
        return o

    def base_addr(self, oid):
        o = self.obj(self.cur, oid)
        a = max(1, o.align if o else 1)
        k = a.bit_length() - 1
        if k:
            return z3.Concat(z3.BitVec('addr%d' % oid, 64 - k), z3.BitVecVal(0, k))
        return z3.BitVec('addr%d' % oid, 64)

    def ptr2int(self, p):
        if p.obj == 0:
            return p.off
        return simp(add(self.base_addr(p.obj), p.off, 64))

    def tags(self, t):
        """object addresses and products mentioned by a term (memoised per node)"""
        memo = self.tagmemo
        r = memo.get(t.get_id())
        if r is not None:
            return r[0]
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            out = NOTAGS
            for c in ch:
                y = memo[c.get_id()][0]
                if y and y is not out:
                    out = out | y
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if not ch:
                    if n.startswith('addr') and n[4:].isdigit():
                        out = frozenset([int(n[4:])])
                elif len(ch) == 2 and n.startswith('mul'):
                    out = out | MULTAG
            memo[i] = (out, x)
        return memo[t.get_id()][0]

    def addr_facts(self, st, t):
        """facts about the addresses a condition mentions: non-null, no wrap-around, disjointness"""
        if isinstance(t, (bool, int)):
            return
        ids = [i for i in self.tags(t) if i != 'mul']
        if not ids:
            return
        for oid in sorted(ids):
            key = ('addr', oid)
            if key in st.flags:
                continue
            b = self.base_addr(oid)
            o = self.obj(st, oid)
            size = o.size if o is not None else 1
            # objects are non-null and do not wrap; they live below 2^47
            self.assume(st, z3.And(z3.UGE(b, 4096), z3.ULE(b, (1 << 47)), z3.ULE(bv(size, 64), (1 << 47))))
            for k in list(st.flags):
                if isinstance(k, tuple) and k[0] == 'addr' and k[1] != oid:
                    o2 = self.obj(st, k[1])
                    if o2 is None:
                        continue
                    b2 = self.base_addr(k[1])
                    self.assume(st, z3.Or(z3.ULT(b + bv(size, 64), b2), z3.ULT(b2 + bv(o2.size, 64), b)))
            st.flags[key] = True

    def int2ptr(self, v):
        v = simp(v)
        if isinstance(v, int):
            return Ptr(0, v)
        # find addrN + off
        names = {}

        def walk(t, depth=0):
            if depth > 12:
                return
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n.startswith('addr') and n[4:].isdigit():
                    names[int(n[4:])] = t
                return
            for c in t.children():
                walk(c, depth + 1)
        walk(v)
        for oid in names:
            off = simp(sub(v, self.base_addr(oid), 64))
            if isinstance(off, int) or not any('addr%d' % oid in str(x) for x in [off]):
                return Ptr(oid, off)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c = v.arg(0)
            return self.int2ptr(v.arg(1) if self.decide(c) else v.arg(2))
        raise Unsupported('inttoptr of %s' % str(v)[:200])

    def as_int(self, v, n):
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        return v

    def fn_ptr(self, F):
        oid = self.fnids.get(F.name)
        if oid is None:
            oid = self.next_id
            self.next_id += 1
            self.fnids[F.name] = oid
            self.idfn[oid] = F
            self.gobj[oid] = Obj(oid, 1, 16, 'fn', F.name, NZero())
        return Ptr(oid, 0)

    def gvar_ptr(self, G):
        oid = self.gids.get(G.name)
        if oid is None:
            oid = self.next_id
            self.next_id += 1
            self.gids[G.name] = oid
            size = G.ty.size
            if size is None:
                size = 1 << 20
            o = Obj(oid, size, max(1, G.align), 'global', G.name, NUndef(oid))
            o.ro = G.const
            self.gobj[oid] = o
            init = self.mod.initializer(G)
            if init is not None:
                o.base = NZero()
                self._init(o, 0, init)
        return Ptr(oid, 0)

    def _init(self, o, off, c):
        k = c.kind
        if k == 'zero':
            return
        if k == 'bytes':
            for i, b in enumerate(c.v):
                if b:
                    o.cells[off + i] = (1, b)
            # bytes as single cells
            return
        if k == 'agg':
            t = c.ty
            for i, e in enumerate(c.v):
                eo = t.offs[i] if t.kind == 'struct' else i * t.elem.size
                self._init(o, off + eo, e)
            return
        if k == 'undef':
            return
        n = c.ty.store
        if n == 0:
            return
        v = self.cval(c)
        if isinstance(v, bool):
            v = int(v)
        o.cells[off] = (n, v)
        o.maxw = max(o.maxw, n)

    def _find_replacements(self):
        """harness globals vc_replace_<n> = {real, contract} map functions to their contracts"""
        for name, G in self.mod.globals.items():
            if name.startswith('vc_replace_'):
                init = self.mod.initializer(G)
                if init is None or init.kind != 'agg':
                    continue
                a, b = init.v[0], init.v[1]
                if a.kind == 'fn' and b.kind == 'fn':
                    self.replaces[a.v.name] = b.v
        for n, F in list(self.mod.functions.items()):
            if n.startswith('vc_contract_') and not F.decl:
                self.replaces[n[len('vc_contract_'):]] = F

    # ------------------------------------------------------------------ solver
    def _sync(self, pc, which=0):
        s, stack = self.solvers[which]
        n = 0
        m = min(len(stack), len(pc))
        while n < m and stack[n] is pc[n]:
            n += 1
        while len(stack) > n:
            k = min(len(stack) - n, 64)
            s.pop(k)
            del stack[-k:]
        for t in pc[n:]:
            s.push()
            s.add(t)
            stack.append(t)
        return s

    def heavy(self, t):
        """does t mention an uninterpreted product?"""
        return 'mul' in self.tags(t)

    def check(self, pc, extra=None, timeout=None, light=False):
        """light: products may be left out (sound for pruning: only `unsat` is relied upon)"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Budget()
        if light and self.limb:
            pc = [t for t in pc if not self.heavy(t)]
        else:
            light = False
        solver = self._sync(pc, 1 if light else 0)
        solver.set('timeout', timeout or self.q_timeout)
        self.stats['queries'] += 1
        if extra is None:
            r = solver.check()
        else:
            solver.push()
            solver.add(extra)
            r = solver.check()
        m = None
        if r == z3.sat:
            m = solver.model()
        if extra is not None:
            solver.pop()
        dt = time.time() - t0
        self.stats['solver_time'] += dt
        if dt > 0.5 and os.environ.get('VC_SLOW'):
            print('slowq %.2f %s light=%s %s' % (dt, r, light, str(extra)[:200]), flush=True)
        return str(r), m

    def assume(self, st, c, derived=False):
        c = simpb(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        k = c.get_id()
        if k in st.pcset:
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(st, x, derived)
            return
        if derived and self.merge:
            st.drv.add(k)
        self.push_pc(st, c)

    def push_pc(self, st, c):
        k = c.get_id()
        st.pc.append(c)
        st.pcset.add(k)
        # identity of the whole path condition (interned, so cached answers never mix paths)
        r = self.pcmap.get((st.pcid, k))
        if r is None:
            self.pcmap[(st.pcid, k)] = r = (len(self.pcmap) + 1, c)
        st.pcid = r[0]

    def feasible(self, st, c):
        c = simpb(c)
        if isinstance(c, bool):
            return c
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)) and st.flags.get('modelpc', -1) == len(st.pc):
                    return True
            except z3.Z3Exception:
                pass
        self.stats['feas'] += 1
        return self.quick(st.pc, c) != 'unsat'

    def quick(self, pc, c):
        """sat/unsat/unknown, z3 or cvc5 with integers first, whichever did better lately"""
        hv = self.heavy(c)
        r = 'unknown'
        for i in range(3):
            if (i == 0) != (self.bvwins >= 3) and i < 2:
                r, m = self.check(pc, c, 300, light=True)
                if r != 'unknown':
                    if i == 1:
                        self.bvwins = 0
                    return r
            elif i < 2 and not hv:
                r = self.bvint([t for t in pc if not self.heavy(t)], c, 2000 if i else 400)
                if r != 'unknown':
                    if i == 1:
                        self.bvwins += 1
                    return r
        r, m = self.check(pc, c, 1500, light=True)
        return r

    def known(self, c):
        """True/False if the current path implies c / not c, else the (simplified) term"""
        c = simpb(c)
        if isinstance(c, bool):
            return c
        st = self.cur
        if c.get_id() in st.pcset:
            return True
        key = (c.get_id(), st.pcid)
        r = self.known_cache.get(key)
        if r is not None:
            return r[0]
        self.stats['feas'] += 1
        r1 = self.quick(st.pc, z3.Not(c))
        if r1 == 'unsat':
            res = True
        else:
            r2 = self.quick(st.pc, c)
            res = False if r2 == 'unsat' else c
        self.known_cache[key] = (res, c)
        return res

    def decide(self, c):
        k = self.known(c)
        if isinstance(k, bool):
            return k
        f = ForkOn(k)
        f.checked = True
        raise f

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, c, name, kind='assert', loc=None):
        c = simpb(c)
        if self.predmode:
            if c is True:
                return
            self.assume(st, c)
            return
        if self.dry:
            if c is True:
                return
            if c is False:
                raise PathEnd()
            self.assume(st, c)
            return
        key = (name, kind)
        ob = self.obls.get(key)
        if ob is None:
            ob = Obligation()
            ob.name, ob.kind, ob.loc = name, kind, loc
            ob.status, ob.backend, ob.time, ob.n = 'discharged', {}, 0.0, 0
            ob.model = ob.log = ob.detail = None
            self.obls[key] = ob
        ob.n += 1
        if c is True:
            ob.backend['constant-folding'] = ob.backend.get('constant-folding', 0) + 1
            return
        if c is not False and c.get_id() in st.pcset:
            ob.backend['path-condition'] = ob.backend.get('path-condition', 0) + 1
            return
        t0 = time.time()
        r, model, be = self.prove(st, c)
        ob.time += time.time() - t0
        ob.backend[be] = ob.backend.get(be, 0) + 1
        if r == 'unsat':
            if c is False:
                raise PathEnd()   # infeasible path
            self.assume(st, c, True)
            return
        if ob.status == 'discharged' or (ob.status == 'unknown' and r == 'sat'):
            ob.status = 'failed' if r == 'sat' else 'unknown'
            if os.environ.get('VC_FAILLOG'):
                print('FAIL', name, c, '\nPC', '\n   '.join(str(x) for x in st.pc), '\nMODEL', model, 'nf', st.flags.get('nf'), file=open(os.environ['VC_FAILLOG'], 'a'))
            ob.detail = self.where(st)
            ob.log = self.concretize(st, c, model) if r == 'sat' else None
        if c is False:
            raise PathEnd()
        if self.check(st.pc, c)[0] == 'unsat':
            raise PathEnd()
        self.assume(st, c)

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            i = f.fn.blocks[f.bi].insts[min(f.ii, len(f.fn.blocks[f.bi].insts) - 1)]
            out.append('%s (%s:%s)' % (f.fn.name, os.path.basename(i.file or '?'), i.line))
        return ' <- '.join(out[:12])

    def prove(self, st, c):
        t0 = time.time()
        r = self.prove_(st, c)
        if os.environ.get('VC_SLOW') and time.time() - t0 > 0.5:
            print('slow %.2f %s %s %s' % (time.time() - t0, r[0], r[2], str(c)[:300]), flush=True)
        return r

    def prove_(self, st, c):
        """is c implied by the path condition?  returns (unsat|sat|unknown, model, backend)"""
        if c is not False and ringnf.prove(c):
            return 'unsat', None, 'ring-normal-form'
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        heavy = c is not False and 'mul' in self.tags(c)
        bvfirst = self.bvwins >= 3 and not heavy
        arr = c is not False and self.has_array(c)
        if bvfirst and c is not False and not arr and self.bvint(st.pc, neg, 400) == 'unsat':
            return 'unsat', None, 'cvc5-int'
        if not heavy:
            r, m = self.check(st.pc, neg, 300)
            if r != 'unknown':
                return r, m, 'z3'
        if c is not False:
            if arr and not heavy and self.prove_select([t for t in st.pc if not self.heavy(t) and not self.has_array(t)], c):
                return 'unsat', None, 'cvc5-int'
            if not heavy and not bvfirst and not arr and self.bvint(st.pc, neg, 600) == 'unsat':
                self.bvwins += 1
                return 'unsat', None, 'cvc5-int'
            t0 = time.time()
            if self.nf is None or len(self.nf.cache) > 20000:
                self.nf = ringnf.RingNF(20000)
            ok = ringnf.lia_prove(self.slice(st.pc, c), c, 3000, self.nf)
            self.stats['solver_time'] += time.time() - t0
            if ok:
                return 'unsat', None, 'z3-lia'
            if os.environ.get('VC_LIA'):
                print('lia failed', c, self.slice(st.pc, c))
            if not heavy and not arr and self.bvint(st.pc, neg, 3000) == 'unsat':
                return 'unsat', None, 'cvc5-int'
        r, m = self.check(st.pc, neg, self.cfg.get('ob_quick', 1500))
        if r != 'unknown':
            return r, m, 'z3'
        return self.portfolio(st.pc, neg)

    def portfolio(self, pc, neg):
        t0 = time.time()
        left = self.ob_timeout
        if self.deadline:
            left = min(left, self.deadline - t0)
            if left <= 0:
                raise Budget()
        s = z3.Solver()
        for t in (pc if z3.is_true(neg) else self.slice(pc, neg)):
            s.add(t)
        s.add(neg)
        txt = s.to_smt2()
        if os.environ.get('VC_DUMP'):
            open(os.path.join(os.environ['VC_DUMP'], '%d_%d.smt2' % (os.getpid(), self.stats['queries'])), 'w').write(txt)
        fd, path = tempfile.mkstemp(suffix='.smt2', dir=self.cfg.get('tmp'))
        os.write(fd, txt.encode())
        os.close(fd)
        procs = []
        for name, cmd in (('z3', ['/usr/bin/env', 'z3-new', '-T:%d' % int(left + 1), 'tactic.default_tactic=qfaufbv', path]),
                          ('z3-smt', ['/usr/bin/env', 'z3-new', '-T:%d' % int(left + 1), path]),
                          ('cvc5', ['/usr/bin/env', 'cvc5', '--tlimit=%d' % int(left * 1000), path])):
            try:
                procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
            except OSError:
                pass
        res, be = 'unknown', 'portfolio'
        while procs and time.time() - t0 < left + 2 and res == 'unknown':
            for x in list(procs):
                if x[1].poll() is not None:
                    o = x[1].stdout.read().decode().strip().split('\n')[0]
                    procs.remove(x)
                    if o in ('sat', 'unsat'):
                        res, be = o, x[0]
                        break
            else:
                time.sleep(0.02)
        for _, p in procs:
            p.kill()
            p.wait()
        os.unlink(path)
        self.stats['solver_time'] += time.time() - t0
        self.stats['queries'] += 1
        m = None
        if res == 'sat':
            r, m = self.check(pc, neg, 10000)
            if r != 'sat':
                m = None
        return res, m, be

    def find(self, t, pred):
        """first subterm satisfying pred (outermost first)"""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if pred(x):
                return x
            if z3.is_app(x):
                st.extend(reversed(x.children()))
        return None

    def has_array(self, t):
        key = ('arr', t.get_id())
        c = self.prodcache.get(key)
        if c is None:
            c = self.prodcache[key] = (self.find(t, z3.is_select) is not None, t)
        return c[0]

    def prove_select(self, pc, goal, depth=0):
        """goal over array reads: split on its conditions, then show that the same cell is read"""
        goal = simpb(goal)
        if isinstance(goal, bool):
            return goal or self.bvint(pc, z3.BoolVal(True), 400) == 'unsat'
        if z3.is_and(goal):
            return all(self.prove_select(pc, x, depth) for x in goal.children())
        it = self.find(goal, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE))
        if it is not None and not self.has_array(it.arg(0)):
            if depth > 8:
                return False
            for c, br in ((it.arg(0), it.arg(1)), (z3.Not(it.arg(0)), it.arg(2))):
                if self.bvint(pc, c, 600) == 'unsat':
                    continue
                if not self.prove_select(pc + [c], z3.substitute(goal, (it, br)), depth + 1):
                    return False
            return True
        if z3.is_eq(goal):
            a, b = goal.arg(0), goal.arg(1)
            if z3.is_select(a) and z3.is_select(b) and a.arg(0).eq(b.arg(0)):
                return self.bvint(pc, a.arg(1) != b.arg(1), 3000) == 'unsat'
        return self.bvint(pc, z3.Not(goal), 1000) == 'unsat'

    def bvint(self, pc, neg, timeout):
        """cvc5 with bit vectors translated to integer arithmetic: strong on chains of linear comparisons"""
        t0 = time.time()
        left = timeout / 1000.0
        if self.deadline:
            left = min(left, self.deadline - t0)
            if left <= 0:
                raise Budget()
        s = z3.Solver()
        for t in self.slice(pc, neg):
            s.add(t)
        s.add(neg)
        try:
            cs = cvc5.Solver()
            cs.setOption('solve-bv-as-int', 'sum')
            cs.setOption('tlimit-per', str(max(1, int(left * 1000))))
            p = cvc5.InputParser(cs)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'q')
            sm = p.getSymbolManager()
            r = ''
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                r = c.invoke(cs, sm) or r
            r = r.strip()
        except RuntimeError:
            r = 'unknown'
        if os.environ.get('VC_DUMP') and r not in ('sat', 'unsat'):
            open(os.path.join(os.environ['VC_DUMP'], 'bvint%d_%d.smt2' % (os.getpid(), self.stats['queries'])), 'w').write(s.to_smt2())
        if os.environ.get('VC_SLOW'):
            print('bvint %.2f %s %s' % (time.time() - t0, r, str(neg)[:100].replace('\n', ' ')), flush=True)
        self.stats['solver_time'] += time.time() - t0
        self.stats['queries'] += 1
        return r if r in ('sat', 'unsat') else 'unknown'

    def vars_of(self, t):
        key = t.get_id()
        c = self.prodcache.get(('vars', key))
        if c is not None:
            return c[0]
        seen = set()
        out = set()
        st = [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if x.num_args() == 0:
                        out.add(x.decl().name())
                st.extend(x.children())
        self.prodcache[('vars', key)] = (out, t)
        return out

    def slice(self, pc, goal):
        need = set(self.vars_of(goal))
        rest = [(t, self.vars_of(t)) for t in pc]
        keep = set()
        ch = True
        while ch:
            ch = False
            for i, (t, vs) in enumerate(rest):
                if i not in keep and (not vs or vs & need):
                    keep.add(i)
                    need |= vs
                    ch = True
        return [rest[i][0] for i in sorted(keep)]

    def concretize(self, st, c, model):
        """turn a model into the list of input values, preferring small sizes"""
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        lens = [t for (k, n, t) in st.log if k == 'len' and not isinstance(t, int)]
        extra = []
        if self.axioms_used(st):
            extra = [a for a in st.flags.get('exact', ())]
        best = model
        for lim in (4, 16, 64, 1024):
            q = [neg] + [z3.ULE(t, lim) for t in lens] + extra
            if not lens and not extra:
                break
            r, m = self.check(st.pc, z3.And(*q), 8000)
            if r == 'sat':
                best = m
                break
        if best is None:
            return None
        out = []
        for k, n, t in st.log:
            try:
                if k == 'bytes':
                    ln, arr, ew = t
                    L = ln if isinstance(ln, int) else best.eval(ln, model_completion=True).as_long()
                    L = min(L, 1 << 16)
                    vals = []
                    for i in range((L + ew - 1) // ew):
                        vals.append(best.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True).as_long())
                    out.append((n, 'bytes', [ew, L] + vals))
                else:
                    v = t
                    if isinstance(v, bool):
                        v = int(v)
                    elif z3.is_bool(v):
                        v = int(z3.is_true(best.eval(v, model_completion=True)))
                    elif not isinstance(v, int):
                        v = best.eval(v, model_completion=True).as_long()
                    out.append((n, 'int', [v]))
            except Exception as e:
                out.append((n, 'err', [str(e)]))
        return out

    def axioms_used(self, st):
        return bool(st.flags.get('exact'))

    # ------------------------------------------------------------------ values
    def cval(self, c):
        if c.cache is not None:
            return c.cache
        v = self._cval(c)
        if c.kind not in ('undef',) and not (c.kind == 'agg'):
            c.cache = v
        return v

    def undef(self, ty):
        k = ty.kind
        if k == 'int':
            return self.freshb('undef') if ty.bits == 1 else self.fresh(ty.bits, 'undef')
        if k == 'ptr':
            return Ptr(0, self.fresh(64, 'undefp'))
        if k == 'struct':
            return [self.undef(t) for t in ty.elems]
        if k in ('array', 'vec'):
            return [self.undef(ty.elem) for _ in range(ty.n)]
        if k == 'fp':
            return self.fresh(ty.bits, 'undef')
        raise Unsupported('undef ' + k)

    def zero(self, ty):
        k = ty.kind
        if k == 'int':
            return False if ty.bits == 1 else 0
        if k == 'ptr':
            return NULL
        if k == 'struct':
            return [self.zero(t) for t in ty.elems]
        if k in ('array', 'vec'):
            return [self.zero(ty.elem)] * ty.n
        if k == 'fp':
            return 0
        raise Unsupported('zero ' + k)

    def _cval(self, c):
        k = c.kind
        if k == 'int':
            return bool(c.v) if c.ty.bits == 1 else c.v
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(c.ty)
        if k == 'fn':
            return self.fn_ptr(c.v)
        if k == 'gvar':
            return self.gvar_ptr(c.v)
        if k == 'zero':
            return self.zero(c.ty)
        if k == 'agg':
            return [self.cval(x) for x in c.v]
        if k == 'bytes':
            return list(c.v)
        if k == 'fp':
            import struct
            s = c.v
            if s.startswith('0x'):
                h = s[2:]
                if h[0] in 'KLMHR':
                    return int(h[1:], 16)
                d = int(h, 16)
                f = struct.unpack('<d', d.to_bytes(8, 'little'))[0]
            else:
                f = float(s)
            if c.ty.bits == 32:
                return int.from_bytes(struct.pack('<f', f), 'little')
            if c.ty.bits == 64:
                return int.from_bytes(struct.pack('<d', f), 'little')
            raise Unsupported('fp80 const')
        if k == 'expr':
            op, ops, x = c.v
            if op == 'gep':
                vs = [self.cval(o) for o in ops]
                return self.gep(x, vs, [o.ty for o in ops])
            if op == 'ptrtoint':
                return trunc(self.ptr2int(self.cval(ops[0])), 64, c.ty.bits) if c.ty.bits < 64 \
                    else self.ptr2int(self.cval(ops[0]))
            if op == 'inttoptr':
                return self.int2ptr(self.cval(ops[0]))
            if op in ('bitcast', 'addrspacecast'):
                return self.cval(ops[0])
            if op in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr'):
                return self.binop(op, self.cval(ops[0]), self.cval(ops[1]), c.ty, None)
            if op == 'icmp':
                return self.icmp(x, self.cval(ops[0]), self.cval(ops[1]), ops[0].ty)
            if op == 'trunc':
                return trunc(self.cval(ops[0]), ops[0].ty.bits, c.ty.bits)
        raise Unsupported('constant %s %r' % (k, c.v))

    def gep(self, sty, vs, tys):
        p = vs[0]
        off = p.off
        t = sty
        delta = 0
        for i in range(1, len(vs)):
            idx = vs[i]
            if i == 1:
                sz = t.size
            elif t.kind == 'struct':
                delta = add(delta, t.offs[idx], 64)
                t = t.elems[idx]
                continue
            else:
                t = t.elem
                sz = t.size
            if isinstance(idx, bool) or not isinstance(idx, int) and z3.is_bool(idx):
                raise Unsupported('gep bool index')
            w = tys[i].bits
            idx = sext(idx, w, 64) if w < 64 else idx
            if isinstance(idx, int):
                delta = add(delta, (idx * sz) & MASK[64], 64)
            elif sz:
                if sz & (sz - 1) == 0:
                    delta = add(delta, shl(idx, sz.bit_length() - 1, 64), 64)
                else:
                    delta = add(delta, idx * z3.BitVecVal(sz, 64), 64)
        r = add(off, delta, 64)
        if not isinstance(r, int):
            r = simp(r)
        return Ptr(p.obj, r)

    def ev(self, fr, o):
        if isinstance(o, int):
            v = fr.regs[o]
            if type(v) is merge.PSel:
                return merge.resolve(self, v)
            return v
        return self.cval(o)

    def evr(self, fr, o):
        if isinstance(o, int):
            return fr.regs[o]
        return self.cval(o)

    # ------------------------------------------------------------------ memory
    def access(self, st, p, n, what, write=False):
        """obligations for touching n bytes at p; returns the object"""
        if not isinstance(p, Ptr):
            raise Unsupported('access through non-pointer')
        if p.obj == 0:
            self.oblige(st, False, self.at(st, 'no null/invalid pointer %s' % what), 'memory')
            raise PathEnd()
        o = self.obj(st, p.obj)
        if o is None:
            raise Unsupported('dead object')
        if not o.alive:
            self.oblige(st, False, self.at(st, '%s of dead object' % what), 'memory')
            raise PathEnd()
        if o.kind == 'fn':
            self.oblige(st, False, self.at(st, '%s of code' % what), 'memory')
            raise PathEnd()
        if write and o.ro:
            self.oblige(st, False, self.at(st, 'write to read-only object'), 'memory')
        if isinstance(p.off, int) and isinstance(n, int) and isinstance(o.size, int):
            ok = p.off + n <= o.size
        else:
            ok = band(ule(n, o.size, 64), ule(p.off, sub(o.size, n, 64), 64))
        self.oblige(st, ok, self.at(st, '%s in bounds' % what), 'memory')
        if st.flags.get('guardon') and not self.predmode:
            self.guarded(st, p, n, what, write)
        return o

    def guarded(self, st, p, n, what, wr):
        """accesses to guarded ranges need the ownership flag of the range (bit 0: may read, bit 1: may write)"""
        for oid, off, ln, fp in st.flags.get('guards', ()):
            if oid != p.obj:
                continue
            apart = bor(bor(eq(n, 0, 64), ule(add(p.off, n, 64), off, 64)), ule(add(off, ln, 64), p.off, 64))
            if simpb(apart) is True:
                continue
            v = self.obj(st, fp.obj).read(self, fp.off, 1)
            own = not_(eq(and_(v, 2 if wr else 1, 8), 0, 8))
            self.oblige(st, bor(apart, own), self.at(st, '%s only while owned (locked)' % what), 'memory')

    def at(self, st, s):
        if self.dry or self.predmode:
            return s
        # name the innermost frame that lies outside the standard library
        for f in reversed(st.frames):
            i = f.fn.blocks[f.bi].insts[f.ii]
            fl = i.file or ''
            if fl and not fl.startswith('/usr/') and not '/include/c++/' in fl:
                return '%s in %s' % (s, f.fn.name)
        return '%s in %s' % (s, st.frames[-1].fn.name)

    def load(self, st, p, ty):
        k = ty.kind
        if k == 'struct':
            return [self.load(st, Ptr(p.obj, add(p.off, ty.offs[i], 64)), t) for i, t in enumerate(ty.elems)]
        if k in ('array', 'vec'):
            return [self.load(st, Ptr(p.obj, add(p.off, i * ty.elem.size, 64)), ty.elem) for i in range(ty.n)]
        n = ty.store
        o = self.access(st, p, n, 'load')
        v = o.read(self, p.off, n)
        if k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(0, v)
            return self.int2ptr_lazy(v, o, p)
        if isinstance(v, Ptr):
            v = self.ptr2int(v)
        if not isinstance(v, int):
            v = norm(v)
        if k == 'int':
            if ty.bits == 1:
                return i2b(extract(v, 0, 0)) if not isinstance(v, int) else bool(v & 1)
            if ty.bits < 8 * n:
                v = trunc(v, 8 * n, ty.bits)
            return v
        if k == 'fp':
            if ty.bits < 8 * n:
                v = trunc(v, 8 * n, ty.bits)
            return v
        raise Unsupported('load ' + k)

    def int2ptr_lazy(self, v, o, p):
        try:
            return self.int2ptr(v)
        except Unsupported:
            # an integer nobody can dereference
            return Ptr(0, v)

    def store(self, st, p, v, ty):
        k = ty.kind
        if k == 'struct':
            for i, t in enumerate(ty.elems):
                self.store(st, Ptr(p.obj, add(p.off, ty.offs[i], 64)), v[i], t)
            return
        if k in ('array', 'vec'):
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, add(p.off, i * ty.elem.size, 64)), v[i], ty.elem)
            return
        n = ty.store
        self.access(st, p, n, 'store', True)
        o = self.wobj(st, p.obj)
        if k == 'ptr':
            pass
        elif k == 'int':
            if ty.bits == 1:
                v = b2i(v, 8)
            elif ty.bits < 8 * n:
                v = zext(v, ty.bits, 8 * n)
        elif k == 'fp':
            if ty.bits < 8 * n:
                v = zext(v, ty.bits, 8 * n)
        else:
            raise Unsupported('store ' + k)
        if isinstance(v, Ptr) and v.obj == 0:
            v = v.off
        off = p.off
        if st.writes is not None:
            st.writes.add((p.obj, off if isinstance(off, int) else None, n))
        o.write(self, off, n, v)

    def memcpy(self, st, d, s, n, what='memcpy'):
        n = simp(n)
        if n == 0:
            return
        if not isinstance(n, int):
            if self.known(eq(n, 0, 64)) is True:
                return
            # zero-length copies may use any pointer
            if d.obj == 0 or s.obj == 0:
                if self.decide(eq(n, 0, 64)):
                    return
            if isinstance(self.known(eq(n, 0, 64)), bool) is False:
                od = self.obj(st, d.obj)
                os_ = self.obj(st, s.obj)
                # bounds hold vacuously for n == 0: check offset <= size as well
                pass
        so = self.access(st, s, n, what + ' source')
        self.access(st, d, n, what + ' destination', True)
        do = self.wobj(st, d.obj)
        so = self.obj(st, s.obj)
        if st.writes is not None:
            if isinstance(n, int) and isinstance(d.off, int) and n <= 4096:
                st.writes.add((d.obj, d.off, n))
            else:
                st.writes.add((d.obj, None, 0))
        if isinstance(n, int) and n <= 256 and isinstance(d.off, int) and isinstance(s.off, int):
            items = []
            pos = 0
            while pos < n:
                c = so.cells.get(s.off + pos)
                if c is not None and c[0] <= n - pos:
                    items.append((pos, c[0], c[1]))
                    pos += c[0]
                    continue
                k = 1
                while pos + k < n and k < 8 and (s.off + pos + k) not in so.cells:
                    k += 1
                while k & (k - 1):
                    k -= 1
                items.append((pos, k, so.read(self, s.off + pos, k)))
                pos += k
            for pos, k, v in items:
                do.write(self, d.off + pos, k, v)
            return
        src = self.snapshot(st, so)
        do.flush()
        do.base = NCopy(d.off, n, src, s.off, do.base)

    def snapshot(self, st, o):
        """immutable view of an object's present content"""
        if o.cells:
            c = o.clone(None)
            c.owner = object()
            return c
        return o.base

    def memset(self, st, d, b, n):
        n = simp(n)
        if n == 0:
            return
        if not isinstance(n, int) and d.obj == 0:
            if self.decide(eq(n, 0, 64)):
                return
        self.access(st, d, n, 'memset', True)
        o = self.wobj(st, d.obj)
        if st.writes is not None:
            st.writes.add((d.obj, d.off if isinstance(d.off, int) and isinstance(n, int) else None,
                           n if isinstance(n, int) else 0))
        if isinstance(n, int) and isinstance(d.off, int) and n <= 256:
            pos = 0
            while pos < n:
                k = min(8, n - pos)
                while k & (k - 1):
                    k -= 1
                v = concat([(b, 8)] * k)
                o.write(self, d.off + pos, k, v)
                pos += k
            return
        o.flush()
        o.base = NSet(d.off, n, b, o.base)

    # ------------------------------------------------------------------ arithmetic
    def mul(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return (a * b) & MASK[w]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if x == 0:
                    return 0
                if x == 1:
                    return y
                if x & (x - 1) == 0:
                    return shl(y, x.bit_length() - 1, w)
        L = self.limb
        if not L:
            return bv(a, w) * bv(b, w)
        la = self.limbs(a, w, L)
        lb = self.limbs(b, w, L)
        if all(isinstance(x, int) and x == 0 for x in la) or \
           all(isinstance(x, int) and x == 0 for x in lb):
            return 0
        r = 0
        terms = []
        for i, x in enumerate(la):
            if isinstance(x, int) and x == 0:
                continue
            for j, y in enumerate(lb):
                if isinstance(y, int) and y == 0:
                    continue
                if (i + j) * L >= w:
                    continue
                p = self.limbprod(x, y, L)
                if 2 * L <= w:
                    t = shl(zext(p, 2 * L, w), (i + j) * L, w)
                else:
                    t = shl(trunc(p, 2 * L, w), (i + j) * L, w)
                terms.append((i + j, t))
        for _, t in sorted(terms, key=lambda z: z[0]):
            r = add(r, t, w)
        return r

    def limbs(self, a, w, L):
        out = []
        for lo in range(0, w, L):
            hi = min(lo + L, w) - 1
            x = simp(extract(a, hi, lo))
            if hi - lo + 1 < L:
                x = zext(x, hi - lo + 1, L)
            out.append(x)
        return out

    def limbprod(self, x, y, L):
        if isinstance(x, int) and isinstance(y, int):
            return x * y
        if isinstance(x, int) or isinstance(y, int):
            return norm(bv(zext(x, L, 2 * L), 2 * L) * bv(zext(y, L, 2 * L), 2 * L))
        if y.get_id() < x.get_id() and not self.unfold:
            x, y = y, x
        f = z3.Function('mul%d' % L, z3.BitVecSort(L), z3.BitVecSort(L), z3.BitVecSort(2 * L))
        p = f(x, y)
        st = self.cur
        key = ('prod', p.get_id())
        if key not in st.flags:
            st.flags[key] = p
            mx = MASK[L] * MASK[L]
            fs = [z3.ULE(p, z3.BitVecVal(mx, 2 * L))]
            if self.unfold:
                # x*y = 2*floor(x/2)*y + (x odd ? y : 0), an identity of the naturals
                h = simp(lshr(x, 1, L))
                q = 0 if isinstance(h, int) and h == 0 else (
                    zext(y, L, 2 * L) if isinstance(h, int) and h == 1 else f(bv(h, L), y))
                odd = eq(extract(x, 0, 0), 1, 1)
                yy = zext(y, L, 2 * L)
                fs.append(simpb(eq(p, simp(add(shl(q, 1, 2 * L), ite(odd, yy, 0, 2 * L), 2 * L)), 2 * L)))
                if not isinstance(q, int):
                    fs.append(z3.ULE(bv(q, 2 * L), z3.BitVecVal(MASK[2 * L] >> 1, 2 * L)))
            for c in fs:
                c = simpb(c)
                if isinstance(c, bool):
                    continue
                self.prodax[c.get_id()] = c
                for d in (c.children() if z3.is_and(c) else ()):
                    self.prodax[d.get_id()] = d
                if self.sidefacts is not None:
                    self.sidefacts.append(c)
                else:
                    self.assume(st, c)
            ex = z3.Concat(z3.BitVecVal(0, L), x) * z3.Concat(z3.BitVecVal(0, L), y)
            st.flags['exact'] = st.flags.get('exact', ()) + (p == ex,)
        return p

    def binop(self, op, a, b, ty, I):
        if ty.kind == 'vec':
            return [self.binop1(op, x, y, ty.elem, I) for x, y in zip(a, b)]
        return self.binop1(op, a, b, ty, I)

    def binop1(self, op, a, b, ty, I):
        w = ty.bits
        if w == 1:
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bxor(a, b)
            if op == 'mul':
                return band(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        if op == 'add':
            return add(a, b, w)
        if op == 'sub':
            r = sub(a, b, w)
            return r if isinstance(r, int) else simp(r)
        if op == 'and':
            return and_(a, b, w)
        if op == 'or':
            return or_(a, b, w)
        if op == 'xor':
            return xor(a, b, w)
        if op == 'shl':
            return shl(a, b, w)
        if op == 'lshr':
            return lshr(a, b, w)
        if op == 'ashr':
            return ashr(a, b, w)
        if op == 'mul':
            return self.mul(a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not self.predmode and not self.dry:
                self.oblige(self.cur, not_(eq(b, 0, w)), self.at(self.cur, 'divisor is non-zero'), 'arith')
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise PathEnd()
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & MASK[w]
            if isinstance(b, int) and b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                if op == 'udiv':
                    return lshr(a, k, w)
                if op == 'urem':
                    return and_(a, b - 1, w)
            A, B = bv(a, w), bv(b, w)
            if op == 'udiv':
                return z3.UDiv(A, B)
            if op == 'urem':
                return z3.URem(A, B)
            if op == 'sdiv':
                if I is not None and I.x and I.x[0] and isinstance(b, int) and b & (b - 1) == 0 and b < 1 << (w - 1):
                    # exact division (a pointer difference)
                    k = b.bit_length() - 1
                    if not self.predmode and not self.dry:
                        self.oblige(self.cur, eq(and_(a, b - 1, w), 0, w), self.at(self.cur, 'pointer difference is a multiple of the element size'), 'arith')
                    return ashr(a, k, w)
                return A / B
            return z3.SRem(A, B)
        raise Unsupported(op)

    def icmp(self, pred, a, b, ty):
        if ty.kind == 'vec':
            return [self.icmp(pred, x, y, ty.elem) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(0, a)
            if not isinstance(b, Ptr):
                b = Ptr(0, b)
            if a.obj == b.obj:
                return icmp(pred, a.off, b.off, 64)
            if pred in ('eq', 'ne'):
                if (a.obj == 0 and not isinstance(a.off, int)) or (b.obj == 0 and not isinstance(b.off, int)):
                    r = icmp(pred, self.ptr2int(a), self.ptr2int(b), 64)
                    self.addr_facts(self.cur, r)
                    return r
                return pred == 'ne'
            r = icmp(pred, self.ptr2int(a), self.ptr2int(b), 64)
            self.addr_facts(self.cur, r)
            return r
        w = ty.bits
        if w == 1:
            x = bxor(a, b)
            if pred == 'eq':
                return not_(x)
            if pred == 'ne':
                return x
            if pred == 'ult' or pred == 'sgt':
                return band(not_(a), b)
            if pred == 'ugt' or pred == 'slt':
                return band(a, not_(b))
            if pred == 'ule' or pred == 'sge':
                return bor(not_(a), b)
            return bor(a, not_(b))
        r = icmp(pred, a, b, w)
        if w == 64 and not isinstance(r, bool):
            r = simpb(r)
            self.addr_facts(self.cur, r)
        return r

    # ------------------------------------------------------------------ control
    def push_call(self, st, F, args):
        if F.decl:
            raise Unsupported('call of external function ' + F.name)
        blocks = F.blocks
        self.fnseen[F.name] = self.fnseen.get(F.name, 0) + 1
        fr = Frame()
        fr.fn = F
        fr.bi, fr.ii, fr.prev = 0, 0, None
        fr.regs = [None] * F.nslots
        fr.allocas = []
        fr.cnt = {}
        fr.ghost = False
        for i in range(F.nargs):
            a = args[i]
            bt = F.byval[i]
            if bt is not None:
                p = self.new_obj(st, bt.size, 16, 'stack', 'byval')
                self.memcpy(st, p, a, bt.size)
                fr.allocas.append(p.obj)
                a = p
            fr.regs[i] = a
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        st.frames.append(fr)

    def pop_frame(self, st):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = self.wobj(st, a)
            o.alive = False
            o.cells = {}
            o.base = NZero()
            # drop entirely: pointers to it keep the id, access() finds it dead
        return fr

    def do_return(self, st, v):
        # stop condition?
        if st.stops:
            s = st.stops[-1]
            if s[0] == 'join' and s[1] == len(st.frames):
                if s[2] != merge.RET:
                    fr = st.frames[-1]
                    if s[2] == fr.bi and fr.ii == fr.fn.blocks[fr.bi].nphi:
                        # a loop was left by a jump to this block: this is the join
                        st.stops.pop()
                        st.why = 'join'
                        raise PathEnd()
                    raise Unsupported('join missed')
                st.stops.pop()
                st.ret = v
                st.why = 'join'
                raise PathEnd()
            if s[0] == 'ret' and s[1] == len(st.frames):
                self.pop_frame(st)
                st.stops.pop()
                st.ret = v
                st.why = 'ret'
                raise PathEnd()
        if self.pop_frame(st).ghost:        # a hook returns to the instruction it interrupted
            st.flags['inhook'] = 0
            return
        if not st.frames:
            st.why = 'end'
            st.ret = v
            raise PathEnd()
        fr = st.frames[-1]
        I = fr.fn.blocks[fr.bi].insts[fr.ii]
        fr.regs[I.dst] = v
        if I.op == 'invoke':
            self.goto(st, I.x['normal'])
        else:
            fr.ii += 1

    def goto(self, st, target):
        fr = st.frames[-1]
        F = fr.fn
        src = fr.bi
        L = irload.loops(F)
        if st.stops:
            s = st.stops[-1]
            if s[0] == 'join' and s[1] == len(st.frames) and s[2] == target:
                if L and fr.cnt:
                    for h in list(fr.cnt):
                        if target not in L[h]:
                            del fr.cnt[h]
                self.enter_block(st, fr, target)
                st.why = 'join'
                st.stops.pop()
                raise PathEnd()
        if L:
            if fr.cnt:
                # leaving loops resets their counters
                for h in list(fr.cnt):
                    if target not in L[h]:
                        del fr.cnt[h]
            if st.stops:
                s = st.stops[-1]
                if s[0] == 'loop' and s[1] == len(st.frames):
                    if target == s[2] and src in s[3]:
                        fr.prev = src
                        st.why = 'back'
                        st.stops.pop()
                        raise PathEnd()
                    if target not in s[3]:
                        self.enter_block(st, fr, target)
                        st.why = 'exit'
                        st.stops.pop()
                        raise PathEnd()
            if target in L:
                if src in L[target]:
                    c = fr.cnt.get(target)
                    if c is None:
                        fr.cnt[target] = c = (0, st.flags.get('nf', 0))
                    n = c[0] + 1
                    fr.cnt[target] = (n, c[1])
                    # only iterations that really branch on symbolic data count
                    if (st.flags.get('nf', 0) - c[1] > self.unwind or n > self.max_iter) and \
                            (F.name, target) not in self.cuts:
                        raise NeedCut(F.name, target)
                else:
                    fr.cnt[target] = (0, st.flags.get('nf', 0))
                    if (F.name, target) in self.cuts:
                        if st.flags.get('cfg_step') and st.hints:
                            self.step_loop(st, fr, target)
                        else:
                            self.cut_loop(st, fr, target)
                        raise PathEnd()
        self.enter_block(st, fr, target)

    def enter_block(self, st, fr, target):
        src = fr.bi
        B = fr.fn.blocks[target]
        fr.prev = src
        if B.nphi:
            vals = [self.evr(fr, B.insts[i].x[src]) for i in range(B.nphi)]
            for i in range(B.nphi):
                fr.regs[B.insts[i].dst] = vals[i]
        fr.bi = target
        fr.ii = B.nphi

    # ------------------------------------------------------------------ exceptions
    def throw(self, st, exc):
        """exc = (Ptr object, typeinfo name)"""
        st.pending = exc
        st.uncaught += 1
        self.unwind_frames(st)

    def unwind_frames(self, st):
        exc = st.pending
        while True:
            if st.stops:
                s = st.stops[-1]
                if s[0] == 'join' and s[1] == len(st.frames):
                    st.stops.pop()
                    st.why = 'exit'
                    raise PathEnd()
                if s[0] == 'ret' and s[1] == len(st.frames):
                    # exception leaves a predicate / sub-execution
                    fr = st.frames[-1]
                    I = fr.fn.blocks[fr.bi].insts[fr.ii]
                    if not (I.op == 'invoke' and self.lp_match(st, fr, I, exc) is not None):
                        self.pop_frame(st)
                        st.stops.pop()
                        st.why = 'throw'
                        raise PathEnd()
                elif s[0] == 'loop' and s[1] == len(st.frames):
                    fr = st.frames[-1]
                    I = fr.fn.blocks[fr.bi].insts[fr.ii]
                    if not (I.op == 'invoke' and self.lp_match(st, fr, I, exc) is not None):
                        st.stops.pop()
                        st.why = 'exit'
                        raise PathEnd()
            if not st.frames:
                st.why = 'uncaught'
                self.oblige(st, False, 'no exception escapes (%s)' % exc[1], 'exception')
                raise PathEnd()
            fr = st.frames[-1]
            I = fr.fn.blocks[fr.bi].insts[fr.ii]
            if I.op == 'invoke':
                m = self.lp_match(st, fr, I, exc)
                if m is not None:
                    st.pending = None
                    sel = m
                    obj = exc[0]
                    st.exc = exc
                    if self.lp_adj:
                        obj = Ptr(obj.obj, obj.off + self.lp_adj)
                    tgt = I.x['unwind']
                    try:
                        self.goto(st, tgt)
                    finally:        # also when this leaves a loop or reaches a join
                        fr = st.frames[-1]
                        if fr.bi == tgt:
                            LP = fr.fn.blocks[tgt].insts[fr.ii]
                            assert LP.op == 'landingpad'
                            fr.regs[LP.dst] = [obj, sel]
                            fr.ii += 1
                    return
            if len(st.frames) == 1:
                self.oblige(st, False, self.at(st, 'no exception escapes (%s)' % exc[1]), 'exception')
                raise PathEnd()
            self.pop_frame(st)

    def lp_match(self, st, fr, I, exc):
        B = fr.fn.blocks[I.x['unwind']]
        LP = B.insts[B.nphi]
        cleanup, clauses = LP.x
        self.lp_adj = 0
        for c in clauses:
            if c.kind == 'null':
                return self.tid(None)
            if c.kind == 'gvar':
                off = self.ti_find(c.v.name, exc[1])
                if off is not None:
                    self.lp_adj = off
                    return self.tid(c.v.name)
            elif c.kind in ('agg', 'zero'):
                # filter clause: exception specification; empty filter = nothing allowed
                return -1 & 0xffffffff
        return 0 if cleanup else None

    def tid(self, name):
        k = name or '*'
        if k not in self.tids:
            self.tids[k] = len(self.tids) + 1
        return self.tids[k]

    def ti_bases(self, name):
        """the public direct bases of a class, with their offsets"""
        if name in STD_BASES:
            b = STD_BASES[name]
            return [(b, 0)] if b else []
        G = self.mod.globals.get(name)
        if G is None:
            return []
        init = self.mod.initializer(G)
        if init is None or init.kind != 'agg':
            return []
        rest = init.v[2:]
        if len(rest) == 1 and rest[0].kind == 'gvar':
            return [(rest[0].v.name, 0)]
        out = []
        for i, c in enumerate(rest):
            if c.kind == 'gvar':
                n = rest[i + 1]
                of = n.v if n.kind == 'int' else 0
                if not isinstance(of, int) or of & 1:
                    raise Unsupported('virtual base of ' + name)
                if of & 2:
                    out.append((c.v.name, of >> 8))
        return out

    def ti_find(self, clause, thrown):
        """offset of the base `clause` in an object of type `thrown`, None when it is none"""
        if clause == thrown:
            return 0
        r = None
        for b, off in self.ti_bases(thrown):
            x = self.ti_find(clause, b)
            if x is not None:
                if r is not None:
                    return None         # ambiguous
                r = off + x
        return r

    # ------------------------------------------------------------------ main loop
    def initial(self, F):
        st = State()
        st.frames, st.mem, st.pc, st.pcset, st.log = [], {}, [], set(), []
        st.pcid, st.drv = 0, set()
        st.ghosts, st.facts, st.stops, st.caught = [], [], [], []
        st.exc = st.pending = st.writes = st.model = st.why = st.ret = None
        st.uncaught = 0
        st.hints, st.flags, st.trace = [], {}, []
        st.nobj = 0
        st.covers = None
        st.tmap = {}
        st.owner = object()
        self.cur = st
        self.push_call(st, F, [])
        return st

    def explore(self, states, stop_collect=None):
        """run every state to its end; returns the list of finished states"""
        work = list(states)
        done = []
        while work:
            st = work.pop()
            r = self.run(st, work)
            done.append(st)
        return done

    def resume(self, st):
        """re-check the now innermost stop condition after an inner one was handled"""
        if st.pending is not None:
            self.unwind_frames(st)
            return
        fr = st.frames[-1]
        B = fr.fn.blocks[fr.bi]
        fresh = fr.ii == B.nphi and B.insts[fr.ii].op != 'ret'      # a block was just entered
        if st.stops:
            s = st.stops[-1]
            if s[1] == len(st.frames):
                # an inner loop was left by a jump; did it also leave / close this region?
                if s[0] == 'loop' and fr.bi not in s[3]:
                    st.why = 'exit'
                    st.stops.pop()
                    raise PathEnd()
                if s[0] == 'loop' and fr.bi == s[2] and fresh:
                    st.why = 'back'
                    st.flags['entered'] = True
                    st.stops.pop()
                    raise PathEnd()
                if s[0] == 'join' and fr.bi == s[2] and fresh:
                    st.why = 'join'
                    st.stops.pop()
                    raise PathEnd()
        if fresh:
            L = irload.loops(fr.fn)
            h = fr.bi
            if h in L and fr.prev not in L[h] and (fr.fn.name, h) in self.cuts:
                if st.flags.get('cfg_step') and st.hints:
                    raise Unsupported('stepwise loop entered from another loop')
                self.cut_loop(st, fr, h, True)
                raise PathEnd()

    def run(self, st, work):
        self.cur = st
        if st.flags.pop('fin', None):
            return
        if st.why == 'exit':
            st.why = None
            try:
                self.resume(st)
            except PathEnd:
                return
        st.why = None
        dispatch = self.dispatch
        stats = self.stats
        while True:
            fr = st.frames[-1]
            I = fr.fn.blocks[fr.bi].insts[fr.ii]
            stats['insts'] += 1
            if self.deadline and (stats['insts'] & 1023) == 0 and time.time() > self.deadline:
                raise Budget()
            try:
                h = dispatch.get(I.op)
                if h is None:
                    raise Unsupported('instruction ' + I.op)
                h(self, st, fr, I)
            except ForkOn as f:
                c = f.cond
                self.cur = st
                if f.checked:
                    a = b = True
                else:
                    a = self.feasible(st, c)
                    b = self.feasible(st, not_(c))
                if a and b:
                    st.flags['nf'] = st.flags.get('nf', 0) + 1
                    s2 = st.clone()
                    work.append(s2)
                    try:
                        self.assume(s2, not_(c))
                    except PathEnd:
                        work.pop()
                    self.cur = st
                    self.assume(st, c)
                elif a:
                    self.assume(st, c)
                elif b:
                    self.assume(st, not_(c))
                else:
                    st.why = 'infeasible'
                    return
            except CppThrow as t:
                try:
                    self.throw_std(st, t.ti)
                except PathEnd:
                    if not st.stops and st.why is None:
                        st.why = 'end'
                    stats['paths'] += 1
                    return
            except PathEnd:
                if st.why is None:
                    st.why = 'dead'
                stats['paths'] += 1
                return

    def throw_std(self, st, ti):
        p = self.new_obj(st, 16, 16, 'heap', 'exc')
        self.throw(st, (p, ti))

    def branch(self, st, fr, c, t, f):
        """two-way branch; forks"""
        c = simpb(c)
        if isinstance(c, bool):
            self.goto(st, t if c else f)
            return
        if t == f:
            self.goto(st, t)
            return
        if self.merge:
            k = self.known(c)
            if not isinstance(k, bool) and merge.merge_branch(self, st, fr, k, t, f):
                raise PathEnd()
        k = self.decide(c)   # raises ForkOn when both sides are possible
        self.goto(st, t if k else f)

    # instruction handlers -------------------------------------------------
    def i_br(self, st, fr, I):
        if not I.ops:
            self.goto(st, I.x[0])
            return
        self.branch(st, fr, self.ev(fr, I.ops[0]), I.x[0], I.x[1])

    def i_switch(self, st, fr, I):
        v = self.ev(fr, I.ops[0])
        cases, dflt, w = I.x
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for cv, t in cases:
                if int(cv) == v:
                    self.goto(st, t)
                    return
            self.goto(st, dflt)
            return
        if z3.is_bool(v):
            v = b2i(v, 1)
        for cv, t in cases:
            if self.decide(eq(v, int(cv), w)):
                self.goto(st, t)
                return
        self.goto(st, dflt)

    def i_ret(self, st, fr, I):
        if st.stops:
            s = st.stops[-1]
            if s[0] == 'loop' and s[1] == len(st.frames):
                st.stops.pop()
                st.why = 'exit'
                # the state resumes on this very instruction
                raise PathEnd()
        v = self.evr(fr, I.ops[0]) if I.ops else None
        self.do_return(st, v)

    def i_unreachable(self, st, fr, I):
        self.oblige(st, False, self.at(st, 'unreachable code is not reached'), 'ub')
        raise PathEnd()

    def i_alloca(self, st, fr, I):
        ty, al = I.x
        n = self.ev(fr, I.ops[0])
        if not isinstance(n, int):
            raise Unsupported('symbolic alloca')
        p = self.new_obj(st, ty.size * n, max(al, ty.align or 1, 1), 'stack', 'alloca')
        fr.allocas.append(p.obj)
        fr.regs[I.dst] = p
        fr.ii += 1

    def i_load(self, st, fr, I):
        p = self.evr(fr, I.ops[0])
        if type(p) is merge.PSel:
            if I.x[1] > 1:
                p = merge.resolve(self, p)
            else:
                fr.regs[I.dst] = merge.load_sel(self, st, p, I.ty)
                fr.ii += 1
                return
        fr.regs[I.dst] = self.load(st, p, I.ty)
        fr.ii += 1

    def i_store(self, st, fr, I):
        ty, al, order = I.x
        p = self.ev(fr, I.ops[1])
        v = self.ev(fr, I.ops[0])
        self.store(st, p, v, ty)
        fr.ii += 1

    def atomic(h, ptr, order):
        """an atomic access: the environment hook runs before it, the observer hook after it"""
        def f(self, st, fr, I):
            o = order(I)
            hk = st.flags.get('athooks')
            if o <= 1 or hk is None or st.flags.get('inhook') or self.predmode:
                return h(self, st, fr, I)
            p = self.evr(fr, I.ops[ptr])
            if type(p) is merge.PSel:
                p = merge.resolve(self, p)
            if not st.flags.get('ath'):
                self.hook(st, hk[0], [p, o])
                st.flags['ath'] = 1
                return
            h(self, st, fr, I)
            st.flags['ath'] = 0
            self.hook(st, hk[1], [p])
        return f

    def hook(self, st, F, args):
        st.flags['inhook'] = 1
        self.push_call(st, F, args)
        st.frames[-1].ghost = True

    def i_gep(self, st, fr, I):
        sty, tys = I.x
        p0 = self.evr(fr, I.ops[0])
        if type(p0) is merge.PSel:
            vs = [self.ev(fr, o) for o in I.ops[1:]]

            def g(p):
                return merge.PSel(p.c, g(p.a), g(p.b)) if type(p) is merge.PSel else self.gep(sty, [p] + vs, tys)
            fr.regs[I.dst] = g(p0)
            fr.ii += 1
            return
        vs = [self.ev(fr, o) for o in I.ops]
        fr.regs[I.dst] = self.gep(sty, vs, tys)
        fr.ii += 1

    def i_bin(self, st, fr, I):
        a, b = self.ev(fr, I.ops[0]), self.ev(fr, I.ops[1])
        fr.regs[I.dst] = self.binop(I.op, a, b, I.ty, I)
        fr.ii += 1

    def i_icmp(self, st, fr, I):
        pred, ty = I.x
        a, b = self.evr(fr, I.ops[0]), self.evr(fr, I.ops[1])

        def cmp(a, b):
            if type(a) is merge.PSel:
                return iteb(a.c, cmp(a.a, b), cmp(a.b, b))
            if type(b) is merge.PSel:
                return iteb(b.c, cmp(a, b.a), cmp(a, b.b))
            return self.icmp(pred, a, b, ty)
        fr.regs[I.dst] = cmp(a, b)
        fr.ii += 1

    def i_select(self, st, fr, I):
        c, a, b = (self.ev(fr, o) for o in I.ops)
        c = simpb(c)
        if isinstance(c, bool):
            fr.regs[I.dst] = a if c else b
        else:
            fr.regs[I.dst] = self.select(c, a, b, I.ty)
        fr.ii += 1

    def select(self, c, a, b, ty):
        k = ty.kind
        if k == 'int':
            return iteb(c, a, b) if ty.bits == 1 else ite(c, a, b, ty.bits)
        if k == 'ptr':
            if a.obj == b.obj:
                return Ptr(a.obj, ite(c, a.off, b.off, 64))
            if self.merge:
                return merge.PSel(c, a, b)
            return a if self.decide(c) else b
        if k == 'fp':
            return ite(c, a, b, ty.bits)
        if k == 'struct':
            return [self.select(c, x, y, t) for x, y, t in zip(a, b, ty.elems)]
        return [self.select(c, x, y, ty.elem) for x, y in zip(a, b)]

    def i_cast(self, st, fr, I):
        v = self.evr(fr, I.ops[0])
        src, dst, op = I.x, I.ty, I.op
        if type(v) is merge.PSel:
            def leaf(v):
                if type(v) is merge.PSel:
                    return ite(v.c, leaf(v.a), leaf(v.b), 64)
                return self.ptr2int(v)
            if op == 'ptrtoint' and dst.kind == 'int' and dst.bits == 64:
                fr.regs[I.dst] = leaf(v)
                fr.ii += 1
                return
            v = merge.resolve(self, v)
        if src.kind == 'vec':
            fr.regs[I.dst] = [self.cast(op, x, src.elem, dst.elem) for x in v]
        else:
            fr.regs[I.dst] = self.cast(op, v, src, dst)
        fr.ii += 1

    def cast(self, op, v, src, dst):
        if op == 'trunc':
            if dst.bits == 1:
                return i2b(trunc(v, src.bits, 1))
            return trunc(v, src.bits, dst.bits)
        if op == 'zext':
            if src.bits == 1:
                return b2i(v, dst.bits)
            return zext(v, src.bits, dst.bits)
        if op == 'sext':
            if src.bits == 1:
                return ite(v, MASK[dst.bits], 0, dst.bits)
            return sext(v, src.bits, dst.bits)
        if op == 'ptrtoint':
            r = self.ptr2int(v)
            return trunc(r, 64, dst.bits) if dst.bits < 64 else zext(r, 64, dst.bits)
        if op == 'inttoptr':
            if src.bits < 64:
                v = zext(v, src.bits, 64)
            return self.int2ptr(v)
        if op == 'bitcast':
            return v
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc', 'fptoui', 'fptosi'):
            if isinstance(v, int) and not isinstance(v, bool):
                return self.fpcast(op, v, src, dst)
            # floating point is opaque: any value
            return self.fresh(dst.bits, 'fp')
        raise Unsupported('cast ' + op)

    @staticmethod
    def tofloat(v, bits):
        import struct
        return struct.unpack('<f' if bits == 32 else '<d', v.to_bytes(bits // 8, 'little'))[0]

    @staticmethod
    def fromfloat(f, bits):
        import struct
        return int.from_bytes(struct.pack('<f' if bits == 32 else '<d', f), 'little')

    def fpcast(self, op, v, src, dst):
        if 80 in (src.bits if src.kind == 'fp' else 0, dst.bits if dst.kind == 'fp' else 0):
            return self.fresh(dst.bits, 'fp')
        if op in ('uitofp', 'sitofp'):
            return self.fromfloat(float(v if op == 'uitofp' else sgn(v, src.bits)), dst.bits)
        f = self.tofloat(v, src.bits)
        if op in ('fpext', 'fptrunc'):
            return self.fromfloat(f, dst.bits)
        return int(f) & MASK[dst.bits]

    def i_fbin(self, st, fr, I):
        a, b = self.ev(fr, I.ops[0]), self.ev(fr, I.ops[1])
        if isinstance(a, int) and isinstance(b, int) and I.ty.kind == 'fp' and I.ty.bits in (32, 64):
            x, y = self.tofloat(a, I.ty.bits), self.tofloat(b, I.ty.bits)
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                 'fdiv': lambda: x / y if y else float('inf')}[I.op]()
            fr.regs[I.dst] = self.fromfloat(r, I.ty.bits)
        else:
            fr.regs[I.dst] = self.fresh(I.ty.bits, 'fp')
        fr.ii += 1

    def i_fcmp(self, st, fr, I):
        fr.regs[I.dst] = self.freshb('fcmp')
        fr.ii += 1

    def i_extractvalue(self, st, fr, I):
        v = self.ev(fr, I.ops[0])
        for i in I.x:
            v = v[i]
        fr.regs[I.dst] = v
        fr.ii += 1

    def i_insertvalue(self, st, fr, I):
        v = self.ev(fr, I.ops[0])
        x = self.ev(fr, I.ops[1])

        def ins(v, path):
            v = list(v)
            v[path[0]] = x if len(path) == 1 else ins(v[path[0]], path[1:])
            return v
        fr.regs[I.dst] = ins(v, I.x)
        fr.ii += 1

    def i_freeze(self, st, fr, I):
        fr.regs[I.dst] = self.ev(fr, I.ops[0])
        fr.ii += 1

    def i_fence(self, st, fr, I):
        fr.ii += 1

    def i_atomicrmw(self, st, fr, I):
        p = self.ev(fr, I.ops[0])
        v = self.ev(fr, I.ops[1])
        old = self.load(st, p, I.ty)
        op = I.x[0]
        if op == 'xchg':
            new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(op, old, v, I.ty, None)
        elif op == 'nand':
            new = xor(and_(old, v, I.ty.bits), MASK[I.ty.bits], I.ty.bits)
        else:
            c = {'max': sle(v, old, I.ty.bits), 'min': sle(old, v, I.ty.bits),
                 'umax': ule(v, old, I.ty.bits), 'umin': ule(old, v, I.ty.bits)}[op]
            new = ite(c, old, v, I.ty.bits)
        self.store(st, p, new, I.ty)
        fr.regs[I.dst] = old
        fr.ii += 1

    def i_cmpxchg(self, st, fr, I):
        weak, ty = I.x[:2]
        p, e, d = (self.ev(fr, o) for o in I.ops)
        old = self.load(st, p, ty)
        c = self.icmp('eq', old, e, ty)
        c = simpb(c)
        ok = self.decide(c)
        if ok and weak:
            key = ('weak', id(I), len(st.trace))
            sp = st.flags.get(key)
            if sp is None:
                sp = self.freshb('spurious')
                st.flags[key] = sp
            ok = not self.decide(sp)
            st.flags.pop(key)
            st.trace.append(0)
        if ok:
            self.store(st, p, d, ty)
        fr.regs[I.dst] = [old, ok]
        fr.ii += 1

    def i_resume(self, st, fr, I):
        exc = st.exc
        v = self.ev(fr, I.ops[0])
        # the exception object identifies the exception
        for e in [st.exc] + st.caught:
            if e is not None and isinstance(v[0], Ptr) and e[0].obj == v[0].obj:
                exc = e
                break
        ti = st.tmap.get(v[0].obj)
        if ti is not None:
            exc = (Ptr(v[0].obj, 0), ti)
        st.uncaught -= 1
        self.rethrow_through(st, exc)

    def rethrow_through(self, st, exc):
        # continue unwinding from this frame: the current instruction is not an invoke
        st.pending = exc
        st.uncaught += 1
        if st.stops:
            s = st.stops[-1]
            if s[1] == len(st.frames):
                if s[0] == 'ret':
                    self.pop_frame(st)
                    st.stops.pop()
                    st.why = 'throw'
                    raise PathEnd()
                st.stops.pop()
                st.why = 'exit'
                raise PathEnd()
        if len(st.frames) == 1:
            self.oblige(st, False, self.at(st, 'no exception escapes (%s)' % exc[1]), 'exception')
            raise PathEnd()
        self.pop_frame(st)
        self.unwind_frames(st)

    def i_extractelement(self, st, fr, I):
        v, i = self.ev(fr, I.ops[0]), self.ev(fr, I.ops[1])
        if not isinstance(i, int):
            raise Unsupported('symbolic vector index')
        fr.regs[I.dst] = v[i]
        fr.ii += 1

    def i_insertelement(self, st, fr, I):
        v, x, i = (self.ev(fr, o) for o in I.ops)
        if not isinstance(i, int):
            raise Unsupported('symbolic vector index')
        v = list(v)
        v[i] = x
        fr.regs[I.dst] = v
        fr.ii += 1

    def i_shufflevector(self, st, fr, I):
        a, b = self.ev(fr, I.ops[0]), self.ev(fr, I.ops[1])
        c = list(a) + list(b)
        fr.regs[I.dst] = [c[i] if i >= 0 else self.undef(I.ty.elem) for i in I.x]
        fr.ii += 1

    def i_call(self, st, fr, I):
        callee = I.x['callee']
        if isinstance(callee, int):
            p = fr.regs[callee]
        else:
            if callee.kind == 'asm':
                fr.regs[I.dst] = None
                fr.ii += 1
                return
            if callee.kind == 'fn':
                self.call_fn(st, fr, I, callee.v)
                return
            p = self.cval(callee)
        if not isinstance(p, Ptr) or p.obj not in self.idfn:
            self.oblige(st, False, self.at(st, 'indirect call through a valid function pointer'), 'memory')
            raise PathEnd()
        if self.decide(eq(p.off, 0, 64)) is not True:
            raise Unsupported('call into the middle of a function')
        self.call_fn(st, fr, I, self.idfn[p.obj])

    def call_fn(self, st, fr, I, F):
        name = F.name
        R = self.replaces.get(name)
        if R is not None and not st.flags.get('norep_' + name) and not any(f.fn is R for f in st.frames):
            args = [self.ev(fr, o) for o in I.ops]
            self.push_call(st, R, args[:R.nargs])
            return
        b = builtins_get(name)
        if b is not None:
            args = [self.ev(fr, o) if not (not isinstance(o, int) and o.kind in ('md', 'asm')) else None
                    for o in I.ops]
            r = b(self, st, I, args)
            if r is NORET:
                return
            fr.regs[I.dst] = r
            if I.op == 'invoke':
                self.goto(st, I.x['normal'])
            else:
                fr.ii += 1
            return
        args = [self.ev(fr, o) for o in I.ops]
        if F.decl:
            raise Unsupported('call of external function ' + name)
        # spy hooks
        self.push_call(st, F, args)

    # ------------------------------------------------------------------ sub-execution
    def call_term(self, st, F, args):
        """the boolean value of predicate F(args) in state st, as a term"""
        base = len(st.pc)
        s = st.clone()
        s.stops.append(('ret', len(s.frames) + 1))
        s.writes = None
        save = self.cur
        self.predmode += 1
        sf, self.sidefacts = self.sidefacts, []
        try:
            self.cur = s
            self.push_call(s, F, args)
            outs = self.explore([s])
        finally:
            self.predmode -= 1
            self.cur = save
            facts, self.sidefacts = self.sidefacts, sf
        for c in facts:
            if sf is not None:
                sf.append(c)
            else:
                self.assume(st, c)
        r = False
        for o in outs:
            if o.why != 'ret':
                continue
            v = o.ret
            if not isinstance(v, bool) and not z3.is_bool(v):
                v = not_(eq(v, 0, F.retty.bits))
            r = bor(r, bandl(list(o.pc[base:]) + [v]))
        return simpb(r)

    from_loops = None


NORET = object()
NOTAGS = frozenset()
MULTAG = frozenset(['mul'])


def run_proof(engine, fname, deadline):
    """verify one harness entry; retries with more loops cut when unrolling does not end"""
    F = engine.mod.functions[fname]
    engine.deadline = deadline
    while True:
        engine.obls = {}
        engine.covers = {}
        try:
            st = engine.initial(F)
            ends = engine.explore([st])
            return ends
        except NeedCut as n:
            if (n.fn, n.header) in engine.cuts:
                raise Unsupported('loop cut did not converge')
            engine.cuts.add((n.fn, n.header))
            engine.dry = 0
            engine.predmode = 0


_at = Engine.__dict__['atomic']
for _n, _p, _o in (('i_load', 0, lambda I: I.x[1]), ('i_store', 1, lambda I: I.x[2]), ('i_atomicrmw', 0, lambda I: I.x[1]),
                   ('i_cmpxchg', 0, lambda I: I.x[2])):
    setattr(Engine, _n, _at(getattr(Engine, _n), _p, _o))

Engine.dispatch = {
    'br': Engine.i_br, 'switch': Engine.i_switch, 'ret': Engine.i_ret, 'unreachable': Engine.i_unreachable,
    'alloca': Engine.i_alloca, 'load': Engine.i_load, 'store': Engine.i_store, 'gep': Engine.i_gep,
    'icmp': Engine.i_icmp, 'select': Engine.i_select, 'extractvalue': Engine.i_extractvalue,
    'insertvalue': Engine.i_insertvalue, 'freeze': Engine.i_freeze, 'fence': Engine.i_fence,
    'atomicrmw': Engine.i_atomicrmw, 'cmpxchg': Engine.i_cmpxchg, 'call': Engine.i_call,
    'invoke': Engine.i_call, 'resume': Engine.i_resume, 'fcmp': Engine.i_fcmp,
    'extractelement': Engine.i_extractelement, 'insertelement': Engine.i_insertelement,
    'shufflevector': Engine.i_shufflevector,
}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    Engine.dispatch[_o] = Engine.i_bin
for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fpext', 'fptrunc',
           'fptoui', 'fptosi'):
    Engine.dispatch[_o] = Engine.i_cast
for _o in ('fadd', 'fsub', 'fmul', 'fdiv'):
    Engine.dispatch[_o] = Engine.i_fbin

from builtin_fns import builtins_get  # noqa: E402
import loopcut  # noqa: E402,F401
import merge  # noqa: E402
