#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only PROOF] [-v]

Compiles the specification of a property against /repo's current sources, generates and
discharges every obligation, writes evidence, and reports violations (replayed natively)."""
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, HERE)

UBSAN = 'signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,bool,alignment,null,' \
        'nonnull-attribute,bounds'
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
BASEFLAGS = ['-std=c++14', '-I' + os.path.join(VERIF, 'include'), '-D_GLIBCXX_EXTERN_TEMPLATE=0',
             '-DSHAREMIND_VC=1', '-w', '-pthread']
PASSES = 'function(sroa,early-cse,simplifycfg)'


def flags(prop, tmp):
    f = list(BASEFLAGS) + ['-I' + os.path.join(tmp, 'inc')]
    return f + prop.get('flags', [])


def compile_ir(prop, spec, tmp):
    out = os.path.join(tmp, os.path.basename(spec) + '.bc')
    stubs = []
    if prop.get('stubs'):
        stubs = [x for s in prop['stubs'] for x in ('-isystem', os.path.join(VERIF, 'stubs', s))]
    cmd = [CLANG] + flags(prop, tmp) + stubs + prop.get('irflags', []) + \
        ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c',
         '-fsanitize=' + UBSAN, '-fsanitize-trap=all', spec, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return out, None


def compile_native(prop, spec, proofs, tmp, suf=''):
    exe = os.path.join(tmp, os.path.basename(spec) + suf + '.exe')
    tab = os.path.join(tmp, os.path.basename(spec) + suf + '.tab.cpp')
    with open(tab, 'w') as f:
        f.write('#include <cstring>\nextern "C" {\n')
        for p in proofs:
            f.write('void %s();\n' % p)
        f.write('void (*vc_native_lookup(char const * n))() {\n')
        for p in proofs:
            f.write('if (!std::strcmp(n, "%s")) return &%s;\n' % (p, p))
        f.write('return nullptr; }\n}\n')
    cmd = [CLANG] + flags(prop, tmp) + \
        ['-DVC_NATIVE=1', '-O1', '-g', '-fsanitize=address,' + UBSAN, '-fno-sanitize-recover=all',
         spec, tab, '-o', exe] + prop.get('libs', [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return exe, None


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
            UBSAN_OPTIONS='print_stacktrace=0')


def classify(rc, err):
    if rc in (0, 77):
        return None
    m = re.search(r'VC-FAIL (.*)', err)
    if m:
        return 'contract: ' + m.group(1)
    m = re.search(r'(Assertion .* failed|runtime error: .*|ERROR: AddressSanitizer: [^\n]*|terminate called[^\n]*)', err)
    if m:
        return m.group(1)[:300]
    if rc in (-14,):
        return 'no termination within 20 s'
    return 'exit status %d' % rc


def worker(bc, proof, cfg, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (cfg.get('mem', 6) << 30, cfg.get('mem', 6) << 30))
        import irload
        import engine
        import z3
        t0 = time.time()
        mod = irload.Module(bc, PASSES)
        e = engine.Engine(mod, cfg)
        err = None
        try:
            engine.run_proof(e, proof, t0 + cfg['budget'])
        except engine.Unsupported as x:
            err = 'unsupported: %s [%s]' % (x, e.where(e.cur) if e.cur and e.cur.frames else '')
        except engine.Budget:
            err = 'time budget of %d s exhausted [%s]' % (cfg['budget'], e.where(e.cur) if e.cur and e.cur.frames else '')
        except MemoryError:
            err = 'memory budget exhausted'
        except z3.Z3Exception as x:
            err = 'solver exception: %s' % x
            if cfg.get('debug'):
                traceback.print_exc()
        obs = []
        for o in e.obls.values():
            obs.append(dict(name=o.name, kind=o.kind, n=o.n, status=o.status, backend=o.backend,
                            time=round(o.time, 3), inputs=o.log, detail=o.detail))
        q.put(dict(proof=proof, err=err, obligations=obs, covers=e.covers, stats=e.stats,
                   functions=e.fnseen, wall=time.time() - t0, cuts=sorted(map(list, e.cuts))))
    except BaseException as x:
        q.put(dict(proof=proof, err='internal: ' + ''.join(traceback.format_exception(x))[-1500:],
                   obligations=[], covers={}, stats={}, functions={}, wall=0, cuts=[]))


class Falsifier:
    """When a verification run is long, contracts still open are also searched for a concrete failing
    input of the real code in the background; a hit ends the run early (it can only refute, never prove)."""

    def __init__(self, prop, spec_of, proofs_of, seed, tmp, delay=25):
        self.hit = None
        self.stop = False
        self.res = None
        self.a = (prop, spec_of, proofs_of, seed, tmp, delay)
        self.th = threading.Thread(target=self.run, daemon=True)

    def run(self):
        prop, spec_of, proofs_of, seed, tmp, delay = self.a
        t = time.time()
        while time.time() - t < delay:
            if self.stop:
                return
            time.sleep(0.2)
        exes = {}
        for n in sorted(spec_of):
            if self.stop:
                return
            if self.res is None or n in self.res:
                continue
            s = spec_of[n]
            if s not in exes:
                exes[s] = compile_native(prop, s, proofs_of[s], tmp, '.early')[0]
            if not exes[s]:
                continue
            f = search(exes[s], n, 12, seed + 1000, tmp, 2, 'early')
            if f and not self.stop:
                self.hit = (n, f)
                return


def run_all(jobs, cfg, total_deadline, verbose=False, fals=None):
    """jobs: list of (bc, proof); runs in parallel, returns dict proof -> result"""
    res = {}
    if fals:
        fals.res = res
        fals.th.start()
    pending = list(jobs)
    running = []
    njobs = int(os.environ.get('VC_JOBS', '8'))
    ctx = mp.get_context('fork')
    while pending or running:
        if fals and fals.hit:
            for r in running:
                r[0].kill()
            break
        while pending and len(running) < njobs:
            bc, proof = pending.pop(0)
            q = ctx.SimpleQueue()
            c = dict(cfg)
            c['budget'] = max(5, min(cfg['budget'], total_deadline - time.time()))
            p = ctx.Process(target=worker, args=(bc, proof, c, q))
            p.start()
            running.append((p, q, proof, bc, time.time() + c['budget'] + 60))
        time.sleep(0.01)
        for r in list(running):
            p, q, proof, bc, dl = r
            got = None
            if not q.empty():
                got = q.get()
                p.join(5)
            elif not p.is_alive():
                if not q.empty():
                    got = q.get()
                else:
                    got = dict(proof=proof, err='verifier process died (exit %s)' % p.exitcode, obligations=[],
                               covers={}, stats={}, functions={}, wall=0, cuts=[])
            elif time.time() > dl:
                p.kill()
                got = dict(proof=proof, err='verifier hung', obligations=[], covers={}, stats={}, functions={},
                           wall=0, cuts=[])
            if got is not None:
                if p.is_alive():
                    p.kill()
                p.join()
                running.remove(r)
                res[proof] = got
                if verbose:
                    bad = [o for o in got['obligations'] if o['status'] != 'discharged']
                    print('%-40s %6.1fs obl=%d paths=%s insts=%s q=%s %s %s' % (
                        proof, got['wall'], sum(o['n'] for o in got['obligations']), got['stats'].get('paths'),
                        got['stats'].get('insts'), got['stats'].get('queries'),
                        'ERR ' + str(got['err']) if got['err'] else '',
                        ['%s:%s' % (o['status'], demangle(o['name'])) for o in bad] or ''), flush=True)
    if fals:
        fals.stop = True
        fals.th.join(1)
    return res


def demangle(s):
    def d(m):
        r = subprocess.run(['c++filt', m.group(0)], capture_output=True, text=True)
        return r.stdout.strip() or m.group(0)
    return re.sub(r'_Z\w+', d, s)


def replay_model(exe, proof, inputs, tmp):
    f = os.path.join(tmp, 'model.txt')
    with open(f, 'w') as h:
        for n, k, v in inputs:
            h.write('%s %s %s\n' % (n, k, ' '.join(map(str, v))))
    try:
        r = subprocess.run([exe, 'model', f], capture_output=True, text=True, errors='replace', timeout=20,
                           env=dict(NENV, VC_PROOF=proof), cwd=tmp)
        return classify(r.returncode, r.stderr)
    except subprocess.TimeoutExpired:
        return 'no termination within 20 s'


def search(exe, proof, secs, seed, tmp, n=4, tag=''):
    """random search for a failing input of one proof entry; returns (seed, what) or None"""
    ps = []
    for i in range(n):
        sf = os.path.join(tmp, 'seed%s%d.bin' % (tag, i))
        p = subprocess.Popen([exe, 'random', str(seed * 100 + i), str(secs), sf], stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=dict(NENV, VC_PROOF=proof), cwd=tmp)
        ps.append((p, sf))
    t0 = time.time()
    found = None
    while ps and not found and time.time() - t0 < secs + 25:
        for x in list(ps):
            p, sf = x
            if p.poll() is not None:
                err = p.stderr.read().decode(errors='replace')
                ps.remove(x)
                w = classify(p.returncode, err)
                if w:
                    s = int.from_bytes(open(sf, 'rb').read(8), 'little')
                    try:
                        r = subprocess.run([exe, 'seed', str(s)], capture_output=True, timeout=25,
                                           env=dict(NENV, VC_PROOF=proof), cwd=tmp)
                        w2 = classify(r.returncode, r.stderr.decode(errors='replace'))
                    except subprocess.TimeoutExpired:
                        w2 = 'no termination within 20 s'
                    if w2:
                        found = (s, w2)
                        break
        time.sleep(0.05)
    for p, _ in ps:
        p.kill()
        p.wait()
    return found


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--search-only', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    from props import PROPS
    prop = PROPS[a.prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % a.prop)
    try:
        return body(a, prop, seed, tier, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def body(a, prop, seed, tier, t0, tmp):
    os.makedirs(os.path.join(tmp, 'inc'))
    os.symlink(os.path.join(REPO, 'src'), os.path.join(tmp, 'inc', 'sharemind'))
    specs = [os.path.join(VERIF, 'specs', s) for s in prop['specs']]
    if tier == 'thorough':
        specs += [os.path.join(VERIF, 'specs', s) for s in prop.get('thorough_specs', [])]
    jobs = []
    spec_of = {}
    compile_errors = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: compile_ir(prop, s, tmp), specs))
    proofs_of = {}
    for s, (bc, err) in zip(specs, outs):
        if bc is None:
            compile_errors.append((s, err))
            continue
        txt = subprocess.run(['llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm', '--defined-only', bc],
                             capture_output=True, text=True).stdout
        names = sorted(set(re.findall(r' T (vc_proof_\w+)', txt)))
        proofs_of[s] = names
        for n in names:
            spec_of[n] = s
            if a.only and not re.search(a.only, n):
                continue
            jobs.append((bc, n))
    if a.search_only:
        for s, names in proofs_of.items():
            exe, err = compile_native(prop, s, names, tmp)
            if not exe:
                print(err[:3000])
                continue
            for n in names:
                if a.only and not re.search(a.only, n):
                    continue
                print(n, search(exe, n, a.search_only, seed, tmp, 8), flush=True)
        return 0
    if a.replay:
        return do_replay(a, prop, specs, proofs_of, tmp)
    hard = 780 if tier == 'quick' else 860
    budget = prop.get('budget', {}).get(tier, 300 if tier == 'quick' else 700)
    if a.budget:
        budget = a.budget
    cfg = dict(budget=budget, ob_timeout=prop.get('ob_timeout', 60 if tier == 'quick' else 200),
               mem=prop.get('mem', 5), tmp=tmp, debug=a.debug)
    cfg.update(prop.get('cfg', {}))
    # leave room for replaying and searching
    fals = None if prop.get('no_native') else Falsifier(prop, spec_of, proofs_of, seed, tmp)
    res = run_all(jobs, cfg, t0 + (560 if tier == 'quick' else 700), a.v, fals)
    early = fals.hit if fals else None
    failures = []       # (proof, obligation dict)
    total = disch = 0
    backends = {}
    solver_time = 0.0
    functions = set()
    vac = []
    insts = paths = queries = 0
    for n, r in res.items():
        for o in r['obligations']:
            total += o['n']
            good = sum(o['backend'].values()) if o['status'] == 'discharged' else 0
            disch += o['n'] if o['status'] == 'discharged' else 0
            for b, c in o['backend'].items():
                if o['status'] == 'discharged':
                    backends[b] = backends.get(b, 0) + c
            if o['status'] != 'discharged':
                failures.append((n, o))
        solver_time += r['stats'].get('solver_time', 0)
        insts += r['stats'].get('insts', 0)
        paths += r['stats'].get('paths', 0)
        queries += r['stats'].get('queries', 0)
        functions.update(f for f in r['functions'] if 'sharemind' in f)
        if r['err']:
            total += 1
            failures.append((n, dict(name='verification of %s completes' % n, kind='verifier', status='unknown',
                                     inputs=None, detail=r['err'], n=1)))
        elif not any(o['kind'] == 'contract' for o in r['obligations']):
            total += 1
            failures.append((n, dict(name='%s is not vacuous' % n, kind='vacuity', status='failed', inputs=None,
                                     detail='no contract obligation was reached', n=1)))
        for c, ok in r['covers'].items():
            total += 1
            if ok:
                disch += 1
            else:
                failures.append((n, dict(name='cover ' + c, kind='vacuity', status='failed', inputs=None,
                                         detail='unreachable', n=1)))
    if early:
        total += 1
        failures.append((early[0], dict(name=re.sub('^contract: ', '', early[1][1]), kind='contract', status='refuted',
                                        inputs=None, detail='refuted by a concrete input', n=1, early=early[1])))
    # covers never executed at all: compare with the spec text
    for s, names in proofs_of.items():
        if a.only or early:
            break
        txt = open(s).read()
        want = set(re.findall(r'vc_cover\("([^"]+)"\)', txt))
        have = set()
        for n in names:
            have |= set(res.get(n, {}).get('covers', {}))
        for c in want - have:
            total += 1
            failures.append((names[0], dict(name='cover ' + c, kind='vacuity', status='failed', inputs=None,
                                            detail='never reached', n=1)))
    for s, err in compile_errors:
        total += 1
        failures.append((os.path.basename(s), dict(name='the specification compiles against the sources', kind='compile',
                                                   status='failed', inputs=None, detail=err[-3000:], n=1)))
    known = load_known(a.prop)
    viol = 0
    lines = []
    if failures:
        lines, viol = report(a, prop, failures, known, spec_of, proofs_of, seed, tmp, t0, hard)
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'proof'),
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': 'python3-vt /verif/vc/check.py %s --tier %s' % (a.prop, tier),
            'trusted_base': TRUSTED + prop.get('trusted', []),
            'backends': backends, 'solver_time_s': round(solver_time, 1), 'solver_queries': queries,
            'proof_entries': len(res), 'paths': paths, 'ir_instructions_executed': insts,
            'functions_under_contract': len(functions),
            'functions': sorted(demangle_many(functions))[:400],
            'named_obligations': sorted(set(demangle(o['name']) for r in res.values() for o in r['obligations']
                                            if o['kind'] == 'contract'))[:200],
            'loops_cut_with_inferred_invariants': sorted(set('%s#%s' % (c[0], c[1]) for r in res.values() for c in r['cuts'])),
            'samples': [dict(proof=n, obligations=sum(o['n'] for o in r['obligations']),
                             wall_s=round(r['wall'], 2)) for n, r in sorted(res.items())][:80],
        },
        'assumptions': prop.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': viol,
    }
    if prop.get('level', 'proof') != 'proof':
        ev['coverage']['explanation'] = prop.get('explanation', '')
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for l in lines:
        print(l)
    print('%s: %d/%d obligations discharged, %d proof entries, %d functions, %.1f s (%s)' % (
        a.prop, disch, total, len(res), len(functions), time.time() - t0, 'VIOLATION' if viol else 'ok'))
    return 1 if viol else 0


TRUSTED = [
    'clang 18 front end and the LLVM passes sroa, early-cse, simplifycfg (the verified text is the LLVM IR of the real sources)',
    'the VC generator in /verif/vc (engine.py, mem.py, loopcut.py, builtin_fns.py)',
    'z3 and cvc5, and the linear normal form procedure in /verif/vc/ringnf.py',
    'contracts assumed for the C/C++ runtime in builtin_fns.py (operator new/delete, memcpy/memset/memcmp/memchr, exception ABI)',
]


def demangle_many(fs):
    fs = sorted(fs)
    if not fs:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(fs), capture_output=True, text=True)
    return r.stdout.split('\n')[:len(fs)]


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) proof=(\S+) obligation="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def report(a, prop, failures, known, spec_of, proofs_of, seed, tmp, t0, hard):
    lines = []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    exes = {}
    rest = []
    for n, o in failures:
        k = [x for x in known if x[0] == n and x[1] == o['name']]
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, k[0][2]))
        else:
            rest.append((n, o))
    lines = sorted(set(lines))
    if not rest:
        return lines, 0
    for n, o in rest:
        print('undischarged: [%s] %s: %s (%s)' % (o['status'], n, demangle(o['name']), demangle(str(o['detail']))[:1500]),
              flush=True)

    def exe_of(n):
        s = spec_of.get(n)
        if s is None:
            return None
        if s not in exes:
            e, err = compile_native(prop, s, proofs_of[s], tmp)
            exes[s] = e
            if e is None:
                print('native build failed:', err[-800:])
        return exes[s]
    found = None
    nofn = prop.get('no_native', False)
    for n, o in rest:
        if o.get('early'):
            found = (n, o, dict(mode='seed', seed_value=o['early'][0]), o['early'][1])
    # 1. replay solver models
    if not nofn and not found:
        for n, o in rest:
            if o.get('inputs'):
                e = exe_of(n)
                if e:
                    w = replay_model(e, n, o['inputs'], tmp)
                    if w:
                        found = (n, o, dict(mode='model', inputs=o['inputs']), w)
                        break
    # 2. random search
    if not found and not nofn:
        procs = []
        for n, o in rest:
            if n not in procs and n in spec_of:
                procs.append(n)
        left = hard - (time.time() - t0)
        per = max(3, min(40, left / max(1, len(procs)) - 8)) if left > 0 else 0
        for n in procs:
            if hard - (time.time() - t0) < per + 10:
                break
            e = exe_of(n)
            if not e:
                continue
            f = search(e, n, per, seed, tmp, 8)
            if f:
                o = [x for m, x in rest if m == n][0]
                found = (n, o, dict(mode='seed', seed_value=f[0]), f[1])
                break
    if found:
        n, o, how, what = found
    else:
        n, o = rest[0]
        how, what = dict(mode='none'), None
    path = os.path.join(rdir, '%s.json' % a.prop)
    with open(path, 'w') as f:
        json.dump(dict(property=a.prop, proof=n, spec=os.path.basename(spec_of.get(n, n)), obligation=demangle(o['name']),
                       kind=o['kind'], status=o['status'], verifier_output=demangle(str(o['detail'])),
                       native_result=what, **how,
                       rerun='python3-vt /verif/vc/check.py %s --replay %s' % (a.prop, path),
                       all_failed=[dict(proof=m, obligation=demangle(x['name']), status=x['status'],
                                        detail=demangle(str(x['detail']))[:2000]) for m, x in rest][:50]), f, indent=1)
        f.write('\n')
    if what:
        lines.append('failing input found for "%s": %s' % (demangle(o['name']), what))
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
    else:
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, path))
    return lines, len(rest)


def do_replay(a, prop, specs, proofs_of, tmp):
    r = json.load(open(a.replay))
    if r['mode'] == 'none':
        print('no concrete input; failed obligation: %s\n%s' % (r['obligation'], r['verifier_output']))
        return 1
    for s in specs:
        if os.path.basename(s) == r['spec']:
            exe, err = compile_native(prop, s, proofs_of[s], tmp)
            if not exe:
                print(err)
                return 1
            if r['mode'] == 'model':
                w = replay_model(exe, r['proof'], r['inputs'], tmp)
            else:
                p = subprocess.run([exe, 'seed', str(r['seed_value'])], capture_output=True,
                                   env=dict(NENV, VC_PROOF=r['proof']))
                w = classify(p.returncode, p.stderr.decode(errors='replace'))
            print('replay:', w)
            return 1 if w else 0
    return 0


if __name__ == '__main__':
    sys.exit(main())
