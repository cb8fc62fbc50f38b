"""development aid: run one proof in-process under cProfile"""
import sys, os, time, cProfile, pstats, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, irload, engine
from props import PROPS
p, proof, bud = sys.argv[1], sys.argv[2], float(sys.argv[3])
prop = PROPS[p]
tmp = tempfile.mkdtemp()
os.makedirs(tmp + '/inc'); os.symlink(check.REPO + '/src', tmp + '/inc/sharemind')
for s in prop['specs']:
    bc, err = check.compile_ir(prop, check.VERIF + '/specs/' + s, tmp)
    if not bc:
        print(err); continue
    mod = irload.Module(bc, check.PASSES)
    if 'vc_proof_' + proof in mod.functions:
        cfg = dict(budget=bud, ob_timeout=60, tmp=tmp); cfg.update(prop.get('cfg', {}))
        e = engine.Engine(mod, cfg)
        pr = cProfile.Profile(); pr.enable()
        try:
            engine.run_proof(e, 'vc_proof_' + proof, time.time() + bud)
        except BaseException as x:
            print(type(x), x)
        pr.disable()
        print(e.stats)
        pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
