#!/usr/bin/env python3
"""Development aid: runs the check of each seeded change's property on a scratch copy with the change applied."""
import json, os, shutil, subprocess, sys, time
V = '/verif'
want = sys.argv[1:]
for s in sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + s
    prop = json.load(open(d + '/meta.json'))['property']
    if want and s not in want and prop not in want: continue
    sc = '/tmp/seedrun_' + s
    if os.path.exists(sc): shutil.rmtree(sc)
    subprocess.run(['git', 'clone', '-q', '/repo', sc], check=True)
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=sc)
    if r.returncode: print(s, 'patch does not apply'); continue
    t = time.time()
    r = subprocess.run(['python3-vt', 'vc/check.py', prop], cwd=V, capture_output=True, text=True, env=dict(os.environ, VC_REPO=sc))
    l = [x for x in r.stdout.split('\n') if 'VIOLATION prop' in x or 'failing input' in x]
    print('%-28s %s rc=%d %.0fs %s' % (s, prop, r.returncode, time.time() - t, ' | '.join(l)[:200]), flush=True)
    shutil.rmtree(sc)
