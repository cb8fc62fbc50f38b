#!/usr/bin/env python3
"""Development aid: seed.py FILE.py ... - each FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo (C++), needs, what)].
Creates /verif/seeded/<id>/ after confirming in a scratch copy that the change builds, passes the tests and fails the demo."""
import json, os, runpy, shutil, subprocess, sys
V = '/verif'
SC = '/tmp/seedscratch'
DEMO = '''#!/bin/sh
# exit 0 on the unchanged tree, nonzero with the patch
D=$(dirname "$0")
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/inc" && ln -s "$PWD/src" "$T/inc/sharemind" || exit 99
g++ -std=c++14 -O1 %s -pthread -I "$T/inc" "$D/demo.cpp" -o "$T/demo" || exit 98
cd "$T" && timeout 60 ./demo
'''
def sh(c, cwd=None, timeout=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
for fn in sys.argv[1:]:
    for s in runpy.run_path(fn)['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        if os.path.exists(d + '/patch.diff') and not s.get('force'):
            continue
        if os.path.exists(SC): shutil.rmtree(SC)
        sh('git clone -q /repo %s' % SC)
        tmpd = '/tmp/seeddir_' + s['id']
        if os.path.exists(tmpd): shutil.rmtree(tmpd)
        os.makedirs(tmpd)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(SC, 'src', f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), 'times in', f, repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        open(tmpd + '/patch.diff', 'w').write(sh('git diff', SC).stdout)
        open(tmpd + '/demo.cpp', 'w').write(s['demo'])
        open(tmpd + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
        os.chmod(tmpd + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(tmpd + '/meta.json', 'w'), indent=1)
        r0 = sh(tmpd + '/demo.sh', '/repo')
        r1 = sh(tmpd + '/demo.sh', SC)
        if r0.returncode or not r1.returncode or r1.returncode in (98, 99):
            print(s['id'], 'demo: unchanged', r0.returncode, r0.stderr[-800:], 'patched', r1.returncode, r1.stderr[-800:]); continue
        sh('git apply %s/patch.diff' % tmpd, '/repo')
        r = sh('bash /opt/vp/test.sh /tmp/seed_out.json', '/repo')
        sh('git checkout -- .', '/repo')
        o = json.load(open('/tmp/seed_out.json'))
        if r.returncode and not o['passed'] or len(o['passed']) != 43 or len(o['failed']):
            print(s['id'], 'tests:', r.returncode, len(o['passed']), o['failed'], r.stderr[-500:]); continue
        shutil.copytree(tmpd, d, dirs_exist_ok=True)
        print(s['id'], 'ok; demo exit', r1.returncode, flush=True)
