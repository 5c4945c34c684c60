"""Confirm a planted bug: plant.py ID  (expects seeded/ID/{patch.diff,demo.sh,meta.json}).

Works in a scratch copy: build, stable tests with the patch, demo with and without the patch, own check on it."""
import json
import os
import shutil
import subprocess
import sys
V = '/verif'


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr


def main(bid):
    d = os.path.join(V, 'seeded', bid)
    w = '/tmp/plant_%s' % bid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh('cp -a /repo %s/repo' % w)
    shutil.copytree(d, w + '/demo')
    env = dict(os.environ, PYTHONPATH=w + '/repo')
    repo = w + '/repo'
    rc0, out0 = sh('bash %s/demo/demo.sh' % w, cwd=repo, env=env)
    rc, out = sh('git apply %s/patch.diff' % d, cwd=repo)
    ok = rc == 0
    if not ok:
        print(out)
    rc1, out1 = sh('bash %s/demo/demo.sh' % w, cwd=repo, env=env)
    rct, outt = sh('LD_PRELOAD=/opt/vp/zerotail.so /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider '
                   '--timeout=100 tests 2>&1 | tail -4', cwd=repo, env=env)
    prop = json.load(open(d + '/meta.json'))['property']
    rcc, outc = sh('SA_REPO=%s python3-vt -m sa %s' % (repo, prop), cwd=V)
    print('%s prop=%s demo clean=%d patched=%d tests: %s | check rc=%d' % (bid, prop, rc0, rc1, outt.strip().split('\n')[-1], rcc))
    if rc0 != 0:
        print('DEMO CLEAN FAIL', out0[-800:])
    if rc1 == 0:
        print('DEMO NOT FAILING')
    if rcc != 1:
        print('NOT CAUGHT', outc[-600:])
    shutil.rmtree(w, ignore_errors=True)


for b in sys.argv[1:]:
    main(b)
