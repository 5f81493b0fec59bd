#!/usr/bin/env python3
"""Try the planted bugs of /verif/seeded on /repo: build, stable tests, demonstration,
check of the property.  Not used by any check.   plants.py [--clean|--nocheck] [id...]"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
REPO = '/repo'
stable = set()
b = json.load(open('/opt/vp/BASELINE.json'))
for k in ('stable', 'passed', 'tests', 'stable_tests'):
    if k in b:
        stable = set(b[k])
        break

def sh(cmd, t=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace', timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def restore():
    sh('git -C /repo checkout -- .')

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    flags = [a for a in sys.argv[1:] if a.startswith('--')]
    ids = args or sorted(os.listdir(SEED))
    assert sh('git -C /repo status --short')[1] == ''
    if '--clean' in flags:
        sh('bash /opt/vp/build.sh')
        for i in ids:
            rc, out = sh('bash %s/%s/demo.sh' % (SEED, i), 300)
            print(i, 'clean demo', 'ok' if rc == 0 else 'FAILS %d\n%s' % (rc, out[-800:]), flush=True)
        return
    for i in ids:
        meta = json.load(open('%s/%s/meta.json' % (SEED, i)))
        res = []
        try:
            rc, out = sh('git -C /repo apply %s/%s/patch.diff' % (SEED, i))
            if rc:
                print(i, 'patch does not apply', out)
                continue
            if '--checkonly' not in flags:
                rc, out = sh('bash /opt/vp/test.sh /tmp/plant.json')
                t = json.load(open('/tmp/plant.json'))
                lost = stable - set(t['passed'])
                res.append('build/tests %s' % ('ok' if not lost and rc == 0 else 'LOST %s rc %d %s' % (lost, rc, out[-300:])))
                rc, out = sh('bash %s/%s/demo.sh' % (SEED, i), 300)
                res.append('demo %s' % ('PASSES' if rc == 0 else 'fails(%d) %s' % (rc, out.strip()[-100:].replace('\n', ' | '))))
            if '--nocheck' not in flags:
                t0 = time.time()
                rc, out = sh('VERIF_SEED=1 VERIF_TIER=quick python3 %s/bin/check.py %s' % (HERE, meta['property']))
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                res.append('%s %s %.0fs' % ('CAUGHT' if rc == 1 and v else '**MISSED** rc=%d' % rc, v[:1] or out[-300:], time.time() - t0))
        finally:
            restore()
        print(i, meta['property'], '; '.join(res), flush=True)
    sh('bash /opt/vp/build.sh')
main()
