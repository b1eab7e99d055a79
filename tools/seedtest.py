#!/usr/bin/env python3
"""seedtest.py ID...: does the planted bug compile, pass the tests, fail its demo, and is it caught?
   --fast: skip tests and demos.  --props C01,C02: run these checks instead of meta's property."""
import json, os, subprocess, sys
args = [a for a in sys.argv[1:] if not a.startswith('--')]
fast = '--fast' in sys.argv
props = [a[8:].split(',') for a in sys.argv if a.startswith('--props=')]
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_t.json')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(b - set(json.load(open('/tmp/seed_t.json'))['passed']))
for a in args:
    d = '/verif/seeded/' + a
    meta = json.load(open(d + '/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
    r = {}
    if not fast:
        sh('bash /opt/vp/build.sh')
        p = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        r['demo_clean'] = p.returncode
        if p.returncode: print(p.stdout[-1500:])
    p = sh('git -C /repo apply %s/patch.diff' % d)
    if p.returncode:
        print(a, 'DOES NOT APPLY', p.stdout); continue
    try:
        if not fast:
            r['build'] = sh('bash /opt/vp/build.sh').returncode
            r['tests_missing'] = tests()
            p = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            r['demo_bug'] = p.returncode
        for pr in (props[0] if props else [meta['property']]):
            p = sh('python3 run/check.py %s quick' % pr, cwd='/verif')
            r['check_' + pr] = (p.returncode, [l[:300] for l in p.stdout.strip().split('\n')[-2:]])
    finally:
        sh('git -C /repo checkout -- .')
    print(a, json.dumps(r))
sh('bash /opt/vp/build.sh')
