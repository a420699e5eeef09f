#!/usr/bin/env python3
"""tryseed.py [ID...] : run the quick check of the broken property against each planted change in a scratch copy."""
import sys, os, shutil, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = os.path.join(V, 'seeded', i); prop = json.load(open(d + '/meta.json'))['property']
    W = '/tmp/try_' + i; shutil.rmtree(W, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
    r = subprocess.run(['git', '-C', W + '/repo', 'apply', d + '/patch.diff'])
    if r.returncode: print(i, 'PATCH DOES NOT APPLY'); continue
    env = dict(os.environ, VP_REPO=W + '/repo', VP_BUILD=W + '/b')
    r = subprocess.run([sys.executable, V + '/run.py', prop, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode('latin-1')
    t = [l for l in o.splitlines() if l.startswith(('VIOLATION property', 'OK ', 'ERROR', 'NOT BUILT'))]
    print(i, prop, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, ' '.join(t)[:200], flush=True)
    shutil.rmtree(W, ignore_errors=True)
