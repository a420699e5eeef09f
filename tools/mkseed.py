#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source), optional FILES.
Makes seeded/ID and verifies that the demo passes on /repo and fails with the patch."""
import sys, os, shutil, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']; W = '/tmp/seedwt_' + ID
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
try:
    for f, old, new in ns['EDITS']:
        p = os.path.join(W, f); s = open(p, newline='', encoding='latin-1').read()
        crlf = '\r\n' in s
        if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        if s.count(old) != 1: sys.exit('%s: %d occurrences of %r' % (f, s.count(old), old[:80]))
        open(p, 'w', newline='', encoding='latin-1').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', ID); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = subprocess.check_output(['git', '-C', W, 'diff', '--binary']); open(d + '/patch.diff', 'wb').write(diff)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    T = os.path.join(V, 'tools')
    shutil.copy(T + '/demo.sh', d); os.chmod(d + '/demo.sh', 0o755); shutil.copy(T + "/demo.h", d); shutil.copy(T + "/demonet.h", d)
    shutil.copytree(V + '/port', d + '/port', ignore=shutil.ignore_patterns('__pycache__', 'mkthr.py'))
    open(d + '/demo.cpp', 'w').write(ns['DEMO'].lstrip('\n'))
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run([d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    b = subprocess.run([d + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok = a.returncode == 0 and b.returncode not in (0, 3)
    print(ID, 'OK' if ok else 'BAD', a.returncode, b.returncode, b.stdout.decode('latin-1')[-200:].strip().replace('\n', ' | '))
    if a.returncode: print(a.stdout.decode('latin-1')[-700:])
    if b.returncode in (0, 3): print(b.stdout.decode('latin-1')[-700:])
    if not ok: shutil.rmtree(d)
finally: shutil.rmtree(W, ignore_errors=True)
