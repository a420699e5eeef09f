#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, the metadata of seeded/ and known_findings.json, tools/design_tail.md"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + '/tools/design_head.md').read(); tail = open(V + '/tools/design_tail.md').read()
cl = lambda s: s.replace('|', '/').replace('\n', ' ')
rows = []; 
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], cl(m['needs']), cl(m['what_it_breaks'])))
s3 = ['## 3 Planted bugs and what catches them', '', 'Each was written from the property text and the code and confirmed with its demonstration (fails with the patch, passes without).',
      'Every one below is caught by the quick check of its own property; those that were missed at first are named in "what had to be strengthened".', '',
      '| id | property | needs | breaks |', '|---|---|---|---|'] + rows + ['', open(V + '/tools/design_missed.md').read().rstrip() if os.path.exists(V + '/tools/design_missed.md') else '', '']
k = json.load(open(V + '/known_findings.json'))
s4 = ['## 4 Genuine defects', '', '%d defects of nntl found by these checks are repaired by "fix:" commits in /repo (also listed in known_findings.json); %d are recorded as known findings.' % (len(k['fixed']), len(k['findings'])), ''] + \
     ['- ' + f.replace('fixed: property=', '') for f in k['fixed']] + ['- KNOWN %s %s' % (f['property'], f['what']) for f in k['findings']] + ['', '']
open(V + '/DESIGN.md', 'w').write(head + '\n'.join(s3) + '\n'.join(s4) + tail)
