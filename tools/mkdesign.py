#!/usr/bin/env python3
"""fills the tables of DESIGN.md (between markers) from known_findings.json and seeded/*/meta.json"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + '/known_findings.json'))
KF = '\n'.join('* **%s** (%s, `%s`): %s.' % (f['id'], f['property'], f['goal'].replace('\\', ''), f['what']) for f in k['findings'])
FX = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 `\2`: ', f) + '.' for f in k['fixed'])
R = ['| bug | file | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); p = open(os.path.dirname(d) + '/patch.diff').read()
    fs = sorted(set(os.path.basename(x) for x in re.findall(r'^\+\+\+ b/(\S+)', p, re.M)))
    R.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), ', '.join(fs), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
s = open(V + '/DESIGN.md').read()
for n, t in (('KF', KF), ('FIX', FX), ('SEED', '\n'.join(R))):
    s = s.replace('@@%s@@' % n, '<!--%s-->\n<!--/%s-->' % (n, n))
    s = re.sub(r'<!--%s-->.*?<!--/%s-->' % (n, n), lambda _: '<!--%s-->\n%s\n<!--/%s-->' % (n, t, n), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
