#!/usr/bin/env python3
"""Regenerate the listed sections of DESIGN.md from known-findings.json and seeded/*/meta.json."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(f'{root}/known-findings.json'))
fixes = []
for f in kf['fixed']:
    m = re.match(r'fixed: property=(P\d+) ([0-9a-f]+) (.*)', f)
    fixes.append(f'| {m[2]} | {m[1]} | {m[3]} |')
bugs = []
for p in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    j = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    files = sorted(set(re.findall(r'^\+\+\+ b/src/(\S+)', open(os.path.dirname(p) + '/patch.diff').read(), re.M)))
    bugs.append(f"| {i} | {j['property']} | {', '.join(files)} | {j['needs']} | {j['what_it_breaks']} |")
t = open(f'{root}/DESIGN.md').read()
def put(name, body):
    global t
    a, b = f'<!-- {name} -->\n', f'<!-- end {name} -->\n'
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + body + '\n' + t[j:]
put('fixes', '| commit | property | what failed |\n|---|---|---|\n' + '\n'.join(fixes))
put('bugs', '| id | caught by | where | needs | breaks |\n|---|---|---|---|---|\n' + '\n'.join(bugs))
open(f'{root}/DESIGN.md', 'w').write(t)
