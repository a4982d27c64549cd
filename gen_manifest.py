#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rule modules present in lib/."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
NA = {
 'N01': 'accuracy of a computed endpoint is a property of floating-point runs (condition numbers, rounding), which no sound static argument in reach can bound',
 'N02': 'finding all solutions is a probability-one statement about random homotopies and numerical tracking; the code only carries the ingredients, which C12 and C20 decide',
 'N03': 'depends on MPFR/MPC digit conversion at run-time precisions, inside libraries that are not part of this source tree',
 'N04': 'the adaptive-precision criteria bound rounding error by run-time norms; whether the bound suffices is a numerical-analysis statement about values, not about code structure',
}
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    m = f'{V}/lib/rules_{i.lower()}.py'
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(m): na.append(dict(property=i, reason='no check built yet')); continue
    src = open(m).read()
    tech = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M).group(1)
    note = re.search(r"^NOTE = '(.*)'$", src, re.M)
    checks.append(dict(property=i, quick_cmd=f'python3 lib/check.py {i} quick', thorough_cmd=f'python3 lib/check.py {i} thorough', technique='static analysis: ' + tech,
                       level='other', level_note=note.group(1) if note else 'all paths and all inputs of the analysed functions, up to the abstraction described in DESIGN.md'))
json.dump(dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
