#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    i = p['id']
    hs = sorted(glob.glob(os.path.join(V, 'harness', i + '_*.cpp')))
    if not hs:
        continue
    text = ''.join(open(h).read() for h in hs)
    modes = set()
    for h in hs:
        t = open(h).read()
        modes.add('IEEE-754 doubles' if '// mode: fp' in t else 'access log' if '// logging: yes' in t else 'exact reals')
    checks.append(dict(
        property=i, quick_cmd='bin/check %s' % i, thorough_cmd='bin/check %s --thorough' % i,
        technique=('symbolic execution of the LLVM IR of the real code to access logs, SMT (z3) over all their schedules, '
                   'the schedule found replayed by ThreadSanitizer') if '// logging: yes' in text and i == 'C33' else
                  'symbolic execution of the LLVM IR of the real code, SMT (z3, cvc5) deciding every branch and assertion',
        level='model_checking',
        level_note=('Exhaustive over all inputs within the bounds listed in the evidence file (%d harness%s, %s). Trusts the executor, '
                    'z3/cvc5, and the stand-ins for ROS, ceres, nanoflann and the 2x2 eigen solver; counterexamples are replayed on the '
                    'compiled code before they are reported.') % (len(hs), '' if len(hs) == 1 else 'es', ', '.join(sorted(modes)))))
have = {c['property'] for c in checks}
m = dict(version=1, setup_cmd='bin/setup', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')) for p in props if p['id'] not in have],
         notes='All checks read /repo at run time; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(m['not_applicable']), 'not applicable')
