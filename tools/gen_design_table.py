#!/usr/bin/env python3
"""Prints the per-property bounds table of DESIGN.md from the harness headers."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    print('### %s %s\n' % (p['id'], p['title']))
    for h in sorted(glob.glob(os.path.join(V, 'harness', p['id'] + '_*.cpp'))):
        d = dict(re.findall(r'^// (\w+): (.*)$', open(h).read(), re.M))
        print('- `%s` (%s cases, %s): %s. *Outside:* %s.' % (
            os.path.basename(h), d.get('cases', '1'), dict(fp='IEEE doubles').get(d.get('mode'), 'exact reals'),
            d.get('bounds', '').rstrip('.'), d.get('outside', '-').rstrip('.')))
    print()
