#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the per-property table below, the seeded table from seeded/*/meta.json
and tools/caught.json, the fixes from known_findings.json, and tools/design_tail.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.loads(open(V + '/tools/design_props.json').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 3. How each property is decided', '']
out.append('Reads: **gen** what is generated, **oracle** what decides, **bounds** what limits it, **reach** why tests cannot settle it.')
out.append('Every property is claimed; none is under `not_applicable`.')
for p in props:
    d = P[p['id']]
    out += ['', '### %s %s' % (p['id'], p['title']), '',
            '- gen: ' + d['gen'], '- oracle: ' + d['oracle'], '- bounds: ' + d['bounds'], '- reach: ' + d['reach']]
out += ['', open(V + '/tools/design_mid.md').read().rstrip(), '', '## 6. Planted bugs', '',
        open(V + '/tools/design_seeded.md').read().rstrip(), '', '| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(V + '/tools/caught.json'))
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], caught.get(i, '-')))
fx = json.load(open(V + '/known_findings.json'))
out += ['', '## 7. Genuine defects found', '', open(V + '/tools/design_fix.md').read().rstrip(), '']
for f in fx['fixed']:
    a, b = f.split(' ', 3)[1:3], f.split(' ', 3)[3]
    out.append('- %s `%s` %s' % (a[0].split('=')[1], a[1], b))
out += ['', 'Known findings left unrepaired (listed in `known_findings.json`): %s.' % ('none' if not fx['findings'] else len(fx['findings'])), '',
        open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
