#!/usr/bin/env python3
"""fixed.py Cxx[=subject-substring]...: adds /repo fix commits that known_findings.json does not list yet."""
import json, subprocess, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
rules = [a.split('=', 1) for a in sys.argv[1:]]
have = ' '.join(map(str, k['fixed']))
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or h in have: continue
    for r in rules:
        if len(r) == 1 or r[1] in s:
            k['fixed'].append('fixed: property=%s %s %s' % (r[0], h, s[5:])); print(k['fixed'][-1]); break
    else: print('UNMATCHED', l)
json.dump(k, open(p, 'w'), indent=1)
