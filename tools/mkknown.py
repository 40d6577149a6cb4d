#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the repaired defects (from the fix:
commits of /repo and the property named here for each) and the recorded ones
(tools/known.json). Run by hand; no check calls it."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split(' ', 1)[::-1] for l in open(here + '/tools/fixes.txt').read().splitlines() if l)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'b3cc6b6..HEAD'], text=True)
out = json.load(open(here + '/tools/known.json'))
for l in log.splitlines():
    h, s = l.split(' ', 1)
    assert s.startswith('fix: '), s
    s = s[5:]
    if s not in PROP:
        print('no property for:', s); sys.exit(1)
    for p in PROP[s].split(','):
        out.append(dict(property=p, what=s, status='fixed: property=%s %s %s' % (p, h, s)))
json.dump(out, open(here + '/known_findings.json', 'w'), indent=1)
print(len(out), 'entries')
