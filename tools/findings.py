#!/usr/bin/env python3
"""Writes known-findings.json: recorded findings from findings/*.json and one "fixed:" line for each fix commit in /repo (PROP maps commit subjects to properties)."""
import glob, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, 'tools', 'fixprops.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = PROP.get(s[5:])
        if not p:
            print('no property for', s)
            continue
        fixed.append('fixed: property=%s %s %s' % (p, h, s[5:]))
fs = []
for f in sorted(glob.glob(os.path.join(V, 'findings', '*.json'))):
    fs.append(json.load(open(f)))
json.dump({'findings': fs, 'fixed': fixed}, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
print(len(fs), 'findings', len(fixed), 'fixed')
