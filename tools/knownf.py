#!/usr/bin/env python3
"""Dev helper: rewrites the "fixed:" lines of known_findings.txt from the fix commits of /repo."""
import subprocess, re, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('nan/inf formula', 'C01'), ('_xHHHH_', 'C20'), ('dynamic functions', 'C03'), ('intersections', 'C03'), ('rejected merge_range', 'C05'),
       ('collapsed group', 'C05'), ('outline level is exceeded', 'C05'), ('set_range_format', 'C04'), ('rejected autofilter', 'C05'),
       ('first outline level', 'C17'), ('rebuild the shared string table', 'C02'), ('look like rich strings', 'C20'), ('length of a rich string', 'C05')]
EXTRA = os.path.join(ROOT, 'tools', 'fixmap.txt')
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if '|' in l:
            a, b = l.rstrip('\n').split('|')
            MAP.append((a, b))
path = os.path.join(ROOT, 'known_findings.txt')
old = [l for l in open(path) if l.startswith('finding:')] if os.path.exists(path) else []
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).split('\n'):
    m = re.match(r'(\w+) fix: (.*)', l)
    if m:
        ids = [b for a, b in MAP if a in m.group(2)]
        if not ids:
            print('unmapped:', l)
            continue
        out.append('fixed: property=%s %s %s\n' % (ids[0], m.group(1), m.group(2)))
open(path, 'w').writelines(old + out)
