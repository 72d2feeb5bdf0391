#!/usr/bin/env python3
"""Dev helper: mkprobe.py <property> <name> <module> '<json case>' '<what fails>' records a known finding."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
pid, name, module, case, what = sys.argv[1:6]
case = json.loads(case)
case['id'] = name
ctx = check.Ctx(pid, 'quick', 1)
raw = json.loads(json.dumps(case))
lax = case.get('lax', True)
ctx.conform([case], module, lax=lax)
assert len(ctx.viol) == 1, ctx.viol
v = ctx.viol[0]
print(json.dumps({k: v[k] for k in ('kind', 'step', 'expected', 'observed')}, indent=1))
sig = (v['kind'], v['step'], sorted(map(json.dumps, v['expected'])), sorted(map(json.dumps, v['observed'])))
path = 'probes/%s.json' % name
json.dump({'case': raw, 'module': module, 'cfg': None, 'lax': lax, 'signature': sig}, open(os.path.join(check.ROOT, path), 'w'), indent=1)
lines = open(check.KNOWN).readlines()
line = 'finding: property=%s probe=%s %s\n' % (pid, path, what)
open(check.KNOWN, 'w').writelines([line] + [l for l in lines if 'probe=%s ' % path not in l])
