"""try_mc.py MODULE: explore a module, show the counts or the error."""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from vlib import *
hs, g, d, ok, out = mc(sys.argv[1], *(sys.argv[2:3]))
print(len(hs), 'histories', g, 'transitions', d, 'states', ok)
if not ok:
    print('\n'.join(l[:300] for l in out.split('\n') if '@@HIST' not in l)[-3000:])
