"""Histories whose worksheets are written by threads."""
import json
from gen import *

FRESH = dict(num=2, str=3, blank=2, rich=2, bool=1, formula=1, url=1, checkbox=.4, rformat=1, cformat=.5, merge=.4, seq=.5)


def threaded(R, ops):
    """The same history with the calls of each worksheet in a thread."""
    out = []
    for o in ops:
        o = dict(o)
        if 's' in o and 'spare' not in o and o['op'] not in ('sheet_from_index', 'save'):
            o['th'] = 1
            if not out or 'th' not in out[-1]:
                if R.random() < .3:
                    o['jitter'] = 1
        out.append(o)
    return out


def schedule_case(R, e, modes=None):
    """A program for each thread and a schedule, as found by TLC."""
    n = len(e['prog'])
    modes = modes or [R.choice(['low', 'low', 'const', 'std']) for _ in range(n)]
    fm = {'A': {'b': '1'}, 'B': {'i': '1'}}
    ops = [{'op': 'add_sheet', 'mode': m} for m in modes]
    for k in range(max(map(len, e['prog']))):
        for t in range(n):
            if k < len(e['prog'][t]):
                kind, key = e['prog'][t][k]
                at = {'s': t, 'r': k, 'c': t, 'th': 1}
                if kind == 'string':
                    ops.append(dict(at, op='str', v=key))
                else:
                    what = R.choice([{'op': 'blank'}, {'op': 'num', 'v': '%d.0' % (k + t)}, {'op': 'bool', 'v': True}])
                    ops.append({**at, **what, 'via': '', 'hf': True, 'f': fm[key]})
    ops[n]['sched'] = e['sched']
    # Then more, one after the other.
    for t in range(n):
        for j, f in enumerate([{'u': 'single'}, {'b': '1'}, {'st': '1'}]):
            ops.append({'op': 'str', 's': t, 'r': 5 + j, 'c': 0, 'v': 'xy'[j % 2], 'hf': True, 'f': f})
    return ops + [{'op': 'save', 'how': 'buffer'}]


def crowd(R, n, calls):
    """All threads use the same new formats and strings at the same time."""
    modes = [R.choice(['low', 'low', 'std', 'const']) for _ in range(n)]
    ops = [{'op': 'add_sheet', 'mode': m} for m in modes]
    for k in range(calls):
        f = {'fs': str(12 + k), R.choice(['b', 'i', 'st']): '1'}
        for t in range(n):
            g = f if R.random() < .85 else {'fs': str(12 + R.randrange(calls))}
            at = {'s': t, 'r': k, 'c': R.randrange(3), 'th': 1, 'hf': True, 'f': g}
            ops.append({**at, **R.choice([{'op': 'str', 'v': 's%d' % k}, {'op': 'str', 'v': 's%d' % R.randrange(calls)}, {'op': 'num', 'v': '1.0'}, {'op': 'blank'}])})
            if R.random() < .1:
                p = Pool(R, nsheets=n, far=0)
                ops.append({**GENS['rich'](p), 's': t, 'r': k, 'c': 5, 'th': 1})
    if R.random() < .5:
        ops[n]['jitter'] = 1
    return json.loads(json.dumps(ops + [{'op': 'save', 'how': 'buffer'}]))
