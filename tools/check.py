#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide one property
   check.py --replay <file>                re-run one recorded violation"""
import json, os, random, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import *
import annot
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.R = random.Random('%s-%s' % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix='chk')
        self.states = self.transitions = self.traces = self.ops = 0
        self.mc_info, self.viol, self.samples, self.known, self.assume = [], [], [], [], []
        self.binary = None
        self.t0 = time.time()

    def left(self):
        return (3000 if self.thorough else 400) - (time.time() - self.t0)

    def n(self, quick, thorough=None):
        return (thorough or quick * 12) if self.thorough else quick

    def build(self, **kw):
        self.binary = build_harness(**kw)

    # -- specification exploration ------------------------------------------------
    def explore(self, module, cfg=None, timeout=600, heap='6g', args=()):
        """Model check a module; its printed histories are returned."""
        hs, g, d, ok, out = mc(module, cfg, timeout=timeout, heap=heap, args=args)
        if not ok:
            raise Machinery('model checking of %s failed:\n%s' % (module, out[-3000:]))
        self.states += d
        self.transitions += g
        self.mc_info.append({'module': module, 'cfg': cfg or module, 'states': d, 'transitions': g, 'histories': len(hs)})
        return hs

    # -- conformance --------------------------------------------------------------
    def conform(self, cases, module='TraceGrid', cfg=None, chunk=40, lax=True, batch=4000):
        """Run cases on the code, validate with TLC, keep the disagreements."""
        if self.binary is None:
            self.build()
        for k in range(0, len(cases), batch):
            part = cases[k:k + batch]
            for c in part:
                if lax:
                    c['lax'] = True
                annot.prep(c)
            part = run_cases(self.binary, part, self.tmp, chunk)
            mm, g, d, wall = validate(module, part, self.tmp, cfg)
            self.transitions += g
            self.states += d
            self.traces += len(part)
            self.ops += sum(len(c['ops']) for c in part)
            by = {c['id']: c for c in part}
            self.ran = part
            for m in mm:
                c = by[m['id']]
                st = m['step'] - 1
                self.viol.append({'property': self.pid, 'module': module, 'cfg': cfg, 'id': c['id'], 'step': m['step'], 'kind': m['kind'],
                                  'op': c['ops'][st], 'impl_message': c['msgs'][st] if st < len(c['msgs']) else '',
                                  'expected': m['exp'], 'observed': m['got'],
                                  'case': {x: c[x] for x in c if x not in ('obs', 'res', 'msgs', 'vals')}})
            if not self.samples and part:
                c = part[len(part) // 2]
                self.samples.append({'id': c['id'], 'ops': c['ops'][:12], 'results': c['res'][:12]})
        return cases

    def violation(self, what, **kw):
        self.viol.append(dict(property=self.pid, kind='other', what=what, **kw))

    # -- known findings -----------------------------------------------------------
    def probes(self):
        """Inputs listed as known findings of this property still fail: say so."""
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r'finding: property=(\w+) probe=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        for path, what in out:
            probe = json.load(open(os.path.join(ROOT, path)))
            before = len(self.viol)
            self.conform([dict(probe['case'], id='known-' + os.path.basename(path))], probe.get('module', 'TraceGrid'), probe.get('cfg'),
                         lax=probe.get('lax', True))
            new = self.viol[before:]
            del self.viol[before:]
            # Only the disagreement that was recorded is a known finding.
            sig = lambda v: (v['kind'], v['step'], sorted(map(json.dumps, v['expected'])), sorted(map(json.dumps, v['observed'])))
            for v in new:
                if list(sig(v)) == probe['signature'] or json.loads(json.dumps(sig(v))) == probe['signature']:
                    self.known.append(what)
                else:
                    self.viol.append(v)

    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'operations_executed': self.ops, 'models': self.mc_info, 'samples': self.samples or [{'note': 'none'}]}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for w in self.known:
            log('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        if self.viol:
            d = os.path.join(EVID, 'replays')
            os.makedirs(d, exist_ok=True)
            for n, v in enumerate(sorted(self.viol, key=lambda v: len(v.get('case', {}).get('ops', [])))[:3]):
                path = os.path.join(d, '%s-%d.json' % (self.pid, n))
                with open(path, 'w') as fh:
                    json.dump(v, fh, indent=1)
                log('VIOLATION property=%s replay=%s' % (self.pid, path))
                log('  %s' % (v.get('what') or '%s after %s: expected %s observed %s %s' % (
                    v['kind'], json.dumps(v['op'])[:200], v['expected'][:4], v['observed'][:4], v['impl_message'][:200])))
            return 1
        log('property %s held: %d histories, %d states, %.0f s' % (self.pid, self.traces, self.states, time.time() - self.t0))
        return 0


def main():
    os.makedirs(EVID, exist_ok=True)
    if sys.argv[1] == '--replay':
        v = json.load(open(sys.argv[2]))
        ctx = Ctx(v['property'], 'quick', 1)
        try:
            ctx.conform([v['case']], v['module'], v.get('cfg'), lax=v['case'].get('lax', False))
            for x in ctx.viol:
                log(json.dumps({k: x[k] for k in ('step', 'kind', 'op', 'expected', 'observed', 'impl_message')}, indent=1))
            return 1 if ctx.viol else 0
        finally:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import props
    ctx = Ctx(pid, tier, seed)
    try:
        ctx.build(**getattr(props.PROPS[pid], 'build', {}))
        props.PROPS[pid](ctx)
        ctx.probes()
        return ctx.finish(getattr(props.PROPS[pid], 'level', 'model_checking'))
    except Machinery as e:
        log('ERROR', e)
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
