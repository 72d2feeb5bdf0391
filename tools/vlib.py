"""Runner: build the harness, execute histories, validate them with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
import views, vbook, vobj, vrules, vcharts, vtexts, vpack, canon
NPROC = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """The check itself could not run (not a verdict about the property)."""


def log(*a):
    print(*a, flush=True)


def build_harness():
    td = os.path.join(HARNESS, 'target')
    # With the points at which threads can be held.
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=td, RUSTFLAGS='--cfg vsched')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Machinery('harness build failed:\n' + p.stdout[-4000:])
    return os.path.join(td, 'debug', 'vharness')


def _run_chunk(args):
    binary, cases, tmp = args
    d = tempfile.mkdtemp(dir=tmp)
    try:
        inp = '\n'.join(json.dumps({'id': c['id'], 'ops': c['ops']}) for c in cases) + '\n'
        p = subprocess.run([binary, d], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60 + 2 * len(cases))
        lines = [l for l in p.stdout.split('\n') if l]
        if p.returncode != 0 or len(lines) != len(cases):
            # The process died in the middle: isolate the culprit.
            if p.returncode == 3 or 'HARNESS ERROR' in p.stderr or 'bad case json' in p.stderr:
                raise Machinery('harness: ' + p.stderr[-2000:])
            if len(cases) > 1:
                h = len(cases) // 2
                return _run_chunk((binary, cases[:h], tmp)) + _run_chunk((binary, cases[h:], tmp))
            c = cases[0]
            c['res'] = ['abort'] * len(c['ops'])
            c['obs'] = {}
            c['msgs'] = [p.stderr[-300:]] * len(c['ops'])
            return [c]
        for c, l in zip(cases, lines):
            r = json.loads(l)['res']
            c['res'] = [x['k'] for x in r]
            c['msgs'] = [x.get('msg', '') for x in r]
            c['vals'] = [x.get('v') for x in r]
            c['obs'] = {}
            for n, x in enumerate(r, 1):
                v = x.get('v')
                if isinstance(v, dict) and 'file' in v:
                    path = os.path.join(d, v['file'])
                    with open(path, 'rb') as fh:
                        data = fh.read()
                    c['obs'][str(n)] = views.project(data, c)
                    if v.get('fired'):
                        c['obs'][str(n)].append(['BAD', 'a failed write was not reported'])
                    os.unlink(path)
                elif v is not None and c.get('valobs'):
                    c['obs'][str(n)] = views.value_facts(v, c, c['ops'][n - 1])
        return cases
    except subprocess.TimeoutExpired:
        if len(cases) > 1:
            h = len(cases) // 2
            return _run_chunk((binary, cases[:h], tmp)) + _run_chunk((binary, cases[h:], tmp))
        c = cases[0]
        c.update(res=['hang'] * len(c['ops']), obs={}, msgs=['timed out'] * len(c['ops']))
        return [c]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cases(binary, cases, tmp, chunk=40):
    chunks = [(binary, cases[k:k + chunk], tmp) for k in range(0, len(cases), chunk)]
    out = []
    with Pool(NPROC) as pool:
        for r in pool.imap(_run_chunk, chunks):
            out += r
    return out


def tlc(module, cfg=None, env=None, args=(), heap='6g', timeout=850, workers=NPROC):
    meta = tempfile.mkdtemp(prefix='tlc')
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or module + '.cfg', *args, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout, time.time() - t


_ST = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')


def tlc_counts(out):
    m = _ST.findall(out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def _unq(line):
    """PrintT prints a TLA+ string; undo its quoting."""
    s = line.strip()
    if s.startswith('"') and s.endswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m.group(1), m.group(1)), s)
    return s


def tagged(out, tag):
    for line in out.split('\n'):
        if '@@' + tag + ' ' in line:
            s = _unq(line)
            k = s.index('@@' + tag + ' ')
            yield json.loads(s[k + len(tag) + 3:])


def validate(module, cases, tmp, cfg=None):
    """Validate executed histories with TLC; returns (mismatches, generated, distinct)."""
    path = os.path.join(tmp, 'trace-%s.ndjson' % module)
    with open(path, 'w') as fh:
        for c in cases:
            keep = {k: c[k] for k in ('id', 'ops', 'res', 'obs', 'view') if k in c}
            for k in ('cfg', 'lax'):
                if k in c:
                    keep[k] = c[k]
            fh.write(json.dumps(keep) + '\n')
    rc, out, wall = tlc(module, cfg, env={'TRACE': path})
    if 'Model checking completed' not in out or rc != 0:
        with open(os.path.join(ROOT, 'evidence', 'tlc-fail.log'), 'w') as fh:
            fh.write(out)
        raise Machinery('TLC failed on %s (rc %d):\n%s' % (module, rc, out[-3000:]))
    os.unlink(path)
    g, d = tlc_counts(out)
    return list(tagged(out, 'MISMATCH')), g, d, wall


def mc(module, cfg=None, args=(), timeout=600, heap='6g'):
    """Explore a specification; returns (histories, generated, distinct, ok, out)."""
    rc, out, wall = tlc(module, cfg, args=args, timeout=timeout, heap=heap)
    ok = 'Model checking completed. No error has been found' in out or ('Finished in' in out and 'Error:' not in out)
    g, d = tlc_counts(out)
    return list(tagged(out, 'HIST')), g, d, ok, out
