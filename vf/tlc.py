"""Run TLC and read its verdict."""
import os, re, json, subprocess, time
from .base import SPEC, scratch, NPROC

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result:
    pass


_n = [0]


def run(module, cfg=None, traces=None, env=None, workers=None, timeout=600, extra=(), heap='6g', liveness=False):
    """Model check spec/<module>.tla with spec/<cfg>.  `traces` (any JSON value) is written to a file passed as
    TRACE_FILE.  Returns a Result with: ok, violated (name of violated invariant/property or None), states, distinct,
    lines (what the spec printed), out."""
    _n[0] += 1
    d = os.path.join(scratch(), f'tlc{_n[0]}')
    os.makedirs(d)
    e = dict(os.environ)
    e.update(env or {})
    if traces is not None:
        tf = os.path.join(d, 'traces.json')
        with open(tf, 'w') as f:
            json.dump(traces, f, separators=(',', ':'), default=int)
        e['TRACE_FILE'] = tf
    cfg = cfg or module + '.cfg'
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-workers',
           str(workers or NPROC), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cfg,
           *extra, module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TLCError(f'{module}/{cfg}: TLC timeout after {timeout}s')
    r = Result()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t0
    r.lines = [l[1:-1].replace('\\"', '"') for l in p.stdout.splitlines() if l.startswith('"') and l.endswith('"')]
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    r.states, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r'depth of the complete state graph search is (\d+)', p.stdout)
    r.depth = int(m.group(1)) if m else 0
    r.violated = None
    m = re.search(r'Invariant (\S+) is violated', p.stdout)
    if m:
        r.violated = m.group(1)
    m = re.search(r'(?:Action|Temporal) propert(?:y|ies) (?:(\S+) )?(?:is|were) violated', p.stdout)
    if m:
        r.violated = m.group(1) or 'temporal property'
    if 'Deadlock reached' in p.stdout:
        r.violated = 'deadlock'
    r.ok = p.returncode == 0 and 'Model checking completed. No error' in p.stdout
    if not r.ok and r.violated is None:
        tail = '\n'.join(p.stdout.splitlines()[-60:])
        raise TLCError(f'{module}/{cfg}: TLC did not finish (rc {p.returncode})\n{tail}')
    return r


BATCH = 24e6          # characters of JSON per TLC run: larger files make TLC thrash its heap


def check_traces(module, traces, cfg=None, timeout=600, **kw):
    """check_batch on batches of limited size"""
    out, bad, cov = None, [], {}
    i = 0
    size = [len(json.dumps(t, default=int)) for t in traces]
    while i < len(traces) or out is None:
        j, n = i, 0
        while j < len(traces) and (j == i or n + size[j] <= BATCH):
            n += size[j]
            j += 1
        r, b, c = check_batch(module, traces[i:j], cfg, timeout, **kw)
        bad += [(t + i, e, k) for t, e, k in b]
        for k, v in c.items():
            cov[k] = cov.get(k, 0) + v
        if out is None:
            out = r
        else:
            out.distinct += r.distinct
            out.states += r.states
            out.wall += r.wall
        i = j
    return out, bad, cov


def check_batch(module, traces, cfg=None, timeout=600, **kw):
    """Validate recorded traces with a trace specification.  `traces`: list of {"cfg":..., "ev":[...]}.
    Every trace is consumed completely (the trace specs are total); violated clauses are printed as BAD lines and
    exercised situations as COV lines.  Returns (result, bad, cov): bad = list of (trace index, event index, [clauses]),
    cov = {tag: number of traces}."""
    if not traces:
        raise TLCError('no traces')
    r = run(module, cfg, traces=traces, timeout=timeout, **kw)
    if r.violated:
        raise TLCError(f'{module}: unexpected {r.violated}\n' + r.out[-3000:])
    want = sum(len(t['ev']) + 1 for t in traces)
    if r.distinct != want:
        raise TLCError(f'{module}: {r.distinct} states for {want} expected: some trace was not consumed\n'
                       + r.out[-3000:])
    bad, cov, end = [], {}, set()
    for l in r.lines:
        if l.startswith('BAD '):
            _, tr, i, rest = l.split(' ', 3)
            bad.append((int(tr) - 1, int(i) - 1, sorted(re.findall(r'"([^"]+)"', rest))))
        elif l.startswith('COV '):
            _, tr, rest = l.split(' ', 2)
            end.add(int(tr))
            for t in set(re.findall(r'"([^"]+)"', rest)):
                cov[t] = cov.get(t, 0) + 1
    nonempty = sum(1 for t in traces if t['ev'])
    if len(end) != nonempty:
        raise TLCError(f'{module}: {len(end)} of {nonempty} traces reported their end')
    bad = sorted(set((a, b, tuple(c)) for a, b, c in bad))
    return r, bad, cov
