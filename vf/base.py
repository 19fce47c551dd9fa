"""Shared plumbing: paths, seeds, fixed-point logarithms, worker pool, scratch folder, evidence, verdicts."""
import os, sys, json, math, time, shutil, tempfile, atexit, warnings, random
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
REPO = os.environ.get('VF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NPROC = min(8, os.cpu_count() or 2)

_scratch = None


def scratch():
    """A folder of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf_')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and
                        shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# --- fixed-point base-2 logarithms ------------------------------------------------------------
U = 16384                    # units per factor of two
LMAX = 520 * U               # clamp: products with hundredths stay below 2^31
INF = 600 * U                # "no limit"


def LG(x):
    """round(U*log2(x)), clamped; 0 -> -LMAX, nan/inf -> LMAX."""
    x = float(x)
    if not (x == x) or x == math.inf:
        return LMAX
    if x <= 0:
        return -LMAX
    return int(max(-LMAX, min(LMAX, round(U * math.log2(x)))))


def LGf(x):
    x = float(x)
    if not (x == x) or x == math.inf:
        return LMAX
    if x <= 0:
        return -LMAX
    return int(max(-LMAX, min(LMAX, math.floor(U * math.log2(x)))))


def LGc(x):
    x = float(x)
    if not (x == x) or x == math.inf:
        return LMAX
    if x <= 0:
        return -LMAX
    return int(max(-LMAX, min(LMAX, math.ceil(U * math.log2(x)))))


def dev2(x):
    """deviation as an integer power of two, ceil(log2 x), clamped to [-200, 200]; 0 -> -200, nan -> 200"""
    x = float(x)
    if x != x or x == math.inf:
        return 200
    if x <= 0:
        return -200
    return int(max(-200, min(200, math.ceil(math.log2(x)))))


def cint(x, lo=-10**9, hi=10**9):
    """a python int safe for TLC"""
    if x != x:
        return hi
    return int(max(lo, min(hi, x)))


def ulps(a, b):
    """signed distance b - a in units of spacing at max(|a|,|b|), clamped"""
    if not (np.isfinite(a) and np.isfinite(b)):
        return 0 if a == b else 10**9
    m = max(abs(a), abs(b))
    if m == 0:
        return 0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return cint(round((b - a) / np.spacing(m)))


# --- parallel map -----------------------------------------------------------------------------
def _init_worker():
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    try:
        import logging
        logging.disable(logging.CRITICAL)
    except Exception:
        pass


def _call(a):
    f, x = a
    return f(x)


class TaskTimeout(Exception):
    pass


def pmap(f, xs, chunksize=None, nproc=None):
    """Parallel map preserving order (fork)."""
    import multiprocessing as mp
    xs = list(xs)
    if not xs:
        return []
    n = min(nproc or NPROC, len(xs))
    if n == 1:
        _init_worker()
        return [f(x) for x in xs]
    if chunksize is None:
        chunksize = max(1, min(50, len(xs) // (4 * n)))
    ctx = mp.get_context('fork')
    with ctx.Pool(n, _init_worker) as p:
        return p.map(f, xs, chunksize)


class alarm:
    """with alarm(seconds): raises TaskTimeout inside a worker when the code under test hangs."""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import signal

        def h(*_):
            raise TaskTimeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def rng(*key):
    """deterministic generator from the run's seed and a key"""
    return random.Random(repr((SEED,) + key))
