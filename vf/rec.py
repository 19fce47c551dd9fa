"""Black-box recorder: every call of a user function, and the public state around every step."""
import sys, os, warnings
import numpy as np
from .base import REPO, alarm, TaskTimeout
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import extensisq as X   # noqa

EMBEDDED = ['BS5', 'Ts5', 'CK5', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'Me4']
NYSTROM = ['Fi4N', 'Fi5N', 'Mu5Nmb', 'MR6NN']
ESDIRK = ['TRBDF2', 'TRX2', 'KC3I', 'KC4I', 'KC4Ia', 'Kv3I']
OTHER = ['CKdisc', 'SWAG', 'SSV2stab']
ALL = EMBEDDED + NYSTROM + ESDIRK + OTHER
REAL_ONLY = ['SSV2stab']


def cls(m):
    return getattr(X, m)


LONG = 60000         # calls of one step, above which it is taken not to end


class Budget(BaseException):
    """too many calls: the recording stops"""


class Call:
    __slots__ = ('k', 't', 'y', 'f', 'shape')

    def __init__(s, k, t, y, f):
        s.k, s.t, s.y, s.f = k, t, y, f


class Recorder:
    def __init__(self, fun):
        self.raw = fun
        self.calls = []
        self.long = LONG
        self.c0 = 0          # number of calls before the present step

    def wrap(self, fun, kind):
        def w(t, y, *a):
            y0 = np.array(y, copy=True)
            col = y0.ndim == 2 and y0.shape[1] == 1 and kind == 'fun'    # vectorized functions get one column
            c = Call(kind, float(t), y0.ravel() if col else y0, None)
            c.shape = y0.shape
            self.calls.append(c)
            if len(self.calls) > 400000 or len(self.calls) - self.c0 > self.long:
                raise Budget()
            f = fun(t, y, *a)
            c.f = np.array(f).ravel() if col else f.copy() if hasattr(f, 'copy') and not isinstance(f, list) \
                else np.array(f)
            return f
        return w


class Stp:
    """One call of step()."""
    __slots__ = ('t', 'y', 't1', 'y1', 'status', 'msg', 'exc', 'calls', 'nfev', 'njev', 'nlu', 'nfs', 'nfi', 'nls',
                 'dcalls', 'sol', 'h', 'warns', 'ddn')


def counters(s):
    return (s.nfev, s.njev, s.nlu)


class Run:
    pass


def run(method, p, opts, dense=None, max_steps=100000, tmax=90., keep_dense=False, rho_jac=None, fun=None,
        on_step=None, on_init=None, after_end=False):
    """Integrate problem p with the public OdeSolver interface, recording everything.  dense: None, or a function
    step_index -> number of times dense_output is called after that step."""
    fun = fun or p['fun']
    rec = Recorder(fun)
    if method == 'SSV2stab':
        rec.long = 390000           # up to 300000 stages
    kw = dict(opts)
    if 'jac' in kw and callable(kw['jac']):
        kw['jac'] = rec.wrap(kw['jac'], 'jac')
    if kw.get('rho_jac') is not None:
        kw['rho_jac'] = rec.wrap(kw['rho_jac'], 'rho')
    r = Run()
    r.method, r.p, r.opts, r.steps, r.rec = method, p, opts, [], rec
    r.hang = r.trunc = False
    r.refused = None
    r.c0 = 0
    r.init_exc = None
    r.err = None
    r.warns = []
    with warnings.catch_warnings(record=True) as W, np.errstate(all='ignore'):
        warnings.simplefilter('always')
        try:
            with alarm(tmax):
                try:
                    s = cls(method)(rec.wrap(fun, 'fun'), p['t0'], p['y0'].copy(), p['tb'], **kw)
                except TaskTimeout:
                    raise
                except Exception as e:
                    r.init_exc = e
                    r.init_calls = rec.calls
                    r.warns = [str(w.message) for w in W]
                    return r
                r.init_calls = rec.calls[:]
                r.init_counts = (s.nfev, s.njev, s.nlu)
                r.solver = s
                r.direction = s.direction
                r.y0 = np.array(s.y, copy=True)
                r.nfs0 = int(X.NFS[()])
                r.nfi0, r.nls0 = int(X.NFI[()]), int(X.NLS[()])
                if on_init:
                    on_init(s)
                i = 0
                while s.status == 'running' and i < max_steps:
                    c0 = r.c0 = rec.c0 = len(rec.calls)
                    w0 = len(W)
                    st = Stp()
                    st.t, st.y = s.t, s.y.copy()
                    n0 = counters(s)
                    a0 = (int(X.NFS[()]), int(X.NFI[()]), int(X.NLS[()]))
                    st.exc = None
                    r.steps.append(st)
                    try:
                        st.msg = s.step()
                    except (TaskTimeout, Budget):
                        st.msg = None
                        st.exc = 'timeout'
                        raise
                    except Exception as e:
                        st.exc = repr(e)[:200]
                        st.msg = None
                    st.t1, st.y1, st.status = s.t, s.y.copy(), s.status
                    st.calls = rec.calls[c0:]
                    n1 = counters(s)
                    st.nfev, st.njev, st.nlu = (b - a for a, b in zip(n0, n1))
                    st.nfs, st.nfi, st.nls = (int(x) - a for x, a in zip((X.NFS[()], X.NFI[()], X.NLS[()]), a0))
                    st.warns = [str(w.message) for w in W[w0:]]
                    st.dcalls = []
                    st.ddn = []
                    st.sol = []
                    if st.exc:
                        break
                    if on_step:
                        on_step(s, st, i)
                    if dense and st.status != 'failed':
                        for _ in range(dense(i)):
                            c1, n1 = len(rec.calls), s.nfev
                            d = s.dense_output()
                            st.dcalls.append(rec.calls[c1:])
                            st.ddn.append(s.nfev - n1)
                            if keep_dense:
                                st.sol.append(d)
                    i += 1
                if after_end and s.status != 'running':
                    r.refused = []
                    for _ in range(2):
                        a = (s.t, s.y.copy(), s.status)
                        n = len(rec.calls)
                        try:
                            s.step()
                            ok = False
                        except RuntimeError:
                            ok = True
                        except Exception:
                            ok = False
                        r.refused.append(ok and s.t == a[0] and np.array_equal(s.y, a[1], equal_nan=True)
                                         and s.status == a[2] and len(rec.calls) == n)
        except (TaskTimeout, Budget) as x:
            r.hang = isinstance(x, TaskTimeout) or (
                bool(r.steps) and len(rec.calls) - r.c0 > rec.long)
            r.trunc = True
            if r.steps:
                st = r.steps[-1]
                for a in ('t1', 'y1', 'status'):
                    if not hasattr(st, a):
                        setattr(st, a, getattr(st, a[:-1], 'running') if a != 'status' else 'running')
                for a in ('calls', 'dcalls', 'sol', 'warns', 'ddn'):
                    if not hasattr(st, a):
                        setattr(st, a, [])
                for a in ('nfev', 'njev', 'nlu', 'nfs', 'nfi', 'nls'):
                    if not hasattr(st, a):
                        setattr(st, a, 0)
        r.warns = [str(w.message) for w in W]
    return r
