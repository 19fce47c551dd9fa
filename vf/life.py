"""Projection of recorded runs onto the events of TraceLife.tla (every solver)."""
import math
import numpy as np
from .base import cint


def over(x, unit):
    """how far x exceeds zero, in units of rounding"""
    if x <= 0:
        return 0
    return cint(math.ceil(x/unit)) if np.isfinite(x) else 10**9


def bad_jac(r, i):
    """was the Jacobian in use in step i possibly not finite? (the factorization then raises)"""
    j = r.opts.get('jac')
    if j is not None and not callable(j):
        return False
    J = [c for s in r.steps[:i + 1] for c in s.calls if c.k == 'jac'] or [c for c in r.init_calls if c.k == 'jac']
    if j is not None:
        a = J[-1].f
        a = a.toarray() if hasattr(a, 'toarray') else a
        return not np.all(np.abs(a) < 1e150)
    F = r.init_calls + [c for s in r.steps[:i + 1] for c in s.calls if c.t == s.t]
    with np.errstate(all='ignore'):
        return any(not np.all(np.abs(c.f) < 1e150) for c in F)


def project(r, solvable=False, nonfin=False):
    p, o = r.p, r.opts
    t0, tb = p['t0'], p['tb']
    u = np.spacing(max(abs(t0), abs(tb), 1e-300))
    ms = o.get('max_step', np.inf)
    fs = o.get('first_step')
    if fs and fs < 2e4*u:          # below the smallest possible step
        fs = None
    if ms < 2e4*u:
        ms = np.inf
    if fs and r.method == 'SSV2stab' and 1.1*fs >= abs(tb - t0):
        fs = None                  # the published code stretches a step by up to 10 % to end on t_bound
    # the published nodes of KC4I reach 4 % beyond the step
    far = .04 if r.method == 'KC4I' else 0.
    ev = []
    d = 1. if tb >= t0 else -1.

    def outside(calls, a=t0, b=tb, slack=0.):
        """overshoot of the interval in rounding units"""
        m = 0.
        for c in calls:
            m = max(m, (a - c.t)*d, (c.t - b)*d - slack) if c.t == c.t else math.inf
        return over(m, u)
    cfg = dict(name=r.method, solvable=bool(solvable), nonfin=bool(nonfin), complete=False)
    if r.init_exc is not None:
        return dict(cfg=cfg, ev=[dict(k='raised', exc=repr(r.init_exc)[:120])])
    F = [c for c in r.init_calls if c.k == 'fun']
    G = [c for c in r.init_calls if c.k != 'fun']
    lim = min(abs(tb - t0), ms)
    reach = max([abs(c.t - t0) for c in F], default=0.)
    ev.append(dict(k='new', out=outside(F), outj=outside(G), imx=over(reach - lim, u + 8*2.2e-16*abs(lim)
                                                                      if np.isfinite(lim) else 1.)))
    for i, st in enumerate(r.steps):
        if st.exc == 'timeout':
            ev.append(dict(k='hang', budget=not r.hang))
            break
        F = [c for c in st.calls if c.k == 'fun']
        G = [c for c in st.calls if c.k != 'fun']
        if st.exc is not None:
            ev.append(dict(k='exc', lin=('infs or NaNs' in st.exc and bad_jac(r, i)) or 'LinAlg' in st.exc or 'singular' in st.exc))
            break
        nf = [c for c in F if not np.all(np.isfinite(c.f))]
        reach = max([abs(c.t - st.t) for c in F], default=0.)
        ln = abs(st.t1 - st.t)
        reach /= 1 + far
        # of the attempted step, which is not longer than the remaining interval
        slack = far*abs(tb - st.t)*(1 + 1e-9)
        um = 2*u + (8*2.2e-16*ms if np.isfinite(ms) else 0)
        e = dict(k='step', mv=int(np.sign((st.t1 - st.t)*d)) if st.t1 == st.t1 else 2,
                 left=int(np.sign((tb - st.t1)*d)) if st.t1 == st.t1 else 2, status=st.status,
                 msg=bool(st.msg), same=bool(st.t1 == st.t and np.array_equal(st.y1, st.y, equal_nan=True)),
                 finite=bool(np.all(np.isfinite(st.y1)) and np.isfinite(st.t1)),
                 lmx=over(ln - ms, um) if np.isfinite(ms) else 0,
                 rmx=over(reach - ms, um) if np.isfinite(ms) else 0,
                 lfs=over(ln - fs, 2*u + 1e-14*fs) if fs and i == 0 else 0,
                 rfs=over(reach - fs, 2*u + 1e-14*fs) if fs and i == 0 else 0,
                 out=outside(F, slack=slack), outj=outside(G, st.t, tb),
                 ahead=over((reach - ln), 2*u + 1e-12*ln) if st.nfs == 0 and st.nfi == 0 and st.status != 'failed'
                 and r.method not in ('CKdisc', 'SSV2stab') else 0,
                 behind=over(max([(st.t - c.t)*d for c in F], default=0.), u),
                 dout=max([outside(x, st.t, st.t1) for x in st.dcalls], default=0),
                 nf=len(nf), rej=bool(st.nfs > 0))
        ev.append(e)
    if r.steps and r.steps[-1].exc is None and r.steps[-1].status != 'running':
        ev.append(dict(k='end', refused=all(r.refused) if r.refused is not None else True))
    return dict(cfg=cfg, ev=ev)
