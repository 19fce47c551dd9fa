"""The limit between acceptance and rejection of a first step, found by bisection over its size on the real solver: there the error in the
sense of the specification must be one.  The solutions change much within the step, so that every part of the weights shows."""
import numpy as np
from . import rec, tab, esd
from .base import rng

KINDS = ('grow', 'decay', 'imag', 'phase', 'mixed', 'balance')


def problem(s):
    g = rng('margin', s['method'], s['kind'], s['j'])
    k, so, m = s['kind'], s['method'] in rec.NYSTROM, s['method']
    n = 1 if k in ('grow', 'decay', 'imag') else 3
    lam = np.array([g.uniform(.5, 2.) for _ in range(n)])
    if k == 'decay':
        lam *= -1
    if k in ('mixed', 'balance'):
        lam = lam*np.array([1., -1., .3])
    y0 = np.array([g.uniform(.5, 2.) for _ in range(n)])
    ph = {'imag': 1j, 'phase': np.exp(1j*np.array([g.uniform(0, 6.3) for _ in range(n)]))}.get(k, 1.)
    y0 = y0*ph
    w = g.uniform(.3, .9)
    rtol = g.choice([.1, .05, .01])
    atol = 1e-9
    if k == 'mixed':
        atol = [1e-9, 1e-3, 1.]
    if k == 'balance':
        atol = [float(abs(x)*rtol) for x in y0]
    if so:
        atol = atol*2 if isinstance(atol, list) else atol
        if m == 'MR6NN':
            def f(t, y):
                return np.concatenate((y[n:], (lam*abs(lam) + w*np.sin(t))*y[:n]))
        else:
            def f(t, y):
                return np.concatenate((y[n:], (lam*abs(lam) + w*np.sin(t))*y[:n] + .1*lam*y[n:]))
        y0 = np.concatenate((y0, lam*y0))
    else:
        def f(t, y):
            return lam*(1 + w*np.sin(t))*y
    jac = None if so else (lambda t, y: np.diag(lam*(1 + w*np.sin(t))).astype(y.dtype))
    d = -1 if s.get('back') else 1
    p = dict(name='margin', fun=(lambda t, y: d*f(d*t, y)) if not so else (lambda t, y: np.concatenate((y[n:], f(d*t, np.concatenate((y[:n], d*y[n:])))[n:]))),
             jac=None if so else (lambda t, y: d*jac(d*t, y)), y0=y0, t0=0., tb=d*100., so=so, vel=m != 'MR6NN')
    if so and d < 0:
        p['y0'] = np.concatenate((y0[:n], -y0[n:]))
    o = dict(rtol=rtol, atol=np.array(atol) if isinstance(atol, list) else atol)
    if m in rec.ESDIRK:
        o['jac'] = p['jac']
    else:
        o['nfev_stiff_detect'] = 0
    return p, o


def traces(s):
    p, o = problem(s)
    out = []
    lo, hi = 1e-4, 30.

    def accepted(h):
        r = rec.run(s['method'], p, dict(o, first_step=h), max_steps=1)
        if r.init_exc is not None or r.hang or not r.steps:
            return None
        t = esd.project(r, smooth=True) if s['method'] in rec.ESDIRK else tab.project(r)
        if t is not None:
            out.append(t)
        st = r.steps[0]
        return st.status != 'failed' and st.nfs == 0 and st.nfi == 0
    for _ in range(s.get('n', 16)):
        x = np.sqrt(lo*hi)
        a = accepted(x)
        if a is None:
            break
        lo, hi = (x, hi) if a else (lo, x)
    return out


def scenarios(methods, k):
    return [dict(method=m, kind=q, j=j, back=(i + j) % 2 == 1) for m in methods for i, q in enumerate(KINDS) for j in range(k)]


def merged(s):
    return traces(s)
