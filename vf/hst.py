"""First steps: problems of the families of HStart.tla, generic ones, and their projection onto TraceHStart.tla."""
import numpy as np
from . import rec, tab
from .base import LG, rng

NONE = -999999999


def lg(x):
    return LG(x) if x else NONE


def build(s):
    """problem, options and p of HStart.tla"""
    g = rng('hst', repr(s['seed']))
    m, n, fam = s['name'], s['n'], s['fam']
    so = m in rec.NYSTROM
    cplx = s['cplx'] and m not in rec.REAL_ONLY
    ph = np.exp(.7j) if cplx else 1.
    T = 2.**s['lt']                           # time scale
    Y = 2.**s['ly']                           # size
    t0 = s['a']*T
    L = s['len']*T
    sg = -1. if s['back'] else 1.
    tb = t0 + sg*L
    R = np.random.RandomState(g.randrange(2**31))
    sgn = R.choice([-1., 1.], n)
    c = 1/T
    jac = None
    if fam == 'generic':
        w, b = 1 + R.rand(n), R.randn(n)
        A = R.randn(n, n)*.4 - np.diag(.5 + R.rand(n))
        x0 = R.randn(n)*ph
        k = s['fast']
        f = lambda t, y: k*(A @ (y/Y) + b*np.cos(k*w*(t - t0)*sg/T) - .1*(y/Y)**3/ph**2)*Y/T*sg             # noqa
        if so:
            v0 = R.randn(n)*ph
            y0 = np.concatenate((x0, v0/T*sg))*Y
            h = lambda t, y: f(t, y[:n])/T*sg - (.2*y[n:]/T*sg if m != 'MR6NN' else 0)                                              # noqa
            fun = lambda t, y: np.concatenate((y[n:], h(t, y)))                                     # noqa
        else:
            y0, fun = x0*Y, f
            jac = lambda t, y: k*(A - np.diag(.3*(y/Y)**2/ph**2))/T*sg                                  # noqa
    else:
        lam = c*(1j if cplx and g.random() < .5 else -1.)*sg
        y0 = sgn*Y*ph
        if fam in ('zero', 'const', 'ramp') and g.random() < .3 or fam == 'rest':
            y0 = 0*y0
        if fam == 'ramp':
            c = Y/T**2
        elif fam == 'const':
            c = Y/T
        fun = {'zero': lambda t, y: 0*y, 'const': lambda t, y: c*sgn*ph + 0*y, 'ramp': lambda t, y: c*sgn*ph*(t - t0) + 0*y,
               'linear': lambda t, y: lam*y, 'rest': lambda t, y: lam*y}[fam]
        jac = lambda t, y: (lam if fam in ('linear', 'rest') else 0.)*np.eye(n)                       # noqa
    rtol, atol = s['rtol'], s['atol']*Y
    if s['vec']:
        atol = atol*10.**-(np.arange(y0.size) % 3)
    o = dict(rtol=rtol, atol=atol)
    if s['maxs'] and fam != 'generic':
        o['max_step'] = L*s['maxs']
    if m in rec.ESDIRK:
        o['jac'] = jac
        if s['M']:
            o['M'] = 4*np.eye(n)
            f1, j1 = fun, jac
            fun, o['jac'] = lambda t, y, f1=f1: 4*f1(t, y), lambda t, y, j1=j1: 4*j1(t, y)
        if s['dae'] and n == 1:                # an algebraic copy: 0 = y1 - z  (first or last)
            i, k = (0, 1) if g.random() < .5 else (1, 0)
            M = np.zeros((2, 2))
            M[i, i] = 4 if s['M'] else 1

            def fun(t, y, f1=fun):
                r = np.empty_like(y)
                r[i], r[k] = f1(t, y[i:i + 1])[0], (y[i] - y[k])*3
                return r

            def dj(t, y, j1=o['jac']):
                r = np.zeros((2, 2), y.dtype)
                r[i, i], r[k, i], r[k, k] = j1(t, y[i:i + 1])[0, 0], 3, -3
                return r
            o['jac'], o['M'] = dj, M
            y0 = np.array([y0[0], y0[0]])
            if s['vec']:
                o['atol'] = atol = np.full(2, s['atol']*Y)
    if s.get('coupled'):                       # u' = k^2 u + k v, 0 = -v - k (1 + 1/k^2) u: reduces to u' = -u
        k = s['coupled']
        fun = lambda t, y: sg*np.array([k*k*y[0] + k*y[1], -y[1] - k*(1 + 1/k**2)*y[0]])           # noqa
        jac = lambda t, y: sg*np.array([[k*k, k], [-k*(1 + 1/k**2), -1]])                        # noqa
        o['jac'], o['M'], y0 = jac, np.diag([1., 0.]), np.array([1, -k*(1 + 1/k**2)])
        o['atol'] = atol = s['atol']
        c = Y = 1.
    if m == 'SSV2stab':
        rho = abs(c) if fam in ('linear', 'rest') else 1e-9/L
        if fam == 'generic':
            rho = 3*s['fast']/T
        o['rho_jac'] = lambda t, y: rho
    et = atol + rtol*np.abs(y0)
    if s.get('coupled') or s['dae'] and m in rec.ESDIRK and n == 1:
        et = et[:1]
    dx = min(L, o.get('max_step', np.inf))
    rk = m not in ('SWAG', 'SSV2stab')
    gd = tab.GOLD.get(m)
    p = dict(lc=LG(c), ly=LG(Y), dx=LG(dx), em=int(np.mean([LG(x) for x in np.ravel(et)])), el=min(LG(x) for x in np.ravel(et)), a=lg(abs(t0)),
             ord=1 if not rk else min(gd['order'], gd['order_secondary']), d=LG(L), jt='M' in o and np.ndim(o['M']) == 2 and not np.all(np.diag(o['M'])))
    return dict(fun=fun, y0=y0, t0=t0, tb=tb, jac=None, so=so), o, p


def start(s, steps=1):
    """(run, length of the first attempt or None)"""
    pr, o, p = build(s)
    r = rec.run(s['name'], pr, o, max_steps=steps)
    if r.init_exc is not None or not r.steps:
        return r, None, p, pr
    st, m = r.steps[0], s['name']
    h = None
    if m == 'SSV2stab':
        h = abs(st.t1 - st.t) if st.nfs == 0 and not st.exc else None
    else:
        C = tab.GOLD[m]['C'][1] if m in tab.GOLD else 1.
        q = [c.t for c in st.calls if c.k == 'fun' and c.t != pr['t0']]
        if q:
            h = abs(q[0] - pr['t0'])/C
    return r, h, p, pr


def project(s):
    r, h, p, pr = start(s, 12 if s['fam'] == 'generic' else 1)
    m = s['name']
    cfg = dict(name=m, rkc=m == 'SSV2stab', slow=m in rec.NYSTROM + ['SWAG', 'SSV2stab'], half=m not in rec.ESDIRK + ['SSV2stab', 'SWAG'], n=pr['y0'].size if not (s['dae'] and m in rec.ESDIRK) else max(2, pr['y0'].size), fam=s['fam'], p=p,
               extra=1 if m == 'MR6NN' else 0)
    if r.init_exc is not None:
        return dict(cfg=cfg, ev=[dict(k='end', exc=type(r.init_exc).__name__)])
    q = [c.t for c in r.init_calls if c.k == 'fun']
    lo, hi = sorted((pr['t0'], pr['tb']))
    ev = [dict(k='calls', n=len(q) - 1, **{'in': all(lo <= t <= hi for t in q)})]
    if h is not None:
        ev.append(dict(k='h0', h=lg(h)))
        for what, ch in (('repeat', {}), ('mirror', dict(back=not s['back'], a=-s['a'])), ('timescale', dict(lt=s['lt'] - 3)),
                         ('tighter', dict(rtol=s['rtol']/16, atol=s['atol']/16)), ('longer', dict(len=4*s['len'])), ('faster', None)):
            if what == 'faster':
                ch = dict(fast=4*s['fast']) if s['fam'] == 'generic' else None
            if ch is None or not s['pairs'] or what in ('faster', 'timescale') and m in rec.NYSTROM:
                continue
            r2, h2, _, _ = start(dict(s, **ch))
            if h2 is not None:
                ev.append(dict(k='pair', what=what, h=lg(h), g=lg(h2)))
    if s['fam'] == 'generic':
        L = [abs(x.t1 - x.t) for x in r.steps if not x.exc and x.status != 'failed']
        if L:
            ev.append(dict(k='first', rej=r.steps[0].nfs, lag=lg(max(L)/L[0])))
    return dict(cfg=cfg, ev=ev)
