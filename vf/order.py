"""Errors of single steps of decreasing size, and of whole integrations of decreasing tolerance, projected onto TraceOrder.tla."""
import numpy as np
from . import rec
from .base import LG, rng

NONE = -999999999


def problem(s):
    """smooth problems of unit scale, started at t0, of the first or second order"""
    g = rng('order', repr(s['seed']))
    R = np.random.RandomState(g.randrange(2**31))
    n, kind = s['n'], s['kind']
    ph = np.exp(1j*R.uniform(0, 6)) if s['cplx'] else 1.
    A = R.randn(n, n)*.5 - .3*np.eye(n)
    if s['name'] == 'SSV2stab':
        A = -(A @ A.T)/2 - .2*np.eye(n)
    b, w, q = R.randn(n), 1 + R.rand(n), R.uniform(.2, .6, n)
    t0 = float(g.choice([0, .5, -1, 2]))
    sg = -1. if s['back'] else 1.
    x0 = (np.sign(R.randn(n))*R.uniform(.4, 1.2, n))*ph

    def nl(x):
        return 0*x if kind in ('linear', 'forced') else q*np.roll(x, 1)*x/ph - .2*x**3/ph**2

    def force(t):
        return 0. if kind == 'auto' or kind == 'linear' else b*np.cos(w*t)*ph

    def F1(t, y):
        r = A @ y + nl(y) + force(t)
        return r*(1 + .4*np.sin(t)) if kind == 'timevar' else r

    def f1(t, y):
        return sg*F1(sg*(t - t0), y)

    def j1(t, y):
        t = sg*(t - t0)
        if kind in ('linear', 'forced'):
            J = A
        else:
            J = A + np.diag(q*np.roll(y, 1)/ph - .6*y**2/ph**2)
            for i in range(n):
                J = J.astype(y.dtype)
                J[i, (i - 1) % n] += q[i]*y[i]/ph
        return sg*(J*(1 + .4*np.sin(t)) if kind == 'timevar' else J)
    if s['name'] not in rec.NYSTROM:
        return f1, x0, t0, sg, j1
    v0 = R.randn(n)*ph
    vel = 0 if s['name'] == 'MR6NN' else .3

    def f2(t, y):
        x, v = y[:n], y[n:]
        return np.concatenate((v, F1(sg*(t - t0), x) - sg*vel*v*(1 if kind in ('linear', 'forced') else 1 + .5*np.roll(x, 1)/ph)))
    return f2, np.concatenate((x0, v0)), t0, sg, None


def ref(f, t0, y0, ts):
    from scipy.integrate import solve_ivp
    ts = np.atleast_1d(ts)
    out = []
    t, y = t0, y0
    for x in ts:
        if x != t:
            y = solve_ivp(f, (t, x), y, method='DOP853', rtol=3e-14, atol=1e-16, max_step=max(abs(x - t)/4, 1e-6)).y[:, -1]
        t = x
        out.append(y)
    return np.array(out)


XS = (.23, .5, .81)


def one_step(s, h, f, y0, t0, sg, jac):
    base = rec.cls(s['name'])
    kw = dict(first_step=h, rtol=1e-2, atol=1e4)
    if s['name'] in rec.ESDIRK:
        kw['jac'] = jac
        if hasattr(base, 'kappa'):
            base = type(base.__name__, (base,), dict(kappa=1e-13/kw['atol']))
    for k in ('interpolant',):
        if s.get(k) is not None:
            kw[k] = s[k]
    if s['name'] == 'SSV2stab':
        kw['rho_jac'] = lambda t, y: s.get('rho', 4.)
    r = base(f, t0, y0.copy(), t0 + sg*50, **kw)
    r.step()
    return r, r.dense_output() if r.status != 'failed' else None


ROUGH = {'Pr8': 2.**10, 'Pr9': 2.**10}        # interpolants with large coefficients


def ladder(s):
    n = s['levels']
    E, D = np.zeros(n), np.zeros(n)
    first, fl = 0, 0.
    for j in range(s['problems']):
        f, y0, t0, sg, jac = problem(dict(s, seed=[s['seed'], j]))
        if not np.all(np.abs(ref(f, t0, y0, t0 + sg*s['h0'])) < 10):
            continue
        iterated = s['name'] in rec.ESDIRK and s['kind'] not in ('linear', 'forced')
        fl = max(fl, 5e-14*max(1, np.max(np.abs(y0))), 1e-11 if iterated else 0)
        for k in range(n):
            h = s['h0']*2.**-k
            r, d = one_step(s, h, f, y0, t0, sg, jac)
            if r.status == 'failed' or abs(abs(r.t - t0) - h) > 1e-12:
                first = max(first, k + 1)
                continue
            ts = t0 + sg*h*np.array(XS)
            z = ref(f, t0, y0, np.append(ts, r.t))
            E[k] = max(E[k], np.max(np.abs(r.y - z[-1])))
            D[k] = max(D[k], max(np.max(np.abs(d(t) - x)) for t, x in zip(ts, z)))
    L = lambda e, fl: [LG(x) if x > fl else NONE for x in e[first:]]                 # noqa
    return dict(k='ladder', e=L(E, fl), d=L(D, fl*ROUGH.get(s['name'], 1)))


def tols(s):
    E, D, W = [], [], []
    for j in range(20):
        f, y0, t0, sg, jac = problem(dict(s, seed=[s['seed'], j]))
        tb = t0 + sg*4
        xs = np.linspace(t0, tb, 33)[1:]
        z = ref(f, t0, y0, xs)
        if np.all(np.abs(z) < 10):
            break
    else:
        return dict(k='none')
    sc = max(1, np.max(np.abs(z)))
    for k in range(s['lo'], s['hi'] + 1):
        kw = dict(rtol=10.**-k, atol=10.**-k)
        if s['name'] in rec.ESDIRK:
            kw['jac'] = jac
        if s.get('interpolant') is not None:
            kw['interpolant'] = s['interpolant']
        if s['name'] == 'SSV2stab':
            kw['rho_jac'] = lambda t, y: 4.
        r = rec.run(s['name'], dict(fun=f, y0=y0, t0=t0, tb=tb, so=False), kw, dense=lambda i: 1, keep_dense=True)
        if r.init_exc is not None or not r.steps or r.steps[-1].exc or r.steps[-1].status != 'finished':
            return dict(k='failed')
        E.append(np.max(np.abs(r.steps[-1].y1 - z[-1])))
        d = 0
        for x, y in zip(xs, z):
            st = next(q for q in r.steps if sg*(q.t1 - x) >= 0)
            d = max(d, np.max(np.abs(st.sol[0](x) - y)))
        D.append(d)
        W.append(LG(10.**-k*sc))
    return dict(k='tols', e=[LG(x) if x > 2e-13*sc else NONE for x in E], d=[LG(x) if x > 2e-13*sc else NONE for x in D], t=W)


def project(s):
    return dict(cfg=dict(name=s['name'], it=str(s.get('interpolant', '')), kind=s['kind']), ev=[(ladder if s['what'] == 'ladder' else tols)(s)])
