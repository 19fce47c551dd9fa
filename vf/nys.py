"""Second order problems in the terms of Nystrom.tla, and the projection of recorded runs onto the events of TraceNystrom.tla."""
import numpy as np
from . import rec
from .base import dev2, rng


def build(s):
    q = s['p']
    g = rng('nys', repr(s['seed']))
    R = np.random.RandomState(g.randrange(2**31))
    n = s['n']
    cplx = q['form'] == 'complex'
    K = np.diag(.5 + 2*R.rand(n)) + .2*R.randn(n, n)
    D = .2*np.eye(n) + .05*R.randn(n, n)
    w, a0 = 1 + R.rand(n), R.randn(n)*(0 if q['start'] == 'zeros' and g.random() < .5 else 1)
    cub = g.choice([0, .1])
    ph = np.exp(.7j) if cplx else 1.
    sg = -1. if s.get('mirror') else 1.
    t0 = s.get('t0', 0.)

    def acc(t, x, v):
        if q['accel'] == 'const':
            return a0 + 0*x
        a = -K @ x - cub*x*(np.abs(x)**2) + a0*np.cos(w*t)
        if q['accel'] == 'vlin':
            a = a - D @ v
        elif q['accel'] == 'vquad':
            a = a - .1*v*v/ph
        return a

    def core(t, y):
        x, v = y[:n], y[n:2*n]
        a = acc(sg*t, x, sg*v)
        first = {'v': lambda: v, 'x': lambda: x, 'twice': lambda: 2*v, 'minus': lambda: -v, 'plus': lambda: v + 1,
                 'last': lambda: np.append(v[:-1], 2*v[-1]), 'swapped': lambda: a}[q['first']]()
        r = np.concatenate((a, v) if q['first'] == 'swapped' else (first, a))
        return np.append(r, -y[-1]) if q['odd'] else r
    f = q['form']
    if f == 'list':
        fun = lambda t, y: list(core(t, np.asarray(y)))                  # noqa
    elif f == 'tuple':
        fun = lambda t, y: tuple(core(t, np.asarray(y)))                 # noqa
    elif f == 'vectorized':
        def fun(t, y):
            y = np.asarray(y)
            return core(t, y) if y.ndim == 1 else np.stack([core(t, c) for c in y.T], 1)
    else:
        fun = core
    x0, v0 = R.randn(n), R.randn(n)
    if f == 'ints':
        x0, v0 = np.arange(1, n + 1), -np.arange(2, n + 2)
    x0, v0 = x0*ph, v0*ph
    st = q['start']
    if st == 'equal':
        v0 = x0.copy()
    if st in ('zeros', 'origin'):
        x0 = 0*x0
    if st in ('zeros', 'rest'):
        v0 = 0*v0
    y0 = np.concatenate((x0, v0))
    if q['odd']:
        y0 = np.append(y0, y0[:1]*0 + 1)
    if cplx:
        y0 = y0 + 0j
    Y0 = [int(x) for x in y0] if f == 'ints' else list(y0) if f == 'list' else tuple(y0) if f == 'tuple' else y0
    return dict(fun=fun, core=core, y0=np.asarray(Y0), t0=sg*t0, tb=sg*(t0 + 3.), so=True, jac=None, Y0=Y0)


def reference(p):
    from scipy.integrate import solve_ivp
    r = solve_ivp(p['core'], (p['t0'], p['tb']), np.asarray(p['y0'], complex if np.iscomplexobj(p['y0']) else float), method='DOP853', rtol=2e-13,
                  atol=1e-14, dense_output=True)
    return r.sol if r.success else None


def project(s):
    p = build(s)
    q = s['p']
    o = dict(rtol=s['rtol'], atol=s['atol'])
    if q['form'] == 'vectorized':
        o['vectorized'] = True
    for k in ('first_step', 'interpolant'):
        if s.get(k) is not None:
            o[k] = s[k]
    r = rec.run(s['method'], p, o, dense=lambda i: 1, keep_dense=True, max_steps=300)
    cfg = dict(name=s['method'], p=q)
    ev = [dict(k='init', exc='' if r.init_exc is None else type(r.init_exc).__name__)]
    if r.init_exc is not None or q['odd'] or q['first'] != 'v':
        return dict(cfg=cfg, ev=ev)
    ref = reference(p)
    top = np.max(np.abs(p['y0']))
    for st in r.steps:
        if st.exc or st.status == 'failed':
            break
        top = max(top, np.max(np.abs(st.y1)))
        sc = s['atol'] + s['rtol']*top
        e = dict(k='step', er=-200, ed=-200)
        if ref:
            e['er'] = dev2(max(np.max(np.abs(st.y1 - ref(st.t1))) - 1e-11*top, 0)/sc)
            e['ed'] = max(dev2(max(np.max(np.abs(st.sol[0](x) - ref(x))) - 1e-11*top, 0)/sc) for x in (st.t + .3*(st.t1 - st.t), st.t + .7*(st.t1 - st.t)))
        ev.append(e)
    st = r.steps[-1]
    ev.append(dict(k='end', status='raised' if st.exc else st.status))
    return dict(cfg=cfg, ev=ev)
