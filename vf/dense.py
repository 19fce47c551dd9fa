"""Measurements on interpolants and solve_ivp results, projected onto the events of TraceDense.tla"""
import warnings
import numpy as np
from . import rec, scen, problems
from .base import dev2, alarm, TaskTimeout, rng

EPS = 2.22e-16
N = 14
_x = (1 - np.cos(np.pi*np.arange(N)/(N - 1)))/2            # Chebyshev-Lobatto nodes on [0, 1]


def _dmat0():
    """weights of the derivative at x=0 of the polynomial through the nodes"""
    w = np.ones(N)
    for i in range(N):
        w[i] = 1/np.prod(2*(_x[i] - np.delete(_x, i)))
    d = np.zeros(N)
    for j in range(1, N):
        d[j] = w[j]/w[0]/(_x[0] - _x[j])
    d[0] = -d[1:].sum()
    return d


D0 = _dmat0()


def slopes(sol, t0, t1, part=.5):
    """slope of an interpolant at both ends; the interpolant is a polynomial on the first and on the last part"""
    h = t1 - t0
    a = sol(t0 + part*h*_x)
    b = sol(t1 - (1 - part - .1)*h*_x)
    return a @ D0/(part*h), -(b @ D0)/((1 - part - .1)*h)


FRAC = [0., .13, .37, .5, .71, .9, 1.]


def kind(m, o):
    es = m in rec.ESDIRK
    c1 = m not in ('KC3I', 'KC4I', 'KC4Ia', 'Kv3I') or o.get('interpolant') == 'C1'
    rep = m == 'Fi5N' and o.get('interpolant') == 1
    return dict(name=m, fam='esdirk' if es else 'expl', slope=not es and not rep, c1=c1,
                rep=rep, ls=-10,
                tag=m + ('.' + str(o['interpolant']) if 'interpolant' in o else ''))


class Scale:
    """tolerances and rounding level of a step"""
    def __init__(s, r, st, y1):
        o = r.opts
        rtol = max(o.get('rtol', 1e-3), 2.3e-15)
        m = np.maximum(np.abs(st.y), np.abs(y1))
        s.tol = np.maximum(np.asarray(o.get('atol', 1e-6), float), 1e-150) + rtol*m
        s.h = abs(st.t1 - st.t)
        F = [np.abs(c.f) for c in st.calls if c.k == 'fun' and np.shape(c.f) == np.shape(m)]
        f = np.max(F, axis=0) if F else 0.
        tt = max(abs(st.t), abs(st.t1))
        s.noise = 2.**18*EPS*(m + s.h*f) + 2.**4*EPS*tt*f
        s.snoise = s.noise + 2.**14*EPS*tt*f
        if r.p['so'] and s.h:              # the slope of a position rounded to eps is only known to eps/h
            n = m.size//2
            s.snoise = s.snoise + np.concatenate((0*m[:n], 2.**18*EPS*m[:n]/s.h))

    def slope(s, x):
        return s(x, s.snoise)

    def __call__(s, x, noise=None):
        x = np.abs(x)
        if not np.all(np.isfinite(x)):
            return 200
        x = np.where(x <= (s.noise if noise is None else noise), 0., x)
        return dev2(np.max(x/s.tol))


def observe(s):
    """run scenario s, request interpolants, and project"""
    m = s['method']
    p, o = scen.build(s)
    made = []

    def on_step(sv, st, i):
        if st.status == 'failed' or i % s.get('every', 1) or i >= 40:
            return
        y = sv.y.copy()
        n = 1 + (i % 3 == 1)
        try:
            D = [sv.dense_output() for _ in range(n)]
            ts = st.t + np.array(FRAC)*(st.t1 - st.t)
            ts[-1] = st.t1
            made.append((i, D, ts, [d(ts).copy() for d in D], y, sv.y.copy(), None))
        except TaskTimeout:
            raise
        except Exception as x:
            made.append((i, [], None, None, y, sv.y.copy(), repr(x)))

    r = rec.run(m, p, o, on_step=on_step, max_steps=s.get('max_steps', 60), tmax=60)
    if r.init_exc is not None or r.trunc or not made:
        return None
    cfg = kind(m, o)
    smooth = s['problem'] in problems.SMOOTH + problems.SO_SMOOTH + ['so_damp', 'so_vdp', 'units', 'stiff1', 'prot', 'heat', 'adr']
    cfg['slope'] = cfg['slope'] and smooth
    cfg['c1'] = cfg['c1'] and smooth
    ev, last = [], None
    for i, D, ts, V, ya, yb, exc in made:
        st = r.steps[i]
        F = [c for c in st.calls if c.k == 'fun']
        if not (F and np.all(np.isfinite(F[-1].f)) and np.all(np.isfinite(st.y1))):
            last = None                  # the right-hand side is not finite at the end of the step
            continue
        e = dict(k='sol', i=i, n=len(D), rng=False, e0=-200, e1=-200, v=-200, s=-200, s0=-200, s1=-200, forms=-200,
                 shape=False, again=-200, y=False, fro=False, exc=bool(exc), back=bool(r.direction < 0))
        ev.append(e)
        if exc:
            continue
        y1 = yb
        sc = Scale(r, st, y1)
        d = D[0]
        e['y'] = not np.array_equal(ya, yb)
        e['rng'] = not all(q.t_min == min(st.t, st.t1) and q.t_max == max(st.t, st.t1) for q in D)
        v = V[0]
        e['e0'], e['e1'] = sc(v[:, 0] - st.y), sc(v[:, -1] - y1)
        e['again'] = max([sc((q[:, k] - v[:, k])) for q in V[1:] for k in range(len(FRAC))] + [-200])
        # other forms of the same arguments
        x = ts[2]
        one, lst, perm = d(float(x)), d(list(ts)), d(ts[[4, 0, 6, 2, 2]])
        zero, arr1, n0 = d(np.array(x)), d(np.array([x])), st.y.size
        e['shape'] = not (np.shape(one) == (n0,) and np.shape(zero) == (n0,) and np.shape(arr1) == (n0, 1)
                          and np.shape(lst) == v.shape and np.shape(perm) == (n0, 5) and v.shape == (n0, len(FRAC)))
        if not e['shape']:
            e['forms'] = max([sc(one - v[:, 2]), sc(zero - v[:, 2]), sc(arr1[:, 0] - v[:, 2])] +
                             [sc(lst[:, k] - v[:, k]) for k in range(len(FRAC))] +
                             [sc(perm[:, k] - v[:, q]) for k, q in enumerate([4, 0, 6, 2, 2])])
        e['fro'] = not all(np.array_equal(q(ts), w, equal_nan=True) for q, w in zip(D, V))
        if sc.h > 2**20*EPS*max(abs(st.t), abs(st.t1)):
            a, b = slopes(d, st.t, st.t1)
            with np.errstate(all='ignore'):
                f0, f1 = np.asarray(p['fun'](st.t, st.y)), np.asarray(p['fun'](st.t1, y1))
            e['s0'], e['s1'] = sc.slope(sc.h*(a - f0)), sc.slope(sc.h*(b - f1))
            if last is not None and last[0] == i - 1:
                e['v'] = max(sc(v[:, 0] - last[1]), -200)
                sl = last[3]
                e['s'] = min(sc.slope(min(sc.h, sl.h)*(a - last[2])), sl.slope(min(sc.h, sl.h)*(a - last[2])))
            last = (i, v[:, -1], b, sc)
        else:
            last = None
    return dict(cfg=cfg, ev=ev)


def ivp(s):
    """run scenario s through solve_ivp and compare with the stepped solver"""
    from scipy.integrate import solve_ivp
    m = s['method']
    p, o = scen.build(s)
    r = rec.run(m, p, dict(o), max_steps=300, tmax=60)
    if r.init_exc is not None or r.trunc or not r.steps or r.steps[-1].status == 'running' or r.steps[-1].exc:
        return None
    acc = [x for x in r.steps if x.status != 'failed']
    tt = np.array([p['t0']] + [x.t1 for x in acc])
    yy = np.array([r.y0] + [x.y1 for x in acc]).T
    failed = r.steps[-1].status == 'failed'
    cfg = kind(m, o)
    d = r.direction
    g = rng('ivp', repr(s))
    te = sorted({p['t0'] + g.random()*(p['tb'] - p['t0']) for _ in range(12)} |
                {float(x) for x in tt[::3]} | ({p['t0'], p['tb']} if g.random() < .7 else set()), reverse=d < 0)
    e = dict(k='ivp', exc=False, same=False, te=-200, teq=False, br=-200, jump=-200, ev=False, nev=0, nt=len(te),
             back=bool(d < 0))
    lev = float(np.median(yy[0].real)) + 1e-3*float(np.ptp(yy[0].real)) + 1e-5*float(np.max(np.abs(yy[0])))

    def ev1(t, y):
        return y[0].real - lev

    def ev2(t, y):
        return np.sum(y).real - .37
    ev1.terminal = False
    ev2.direction = g.choice([-1, 0, 1])
    span = (p['t0'], p['tb'])
    w = []

    def fun(*a):
        w.append(1)
        if len(w) > 300000:
            raise rec.Budget()
        return p['fun'](*a)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), alarm(60):
            warnings.simplefilter('ignore')
            A = solve_ivp(fun, span, p['y0'].copy(), method=rec.cls(m), dense_output=True, events=[ev1, ev2], **o)
            B = solve_ivp(fun, span, p['y0'].copy(), method=rec.cls(m), t_eval=te, **o)
            C = solve_ivp(fun, span, p['y0'].copy(), method=rec.cls(m), **o)
            ev1.terminal = True
            D = solve_ivp(fun, span, p['y0'].copy(), method=rec.cls(m), events=ev1, **o)
    except rec.Budget:
        return None
    except Exception as x:
        e['exc'] = repr(x)[:200] or True
        e['exc'] = True
        return dict(cfg=cfg, ev=[e])
    rep = cfg['rep']
    e['same'] = not (np.array_equal(C.t, tt) and np.array_equal(C.y, yy, equal_nan=True) and C.nfev == r.solver.nfev
                     and (C.status == -1) == failed and (rep or (np.array_equal(A.t, tt) and
                                                               np.array_equal(A.y, yy, equal_nan=True)))
                     and C.njev == r.solver.njev and A.njev == C.njev and A.nlu == C.nlu)
    if len(A.t) < 2:
        return dict(cfg=cfg, ev=[e])
    rtol, atol = max(o.get('rtol', 1e-3), 2.3e-15), np.maximum(np.asarray(o.get('atol', 1e-6), float), 1e-150)
    top = np.max(np.abs(A.y), axis=1)

    def dv(x, y, more=0.):
        if not np.size(x):
            return -200
        if not np.all(np.isfinite(x)):
            return 200
        x = np.abs(x)
        y = np.abs(y)
        noise = 2.**18*EPS*np.maximum(y, 1e-3*top[:, None]) + more
        x = np.where(x <= noise, 0., x)
        return dev2(np.max(x/(np.atleast_1d(atol)[:, None] + rtol*y)))
    smooth = s['problem'] in problems.SMOOTH + problems.SO_SMOOTH and not s.get('span')
    last = A.t[-1]
    if not rep:
        n = sum((x - last)*d <= 0 for x in te)
        e['teq'] = not np.array_equal(B.t, te[:n])
        if not e['teq'] and n:
            e['te'] = dv(B.y - A.sol(B.t), B.y)
    fin = np.all(np.isfinite(A.y), axis=0)
    # a solution this steep is only determined up to the rounding of time
    rate = (np.abs(np.diff(A.y, axis=1))/np.abs(np.diff(A.t))*2.**5*EPS*np.max(np.abs(A.t))
            + 2.**18*EPS*np.maximum(np.abs(A.y[:, 1:]), np.abs(A.y[:, :-1])))
    rate = np.maximum(np.hstack((rate[:, :1], rate)), np.hstack((rate, rate[:, -1:])))[..., None]
    e['br'] = max([dv((A.sol(t) - y)[:, None], y[:, None], rate[:, k])
                   for k, (t, y, f) in enumerate(zip(A.t, A.y.T, fin)) if f] + [-200])
    if smooth:
        H = np.abs(np.diff(A.t))
        for k, (t, y, h) in enumerate(zip(A.t[1:-1], A.y.T[1:-1], np.minimum(H[:-1], H[1:]))):
            if h < 1e-5*abs(p['tb'] - p['t0']):     # rounding of positions makes velocities uncertain
                continue
            a, b = A.sol(np.nextafter(t, -np.inf)), A.sol(np.nextafter(t, np.inf))
            e['jump'] = max(e['jump'], dv((a - b)[:, None], y[:, None], 4*rate[:, k + 1]))
        bad = []
        for iq, q in enumerate((ev1, ev2)):
            G = np.array([q(t, y) for t, y in zip(A.t, A.y.T)])
            up, dn = (G[:-1] <= 0) & (G[1:] >= 0), (G[:-1] >= 0) & (G[1:] <= 0)
            dr = 0 if iq == 0 else ev2.direction
            want = int(np.sum((up | dn) if dr == 0 else up if dr > 0 else dn))
            T = A.t_events[iq]
            e['nev'] += len(T)
            bad.append(len(T) != want)
            bad.append(np.any(np.diff(T)*d < 0))
            if len(T):
                Y = A.y_events[iq]
                bad.append(dv((Y - A.sol(T).T).T, Y.T) > -12)
                bad.append(any(dv(np.array([[q(t, y)]]), np.array([[top.max()]])) > -6 for t, y in zip(T, Y)))
        if len(A.t_events[0]) and not rep:
            bad.append(D.status != 1 or abs(D.t[-1] - A.t_events[0][0]) > 1e-9*abs(p['tb'] - p['t0']))
        e['ev'] = bool(any(bad))
    return dict(cfg=cfg, ev=[e])
