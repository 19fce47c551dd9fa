"""Parametrized problems with analytical derivatives, calls of the sensitivity functions and their projection onto TraceSens.tla."""
import numpy as np
from . import rec
from .base import dev2, rng, alarm, LG

SCIPY = ['RK45', 'DOP853', 'Radau', 'BDF', 'LSODA']


class Problem:
    """y' = (A + sum p_k E_k) y + D (p^2) cos(t) + b sin(t) - c y^3 + q p_0 p_last y_0 y ;  y0 = u + V p + W p^2 ; g as below"""

    def __init__(s, sc):
        g = np.random.RandomState(rng('sens', repr(sc['seed'])).randrange(2**31))
        ny, np_ = sc['ny'], sc['np']
        s.ny, s.np = ny, np_
        A = g.randn(ny, ny)*.5
        sym = sc['name'] == 'SSV2stab'
        if sym:
            A = (A + A.T)/2
        s.A = A - .6*np.eye(ny)
        s.E = g.randn(np_, ny, ny)*.2
        if sym:
            s.E = (s.E + s.E.transpose(0, 2, 1))/2
        s.D = g.randn(ny, np_)*.5
        s.b = g.randn(ny)
        s.c = 0. if sym else g.choice([0, .05])
        s.p = g.uniform(-1.5, 1.5, np_)
        if sc['pz']:
            s.p[g.randint(np_)] = 0.
        s.u, s.V, s.W = g.randn(ny), g.randn(ny, np_)*g.choice([0, 1]), g.randn(ny, np_)*g.choice([0, .3])
        s.h, s.Q, s.H, s.r = g.randn(ny), g.randn(ny, ny)*.3, g.randn(ny, np_)*.5, g.randn()
        s.Q = s.Q + s.Q.T
        s.t0 = float(g.choice([0, 0, 1, -2]))
        s.tf = s.t0 + 1.5*(-1 if sc['back'] else 1)
        if sc['back']:                # solutions must not grow much in either direction
            s.A = s.A + .6*np.eye(ny)

    def y0(s, p):
        return s.u + s.V @ p + s.W @ p**2

    def dy0(s, p):
        return s.V + 2*s.W*p

    def fun(s, t, y, *p):
        p = np.array(p)
        return (s.A + np.tensordot(p, s.E, 1)) @ y + s.D @ p**2*np.cos(t) + s.b*np.sin(t) - s.c*y**3

    def jac(s, t, y, *p):
        return s.A + np.tensordot(np.array(p), s.E, 1) - 3*s.c*np.diag(y**2)

    def dfdp(s, t, y, *p):
        return np.stack([E @ y for E in s.E], 1) + 2*s.D*np.array(p)*np.cos(t)

    def g(s, t, y, *p):
        p = np.array(p)
        return np.array([s.h @ y + .5*y @ s.Q @ y + y @ s.H @ p*np.cos(t) + s.r*p[-1]**2*(1 + t)])

    def dgdy(s, t, y, *p):
        return s.h + s.Q @ y + s.H @ np.array(p)*np.cos(t)

    def dgdp(s, t, y, *p):
        r = s.H.T @ y*np.cos(t)
        r[-1] += 2*s.r*p[-1]*(1 + t)
        return r


def reference(q):
    """states, sensitivities and integrals by DOP853 of the variational equations; None if the problem is not benign"""
    from scipy.integrate import solve_ivp
    ny, m = q.ny, q.np
    p = q.p

    def f(t, z):
        y, S = z[:ny], z[ny:ny + ny*m].reshape(ny, m)
        return np.concatenate((q.fun(t, y, *p), (q.jac(t, y, *p) @ S + q.dfdp(t, y, *p)).ravel(), q.g(t, y, *p),
                               q.dgdy(t, y, *p) @ S + q.dgdp(t, y, *p)))
    z0 = np.concatenate((q.y0(p), q.dy0(p).ravel(), np.zeros(1 + m)))
    r = solve_ivp(f, (q.t0, q.tf), z0, method='DOP853', rtol=1e-12, atol=1e-13, dense_output=True)
    if not r.success or np.max(np.abs(r.y)) > 1e3:
        return None
    z = r.y[:, -1]
    y, S = z[:ny], z[ny:ny + ny*m].reshape(ny, m)
    d = dict(y=y, S=S, G=z[ny + ny*m], dG=z[ny + ny*m + 1:], g=q.g(q.tf, y, *p)[0], dg=q.dgdy(q.tf, y, *p) @ S + q.dgdp(q.tf, y, *p), sol=r.sol,
             top=np.max(np.abs(r.y[:ny])), tops=max(1, np.max(np.abs(r.y))))
    # the derivatives above against differences of perturbed solutions
    e = 1e-4
    k = int(np.argmax(np.abs(p)))

    def end(pp):
        h = lambda t, z: np.append(q.fun(t, z[:ny], *pp), q.g(t, z[:ny], *pp))        # noqa
        w = solve_ivp(h, (q.t0, q.tf), np.append(q.y0(pp), 0), method='DOP853', rtol=1e-12, atol=1e-13).y[:, -1]
        return np.concatenate((w, q.g(q.tf, w[:ny], *pp)))
    dp = np.eye(m)[k]*e
    D = (end(p + dp) - end(p - dp))/(2*e)
    assert np.allclose(D, np.concatenate((d['S'][:, k], [d['dG'][k], d['dg'][k]])), rtol=1e-4, atol=1e-5), 'harness: derivatives'
    return d


def recorded(base, log, inject, t0, n):
    """a solver class that logs each solve and fails on order"""
    class Rec(base):
        def __init__(self, fun, a, y0, b, **kw):
            log.append([self, (a, b)])
            self._n = 0
            super().__init__(fun, a, y0, b, **kw)

        def _step_impl(self):
            self._n += 1
            if inject == ('fw' if self.t_bound != t0 else 'bw') and self._n >= n:
                return False, 'injected'
            return super()._step_impl()
    Rec.__name__ = base.__name__
    return Rec


def flawed(w, a, kw, q):
    """arguments with a flaw"""
    one = lambda f, h: (lambda t, y, *p: h(f(t, y, *p)))                              # noqa
    if w == 'y0ndim':
        a['y0'] = np.array([a['y0']])
    if w == 'y0dtype':
        a['y0'] = a['y0'] + 0j if q.ny % 2 else np.ones(q.ny, int)
    if w == 's0ndim':
        a['dy0dp'] = a['dy0dp'][:, 0]
    if w == 's0shape':
        a['dy0dp'] = np.zeros((q.ny, q.np + 1)) if q.np % 2 else np.zeros((q.ny + 1, q.np))
    if w == 'pdtype':
        a['p'] = np.ones(q.np, int)
    if w == 'funcall':
        a['fun'] = lambda t: a['y0']
    if w == 'fundim':
        a['fun'] = one(q.fun, lambda r: np.array([r]))
    if w == 'funshape':
        a['fun'] = one(q.fun, lambda r: np.append(r, 0))
    if w == 'jacshape':
        a['jac'] = one(q.jac, lambda r: np.zeros((q.ny, q.ny + 1)))
    if w == 'dfdpdim':
        a['dfdp'] = one(q.dfdp, lambda r: r[:, 0])
    if w == 'dfdpshape':
        a['dfdp'] = one(q.dfdp, lambda r: np.zeros((q.ny, q.np + 1)))
    if w == 'gdim':
        a['g'] = one(q.g, lambda r: np.array([r]))
    if w == 'gshape':
        a['g'] = one(q.g, lambda r: np.append(r, r))
    if w == 'dgdyshape':
        a['dgdy'] = one(q.dgdy, lambda r: np.append(r, 0))
    if w == 'dgdpshape':
        a['dgdp'] = one(q.dgdp, lambda r: np.append(r, 0))
    if w == 'rtoltype':
        kw['rtol'] = [kw['rtol']]*q.ny
    if w == 'atolshape':
        kw['atol'] = [kw['rtol']]*(q.ny + 1)
    if w == 'teval':
        kw['t_eval'] = np.linspace(q.t0, q.tf, 5)[:-1]


def project(sc):
    import extensisq
    from scipy.integrate import solve_ivp
    q = Problem(sc)
    fn, name = sc['fn'], sc['name']
    cfg = dict(fn=fn, w=sc['w'], given=bool(sc['given']), seen=name not in SCIPY, inject=sc['inject'], name=name, back=sc['back'], np=q.np, ny=q.ny,
               pz=bool(np.any(q.p == 0)))
    ref = reference(q)
    if ref is None:
        return None
    if sc['inject'] == 'blowup':           # a pole inside the interval
        sg = 1. if q.tf > q.t0 else -1.
        q.c = 0.
        q.u = np.abs(q.u) + 6
        fun0, jac0 = q.fun, q.jac
        q.fun = lambda t, y, *p: fun0(t, y, *p) + sg*y**2
        q.jac = lambda t, y, *p: jac0(t, y, *p) + sg*2*np.diag(y)
        q.A = 0*q.A
        q.E, q.V, q.W, q.D, q.b = 0*q.E, 0*q.V, 0*q.W, 0*q.D, 0*q.b
    log = []
    m = name if name in SCIPY else recorded(rec.cls(name), log, sc['inject'], q.t0, sc['nfail'])
    p = q.p
    y0, s0 = q.y0(p), q.dy0(p)
    rtol, atol = sc['rtol'], sc['atol']
    A = dict(fun=q.fun, t_span=(q.t0, q.tf), y0=y0, jac=q.jac, dfdp=q.dfdp, dy0dp=s0, p=p)
    kw = dict(method=m, rtol=rtol, atol=atol)
    tol = atol
    vec = lambda n, j: atol*10.**-(np.arange(j, n + j) % 3/2)                       # noqa
    form = {'float': lambda v: atol, 'array': lambda v: v, 'list': list, 'tuple': tuple}[sc['atolform']]
    kw['atol'] = form(vec(q.ny, 0))
    av = np.broadcast_to(kw['atol'], (q.ny,))
    aa, aq = av, np.full(q.np, atol)
    if sc['lists'] and sc['w'] == 'none':
        A['y0'], A['dy0dp'], A['p'] = list(y0), s0.tolist(), list(p) if sc['lists'] == 1 else tuple(p)
    te = None
    if fn == 'forward':
        if sc['approx']:
            kw['use_approx_jac'] = True
        if sc['dense']:
            kw['dense_output'] = True
        if sc['te']:
            te = np.linspace(q.t0, q.tf, 5)
            kw['t_eval'] = te if sc['te'] == 1 else list(te)
    else:
        A.update(g=q.g, dgdp=q.dgdp, dgdy=q.dgdy)
        kw['atol_adj'], kw['atol_quad'] = form(vec(q.ny, 1)), form(vec(q.np, 2))
        aa, aq = np.broadcast_to(kw['atol_adj'], (q.ny,)), np.broadcast_to(kw['atol_quad'], (q.np,))
        if sc['given']:
            kw['sol_y'] = solve_ivp(q.fun, (q.t0, q.tf), y0, method='DOP853', rtol=max(rtol*1e-2, 1e-13), atol=atol*1e-2, args=tuple(p),
                                    dense_output=sc['w'] != 'nosol')
    L = lambda v: [LG(x) for x in v]                                                # noqa
    cfg.update(a=L(av), aa=L(aa), aq=L(aq), r=LG(rtol), lp=[LG(abs(x)) if x else 0 for x in p], form=sc['atolform'])
    flawed(sc['w'], A, kw, q)
    F = dict(forward=extensisq.sens_forward, end=extensisq.sens_adjoint_end, int=extensisq.sens_adjoint_int)[fn]
    copies = [(k, np.array(v)) for k, v in A.items() if isinstance(v, np.ndarray)]
    exc = out = None
    try:
        with alarm(60):
            out = F(**A, **kw)
    except Exception as e:
        exc = e
    ev = []
    for s, (a, b) in log:
        ev.append(dict(k='solve', dir='fw' if (a, b) == (q.t0, q.tf) else 'bw' if (b, a) == (q.t0, q.tf) else 'other',
                       ok=getattr(s, 'status', 'failed') == 'finished',
                       a=L(np.broadcast_to(getattr(s, 'atol', 0.), (s.n,))) if hasattr(s, 'n') else [], r=LG(getattr(s, 'rtol', 0.))))
    if exc is not None:
        ev.append(dict(k='raised', exc=type(exc).__name__))
        return dict(cfg=cfg, ev=ev)
    if sc['inject'] == 'blowup' or sc['w'] != 'none':
        ev.append(dict(k='result', es=-200, ey=-200, ef=-200, eh=-200, shape=True))
        return dict(cfg=cfg, ev=ev)
    e = lambda x, r, sc: dev2(max(np.max(np.abs(np.asarray(x) - r)) - 1e-10*ref['tops'], 0)/(tol + rtol*sc))      # noqa
    r = dict(k='result', es=-200, ey=-200, ef=-200, eh=-200)
    ok = all(np.array_equal(A[k], v) for k, v in copies)                 # arguments are left alone
    if fn == 'forward':
        sensf, yf, sol = out
        ok &= np.shape(sensf) == (q.ny, q.np) and np.shape(yf) == (q.ny,)
        if ok:
            r['es'], r['ey'] = e(sensf, ref['S'], ref['tops']), e(yf, ref['y'], ref['tops'])
        ok &= sol.y.shape == (q.ny*(q.np + 1), sol.t.size) and (te is None or np.array_equal(sol.t, te)) and (sol.sol is not None) == bool(sc['dense'])
        hist = [(t, z) for t, z in zip(sol.t, sol.y.T)]
        if sc['dense']:
            hist += [(t, sol.sol(t)) for t in np.linspace(q.t0, q.tf, 7)]
        for t, z in hist:
            w = ref['sol'](t)
            z = np.concatenate((z[:q.ny], z[q.ny:].reshape(q.ny, q.np, order='F').ravel()))
            r['eh'] = max(r['eh'], e(z, w[:z.size], ref['tops']))
    else:
        sens, val, sy, sb = out
        ok &= np.shape(sens) == (q.np,) and np.size(val) == 1 and (not sc['given'] or sy is kw['sol_y'])
        if ok:
            r['es'] = e(sens, ref['dg' if fn == 'end' else 'dG'], ref['tops'])
            r['ef'] = e(val, ref['g' if fn == 'end' else 'G'], ref['tops'])
        r['ey'] = e(sy.y[:, -1], ref['y'], ref['tops'])
        r['eh'] = max(e(sy.sol(t), ref['sol'](t)[:q.ny], ref['tops']) for t in np.linspace(q.t0, q.tf, 7))
        ok &= sb.t[0] == q.tf and sb.t[-1] == q.t0
    r['shape'] = bool(ok)
    ev.append(r)
    return dict(cfg=cfg, ev=ev)
