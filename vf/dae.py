"""Differential-algebraic problems in the terms of Dae.tla, their reference solutions, and the projection of recorded runs
onto the events of TraceDae.tla."""
import numpy as np
from . import rec
from .base import dev2, rng
from .tab import GOLD, EPS


# --- problems -----------------------------------------------------------------------------------
# canonical form, x = (u, v):   S u' = F(t, u, v),  0 = g(t, u, v);   y = Q^-1 x,  M = P diag(S, 0) Q,  f = P (F, g)
def canonical(kind, nu, nv, g, cplx=False):
    """F, g, their Jacobian and consistent start of a canonical problem (nv algebraic equations)"""
    R = np.random.RandomState(g.randrange(2**31))
    S = 1. + R.rand(nu)
    if kind == 'linear':
        A = R.randn(nu + nv, nu + nv)
        if cplx:
            A = A + 1j*R.randn(nu + nv, nu + nv)
        Avv = A[nu:, nu:]*.3 + 2*np.eye(nv)
        Auv, Avu = A[:nu, nu:], A[nu:, :nu]
        k = g.choice([1., 1., 20., 300.])
        Auu = -k*S[:, None]*np.eye(nu)*(1 + R.rand(nu)) + .3*A[:nu, :nu]
        G = np.block([[Auu + (Auv @ np.linalg.solve(Avv, Avu) if nv else 0), Auv], [Avu, Avv]]) if nv else Auu
        w = 1 + R.rand(nu + nv)
        a = R.randn(nu + nv)

        def fun(t, x):
            return G @ x + a*np.cos(w*t)

        def jac(t, x):
            return G

        def ft(t, x):
            return -a*w*np.sin(w*t)
        u0 = R.randn(nu) + (1j*R.randn(nu) if cplx else 0)
        return dict(fun=fun, jac=jac, ft=ft, S=S, u0=u0, v0=np.zeros(nv), lin=True, span=2., smooth=k == 1)
    if kind == 'cubic':             # 0 = v + v^3/4 - (coupling of u) (1 + sin(t)/2)
        B = R.randn(nv, nu)*.5
        C = R.randn(nu, nv)*.5

        def fun(t, x):
            u, v = x[:nu], x[nu:]
            return np.concatenate((-u + (C @ v**2 if nv else 0)*.3 + .2*np.cos(t) - .1*u**2, v + v**3/4 - (B @ u)*(1 + .5*np.sin(t))))

        def jac(t, x):
            u, v = x[:nu], x[nu:]
            J = np.zeros((nu + nv, nu + nv), x.dtype)
            J[:nu, :nu] = np.diag(-1 - .2*u)
            J[:nu, nu:] = .6*C*v
            J[nu:, :nu] = -B*(1 + .5*np.sin(t))
            J[nu:, nu:] = np.diag(1 + .75*v**2)
            return J

        def ft(t, x):
            u = x[:nu]
            return np.concatenate((np.full(nu, -.2*np.sin(t)), -(B @ u)*.5*np.cos(t)))
        u0 = .3 + .5*R.rand(nu) + 0j*cplx
        return dict(fun=fun, jac=jac, ft=ft, S=S, u0=u0, v0=.1*R.randn(nv), lin=False, span=3.)
    if kind == 'kaps':              # nu = nv = 1
        def fun(t, x):
            return np.array([-x[0] + x[1]**2, x[0] - x[1] - x[1]**2])

        def jac(t, x):
            return np.array([[-1., 2*x[1]], [1., -1 - 2*x[1]]])
        return dict(fun=fun, jac=jac, ft=lambda t, x: np.zeros(2), S=np.ones(1), u0=np.array([1.]), v0=np.array([1.]), lin=False, span=2.)
    if kind == 'robertson':         # nu = 2, nv = 1
        def fun(t, x):
            return np.array([-.04*x[0] + 1e4*x[1]*x[2], .04*x[0] - 1e4*x[1]*x[2] - 3e7*x[1]**2, x[0] + x[1] + x[2] - 1])

        def jac(t, x):
            return np.array([[-.04, 1e4*x[2], 1e4*x[1]], [.04, -1e4*x[2] - 6e7*x[1], -1e4*x[1]], [1., 1, 1]])
        return dict(fun=fun, jac=jac, ft=lambda t, x: np.zeros(3), S=np.ones(2), u0=np.array([1., 0.]), v0=np.array([0.]), lin=False, span=40.,
                    diag=True)
    if kind == 'hopeless':          # 0 = v^2 + 1 + u^2/9
        def fun(t, x):
            return np.concatenate((-x[:nu], x[nu:]**2 + 1 + x[0]**2/9))

        def jac(t, x):
            J = -np.eye(nu + nv, dtype=x.dtype)
            J[nu:, nu:] = np.diag(2*x[nu:])
            J[nu:, :nu] = 0
            J[nu:, 0] = 2*x[0]/9
            return J
        return dict(fun=fun, jac=jac, ft=lambda t, x: np.zeros(nu + nv), S=S, u0=np.full(nu, .5), v0=np.full(nv, .7), lin=False, span=1.)
    if kind == 'index2':            # 0 = u_1 - sin(t)
        def fun(t, x):
            r = np.concatenate((-x[:nu], -x[nu:]*0. if nv > 1 else np.zeros(nv)))
            r[0] += x[nu]
            r[nu] = x[0] - np.sin(t)
            if nv > 1:
                r[nu + 1:] = x[nu + 1:] - x[0]
            return r

        def jac(t, x):
            J = np.zeros((nu + nv, nu + nv), x.dtype)
            J[:nu, :nu] = -np.eye(nu)
            J[0, nu] = 1
            J[nu, 0] = 1
            if nv > 1:
                J[nu + 1:, nu + 1:] = np.eye(nv - 1)
                J[nu + 1:, 0] = -1
            return J
        v0 = np.zeros(nv)
        v0[0] = 1
        return dict(fun=fun, jac=jac, ft=lambda t, x: np.zeros(nu + nv), S=S, u0=np.zeros(nu), v0=v0, lin=True, span=1.)
    raise KeyError(kind)


def solve_v(c, t, u, v, it=60):
    """the consistent v near v"""
    nu = u.size
    for _ in range(it):
        x = np.concatenate((u, v))
        d = np.linalg.solve(c['jac'](t, x)[nu:, nu:], c['fun'](t, x)[nu:])
        v = v - d
        if np.all(np.abs(d) <= 4*EPS*np.abs(v)) or not np.all(np.isfinite(d)):
            break
    return v


def orth(n, R, cplx=False):
    return np.linalg.qr(R.randn(n, n) + (1j*R.randn(n, n) if cplx else 0))[0]


def build(s):
    """scenario -> problem (fun, jac, y0, t0, tb), M and what is known about it"""
    g = rng('dae', s['seed'])
    q = s['p']
    nu, nv = s['nu'], q['nae']
    cplx = bool(s.get('cplx'))
    c = canonical(s['kind'], nu, nv, g, cplx)
    n = nu + nv
    R = np.random.RandomState(g.randrange(2**31))
    diag = q['form'] in ('none', 'vec', 'list', 'mat2') or s['kind'] == 'robertson'
    cM = cplx and s.get('cM') and not diag
    if q['form'] == 'none':
        P, Q, S = np.diag(1/c['S']), np.eye(n), np.ones(n)
        PS = np.eye(n)
    else:
        if diag:
            perm = R.permutation(n)
            Q = np.eye(n)[perm]
            P = Q.T.copy()
        else:
            P = orth(n, R, cM) @ np.diag(1 + .3*R.rand(n)) @ orth(n, R, cM)
            Q = orth(n, R, cM) @ np.diag(1 + .3*R.rand(n)) @ orth(n, R, cM)
        PS = P @ np.diag(np.concatenate((c['S'], np.zeros(nv))))
    sc = np.ones(n)
    if nv:
        sc[nu:] = dict(one=1., small=2.**-34, large=2.**27)[q['units']]
    P = P*sc                                     # units of the algebraic equations
    M = PS @ Q if q['form'] != 'none' else np.eye(n)
    if not cM:
        M = M.real
    Qi = np.linalg.inv(Q)
    t0 = s.get('t0', 0.)
    v0 = c['v0'].copy()
    u0 = c['u0'].copy()
    hopeless = s['kind'] == 'hopeless'
    if nv and not hopeless and s['kind'] != 'index2':
        v0 = solve_v(c, t0, u0, v0)
        v0 = v0 + 0.
    x0 = np.concatenate((u0, v0))
    sg = -1. if s.get('mirror') else 1.

    def fun(t, y):
        return sg*(P @ c['fun'](sg*t, Q @ y))

    def jac(t, y):
        return sg*(P @ c['jac'](sg*t, Q @ y) @ Q)
    y0 = Qi @ x0
    yc = y0.copy()
    if nv and q['start'] in ('near', 'off'):
        w = R.randn(nv) + (1j*R.randn(nv) if cplx else 0)
        e = Qi[:, nu:] @ w                         # changes algebraic unknowns only
        y0 = y0 + s['off']*e/np.max(np.abs(e)/(s['atol'] + s['rtol']*np.abs(y0)))
    if not cplx:
        y0, yc = y0.real, yc.real
    else:
        y0, yc = y0 + 0j, yc + 0j
    form = q['form']
    import scipy.sparse as sp
    dM = np.diagonal(M).copy()
    Mo = {'none': lambda: None, 'vec': lambda: dM, 'list': lambda: list(dM), 'mat': lambda: M, 'mat2': lambda: np.diag(dM),
          'csr': lambda: sp.csr_array(M), 'csc': lambda: sp.csc_matrix(M), 'coo': lambda: sp.coo_array(M),
          'short': lambda: dM[:-1], 'long': lambda: np.append(dM, 1.), 'oblong': lambda: np.ones((n, n + 1)),
          'ndim': lambda: np.ones((n, n, 1)), 'number': lambda: 2., 'shortcsr': lambda: sp.csr_array(np.eye(n - 1) if n > 1 else np.eye(2))}[form]()
    t0, tb = sg*t0, sg*(t0 + s.get('span', 1.)*c['span'])
    return dict(fun=fun, jac=jac, y0=y0, t0=t0, tb=tb, c=c, P=P, Q=Q, Qi=Qi, M=M, Mo=Mo, nu=nu, nv=nv, yc=yc, sg=sg, lin=c['lin'])


def options(s, p):
    o = dict(rtol=s['rtol'], atol=s['atol'])
    if s.get('vatol'):
        o['atol'] = np.full(p['y0'].size, s['atol'])
    import scipy.sparse as sp
    j = s.get('jac')
    f = p['jac']
    if j == 'fun':
        o['jac'] = f
    elif j == 'sparse':
        o['jac'] = lambda t, y: sp.csc_array(f(t, y))
    elif j == 'array' and p['lin']:
        o['jac'] = f(p['t0'], p['y0'])
    elif j == 'sparsearray' and p['lin']:
        o['jac'] = sp.csr_array(f(p['t0'], p['y0']))
    elif j == 'sparsity':
        o['jac_sparsity'] = np.ones((p['y0'].size,)*2)
    if s['p']['form'] != 'none':
        o['M'] = p['Mo']
    for k in ('first_step', 'interpolant', 'jac_each_step', 'max_step'):
        if s.get(k) is not None:
            o[k] = s[k]
    return o


def record(s):
    p = build(s)
    o = options(s, p)
    return p, o, rec.run(s['method'], p, o, dense=lambda i: 1, keep_dense=True, max_steps=s.get('max_steps', 400))


def reference(p, y0):
    """the solution, from the equivalent reduced ODE (None if it cannot be had)"""
    from scipy.integrate import solve_ivp
    c, nu, nv = p['c'], p['nu'], p['nv']
    x0 = p['Q'] @ y0
    last = [x0[nu:]]

    def rhs(t, u):
        v = solve_v(c, t, u, last[0]) if nv else last[0]
        return c['fun'](t, np.concatenate((u, v)))[:nu]/c['S']
    stiff = np.iscomplexobj(x0) is False
    r = solve_ivp(rhs, (p['sg']*p['t0'], p['sg']*p['tb']), x0[:nu], method='Radau' if stiff else 'DOP853', rtol=1e-11, atol=1e-13, dense_output=True)
    if not r.success:
        return None

    def sol(t):
        u = r.sol(p['sg']*t)
        v = solve_v(c, p['sg']*t, u, x0[nu:]*0 + last[0]) if nv else x0[nu:]
        return p['Qi'] @ np.concatenate((u, v))
    return sol


def slope(p, t, y):
    """(M y' = f, d/dt g = 0), in canonical coordinates"""
    c, nu, nv, sg = p['c'], p['nu'], p['nv'], p['sg']
    x = p['Q'] @ y
    F = c['fun'](sg*t, x)
    J = c['jac'](sg*t, x)
    ft = c['ft'](sg*t, x)
    ud = F[:nu]/c['S']
    vd = -np.linalg.solve(J[nu:, nu:], ft[nu:] + J[nu:, :nu] @ ud) if nv else np.zeros(0)
    return sg*(p['Qi'] @ np.concatenate((ud, vd)))


def displacement(p, t, y):
    """how far y is from solving the algebraic equations (one Newton step)"""
    c, nu, nv, sg = p['c'], p['nu'], p['nv'], p['sg']
    if not nv:
        return np.zeros_like(y)
    x = p['Q'] @ y
    d = np.linalg.solve(c['jac'](sg*t, x)[nu:, nu:], c['fun'](sg*t, x)[nu:])
    return p['Qi'][:, nu:] @ d


def project(s, rr=None, full=False):
    p, o, r = rr or record(s)
    q = s['p']
    cfg = dict(name=s['method'], p=q)
    ev = []
    rtol, atol = s['rtol'], s['atol']
    e = dict(k='init', exc='' if r.init_exc is None else type(r.init_exc).__name__, warned=any('Initial conditions are changed' in w for w in r.warns),
             dm=-200, r0=-200, sl=-200)
    ev.append(e)
    if r.init_exc is not None:
        return dict(cfg=cfg, ev=ev)
    if s['kind'] in ('hopeless', 'index2') or q['form'] in ('short', 'long', 'oblong', 'ndim', 'number', 'shortcsr'):
        return dict(cfg=cfg, ev=ev)
    y0 = r.y0
    n = y0.size
    M = p['M']
    with np.errstate(all='ignore'):
        if np.any(M):
            e['dm'] = dev2(np.max(np.abs(M @ (y0 - p['y0'])))/(EPS*np.max(np.abs(M))*max(np.max(np.abs(y0)), np.max(np.abs(p['y0'])), 1e-300)))
        nz = 2**6*EPS*np.max(np.abs(y0))
        e['r0'] = dev2(np.max(np.maximum(np.abs(displacement(p, p['t0'], y0)) - nz, 0)/(atol + rtol*np.abs(y0))))
        st = r.steps[0]
        cs = [c for c in st.calls if c.k == 'fun' and c.t != p['t0']]
        g = GOLD[s['method']]
        if cs and st.exc is None:
            c = cs[0]
            A, C, Az, d = (np.asarray(g[k]) for k in ('A', 'C', 'Az', 'd'))
            h = (c.t - p['t0'])/C[1]
            Y = np.asarray(c.y).reshape(n, -1)[:, 0]
            yp = (Y - y0)/(h*(A[1, 0] + d*Az[1, 0]))
            ref = slope(p, p['t0'], y0)
            big = np.max(np.abs(ref)) + np.max(np.abs(p['Qi'] @ p['c']['ft'](p['sg']*p['t0'], p['Q'] @ y0)))
            noise = 2**6*EPS*(np.max(np.abs(y0))/abs(h)) + 2**4*np.spacing(abs(p['t0']))/abs(h)*big
            if noise < 1e-3*big:
                e['sl'] = dev2(max(np.max(np.abs(yp - ref)) - noise, 0)/big)
    ref = reference(p, y0) if s.get('ref') else None
    yr = [np.max(np.abs(y0))]
    for st in r.steps:
        if st.exc or st.status == 'failed':
            break
        sc = atol + rtol*np.maximum(np.abs(st.y), np.abs(st.y1))
        z = dict(k='step', r=-200, rd=-200, er=-200, ed=-200)
        with np.errstate(all='ignore'):
            nz = 2**6*EPS*np.max(np.abs(st.y1))
            D = [(.5, st.sol[0]((st.t + st.t1)/2))] if st.sol else []
            if p['nv']:
                z['r'] = dev2(np.max(np.maximum(np.abs(displacement(p, st.t1, st.y1)) - nz, 0)/sc))
                for x, yd in D if p['c'].get('smooth', s['kind'] != 'robertson') else []:
                    z['rd'] = dev2(np.max(np.maximum(np.abs(displacement(p, (st.t + st.t1)/2, yd)) - nz, 0)/sc))
            if ref is not None:
                yr.append(np.max(np.abs(st.y1)))
                scg = atol + rtol*max(yr)
                nr = 1e-9*max(yr)
                z['er'] = dev2(max(np.max(np.abs(st.y1 - ref(st.t1))) - nr, 0)/scg)
                for x, yd in D if p['c'].get('smooth', s['kind'] != 'robertson') else []:
                    z['ed'] = dev2(max(np.max(np.abs(yd - ref((st.t + st.t1)/2))) - nr, 0)/scg)
        ev.append(z)
    st = r.steps[-1]
    ev.append(dict(k='end', status='raised' if st.exc else 'cut' if r.trunc else st.status))
    return dict(cfg=cfg, ev=ev)
