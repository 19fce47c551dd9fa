"""Stiffness detection: projection of a run with detection beside the same run without it onto TraceStiff.tla.  The power
iteration is followed with its recorded arguments and values; the roots come from a least squares fit."""
import math
import numpy as np
from . import rec, scen
from .base import LG, LGf, LGc, LMAX, dev2
from .tab import GOLD, TINY

WITH = ['BS5', 'Ts5', 'CK5', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'Me4', 'Fi4N', 'Fi5N', 'Mu5Nmb']
RKN = ['Fi4N', 'Fi5N', 'Mu5Nmb']
SAID = (('oscillatory', 'osc'), ('real dominant root', 'real'), ('complex pair', 'pair'))
EN = np.finfo(float).epsneg


def lin(A, y0, tb, g=None, so=False):
    A = np.array(A)
    y0 = np.array(y0)

    def fun(t, y):
        f = A @ y
        return f if g is None else f + g(t)
    return dict(name='lin', fun=fun, jac=lambda t, y: A, y0=y0, t0=0., tb=float(tb), so=so, vel=so)


def block(*ls):
    """real matrix with the given eigenvalues (complex: with the conjugates), in a skew basis"""
    n = sum(2 if isinstance(x, complex) else 1 for x in ls)
    D = np.zeros((n, n))
    i = 0
    for x in ls:
        if isinstance(x, complex):
            D[i:i+2, i:i+2] = [[x.real, x.imag], [-x.imag, x.real]]
            i += 2
        else:
            D[i, i] = x
            i += 1
    r = np.random.RandomState(n)
    Q = np.eye(n) + .3*r.uniform(-1, 1, (n, n))
    return Q @ D @ np.linalg.inv(Q)


def sq(t):
    return math.copysign(1., math.sin(t))


def problem(s):
    """s = dict(kind=...), scaled by time unit s['u']"""
    k, u = s['kind'], s.get('u', 1.)
    f = s.get('force', 0.)
    tb = s.get('tb', 60.)/u

    def g(n):
        if not f:
            return lambda t: u*np.ones(n)
        return lambda t: u*(np.ones(n) + f*sq(s.get('w', 3.)*u*t))
    ev = dict(real=(-60., -1.), real3=(-80., -3., -.5), tworeal=(-60., -55., -1.), pair=(-60. + 20j,), pair3=(-50. + 30j, -1.),
              axis=(-1. + 60j, -.5), mild=(-1. + 1.5j, -.4), unstable=(.02, -.6, -.01), slow=(-.3, -.1),
              three=(-40., -20. + 34.64j), six=(-40., -20. + 34.64j, 39., -10 + 38.7j), near2=(-5., 4.9), osc=(-.02 + 1j,)).get(k)
    if ev:
        A = u*block(*ev)
        n = len(A)
        p = lin(A, np.linspace(1., 2., n), tb, g(n))
    elif k == 'vdpol':
        p = dict(name=k, fun=lambda t, y: u*np.array([y[1], 30*(1 - y[0]**2)*y[1] - y[0]]), so=False,
                 jac=lambda t, y: u*np.array([[0, 1.], [-60*y[0]*y[1] - 1, 30*(1 - y[0]**2)]]), y0=np.array([2., 0.]), t0=0., tb=tb, vel=None)
    elif k == 'cubic':
        p = dict(name=k, fun=lambda t, y: u*np.array([-50*(y[0]**3 - 1 - .3*math.sin(u*t)), -y[1] + y[0]]), so=False,
                 jac=lambda t, y: u*np.array([[-150*y[0]**2, 0], [1, -1.]]), y0=np.array([1.2, 0.5]), t0=0., tb=tb, vel=None)
    elif k == 'origin':
        p = dict(name=k, fun=lambda t, y: 0*y, jac=lambda t, y: np.zeros((2, 2)), y0=np.zeros(2), t0=0., tb=tb, so=False, vel=None)
    elif k == 'scalar':
        p = lin([[-70.*u]], [2.], tb, lambda t: u*np.array([70.*math.cos(u*t)]))
    elif k == 'cscalar':
        z = s.get('z', -60. + 25j)*u
        p = dict(name=k, fun=lambda t, y: z*(y - np.exp(1j*u*t)) + 1j*u*np.exp(1j*u*t), jac=lambda t, y: np.array([[z]]), y0=np.array([1.1 + 0j]), t0=0., tb=tb,
                 so=False, vel=None)
    else:   # second order x'' = -c v - k x + forcing
        c, q = dict(so_real=(60., 20.), so_mid=(8., 40.), so_osc=(0., 900.), so_slow=(.1, 1.), so_stiffosc=(5., 2500.), so_pairre=(60., 925.))[k]
        A = np.array([[0, 1.], [-q*u*u, -c*u]])
        p = lin(A, [1., 0.3*u], tb, lambda t: np.array([0., u*u*(1. + (f*sq(s.get('w', 3.)*u*t) if f else math.sin(u*t)))]), so=True)
    if s.get('back'):
        fun, jac, y0, tb = p['fun'], p['jac'], p['y0'].copy(), p['tb']
        if p['so']:
            n = y0.size//2
            y0[n:] *= -1
            a = fun

            def fb(t, y):
                z = y.copy()
                z[n:] *= -1
                r = -a(-t, z)
                r[n:] *= -1
                return r
            Sg = np.diag([1.]*n + [-1.]*n)
            p = dict(p, fun=fb, jac=lambda t, y: -Sg @ jac(-t, Sg @ y) @ Sg, y0=y0, tb=-tb)
        else:
            p = dict(p, fun=lambda t, y: -fun(-t, y), jac=lambda t, y: -jac(-t, y), tb=-tb)
    if s.get('cplx') and not np.iscomplexobj(p['y0']):
        f1 = p['fun']
        p = dict(p, fun=lambda t, y: np.asarray(f1(t, y)).astype(complex), y0=p['y0'].astype(complex))
    return p


REALSTIFF = ['real', 'real3', 'scalar', 'tworeal', 'pair', 'cubic', 'pair3', 'cscalar']
NONSTIFF = ['osc', 'near2', 'so_slow']      # steps are never limited by stability
EXACT = ['real', 'real3', 'tworeal', 'pair', 'pair3', 'axis', 'mild', 'unstable', 'slow', 'three', 'osc', 'scalar', 'cscalar', 'cubic', 'so_real',
         'so_mid', 'so_osc', 'so_slow', 'so_stiffosc']


def tri(v, m):
    return 2 if abs(v) < m or v != v else int(v > 0)


def li(x, r=1e-3):
    return [LGf(x*(1 - r)), LGc(x*(1 + r))] if x > 0 and np.isfinite(x) else [-LMAX, -LMAX] if x == 0 else [-LMAX, LMAX]


def quad(a, b):
    d = a*a/4 - b
    if d >= 0:
        q = math.sqrt(d)
        r = (-a/2 - q, -a/2 + q)
        r = sorted(r, key=abs, reverse=True)
        if r[0] != 0:
            r[1] = b/r[0]
        return complex(r[0]), complex(r[1]), d
    return complex(-a/2, math.sqrt(-d)), complex(-a/2, -math.sqrt(-d)), d


def proots(P, q):
    """second roots of the quadratic fits to four iterates; q: normal equations or least squares"""
    out = []
    for i in (0, 1):
        a, b, c = P[i], P[i + 1], P[i + 2]
        if q:
            s = np.linalg.lstsq(np.stack((b/np.linalg.norm(b), a/np.linalg.norm(a)), 1), -c, rcond=None)[0]
            al, be = s[0]/np.linalg.norm(b), s[1]/np.linalg.norm(a)
        else:
            d = (a @ a)*(b @ b) - (a @ b)**2
            al = (-(a @ a)*(b @ c) + (a @ b)*(a @ c))/d
            be = ((a @ b)*(b @ c) - (b @ b)*(a @ c))/d
        out.append((al, be))
    (a1, b1), (a2, b2) = out
    R = P[3] + a2*P[2] + b2*P[1]
    r1, r2, _ = quad(a1, b1)
    s1, s2, d = quad(a2, b2)
    rho = abs(s1)
    dist = min(abs(s1 - r1), abs(s1 - r2), *( [abs(s1 - r1.conjugate()), abs(s1 - r2.conjugate())] if 0 else []))
    return (R @ R)/(P[3] @ P[3])/1e-6, dist/rho/1e-3, s1, s2, d/max(a2*a2, abs(b2), 1e-300)


def rootrec(s1, s2, isreal):
    rho, r2 = abs(s1), abs(s2)
    return dict(left=tri(-s1.real, 1e-4*rho) if s1.real else 1, near2=2 if abs(r2 - .9*rho) < 1e-3*rho or (r2 >= .9*rho and abs(s2.real) < 1e-4*rho)
                else int(r2 >= .9*rho and s2.real > 0), ax=li(abs(s1.imag)/abs(s1.real)) if s1.real else [LMAX, LMAX], rho=li(rho), re=li(abs(s1.real)),
                im=li(abs(s1.imag)), isreal=isreal)


NOROOT = rootrec(0j, 0j, 2)


def job(s):
    m = s['method']
    if 'kind' in s:
        p, o = problem(s), dict(s['opts'])
        exact = s['kind'] in EXACT
    else:
        p, o = scen.build(s)
        exact = False
    nd = s['nd']
    ms = s.get('max_steps', 150)
    a = rec.run(m, p, dict(o, nfev_stiff_detect=nd), max_steps=ms)
    b = rec.run(m, p, dict(o, nfev_stiff_detect=0), max_steps=ms)
    if a.init_exc is not None or b.init_exc is not None or a.trunc or b.trunc:
        return None
    g = GOLD[m]
    rkn = m in RKN
    M = max(1, nd//g['n_stages']) if nd and m in WITH else 0
    lim = [0.]*3
    if rkn:
        lim = [0., .85*g['stbre'], .9*g['stbim']]
    elif m in WITH:
        lim[0] = .9*g['stbrad']
    cx = np.iscomplexobj(a.y0)
    cfg = dict(name=m, M=M, rkn=rkn, lb=LG(lim[0]), lbr=LG(lim[1]), lbi=LG(lim[2]), tan=LG(float(g.get('tanang', 1.))), five=LG(5.), cplx=bool(cx))
    ev = []
    havg, ok = 0., 0
    warned = False
    n = len(a.steps)
    for i, (x, z) in enumerate(zip(a.steps, b.steps)):
        if x.exc or z.exc:
            break
        e = dict(k='step', st=i, rej=z.nfs, same=bool(x.t1 == z.t1 and np.array_equal(x.y1, z.y1, equal_nan=True) and x.status == z.status
                                                      and x.nfs == z.nfs), x=0, xt=True, said='none', rt=[0, 0], cost=[0, 0], zero=False, v=-200,
                 it=[], rr=NOROOT, rp=NOROOT, tru=False, known=False)
        if x.status == 'failed':
            break
        nx = len(x.calls) - len(z.calls)
        e['x'] = nx
        X = x.calls[len(x.calls) - nx:] if nx > 0 else []
        if X:
            e['xt'] = all(c.t == x.t1 for c in X)
        for w in x.warns:
            for key, v in SAID:
                if key in w:
                    e['said'] = v
                    break
        warned |= e['said'] in ('real', 'pair')
        h = x.t1 - x.t
        ok += 1
        havg = .9*havg + .1*h
        if ok == 20:
            havg = h
        e['rt'] = li(abs(h/havg))
        e['cost'] = li(g['n_stages']*abs((p['tb'] - x.t1)/havg)/nd) if nd else [0, 0]
        y = x.y1
        wt = np.maximum(.5*(np.abs(y) + np.abs(x.y)), math.sqrt(TINY))
        E = (lambda v: np.concatenate((v.real, v.imag))) if cx else (lambda v: v)
        ye = E(y)
        if cx:
            wt = np.concatenate((wt, wt))
        e['zero'] = bool(not np.any(y))
        if X and e['same'] and nx <= 24:
            with np.errstate(all='ignore'):
                follow(e, X, E, ye, wt, havg, np.asarray(a.rec.raw(x.t1, y.copy())).reshape(-1))
            if e['said'] in ('real', 'pair') and exact:
                L = np.linalg.eigvals(havg*np.asarray(p['jac'](x.t1, y)))
                L = L[L.real <= 0]
                if rkn:
                    e['tru'] = not np.any((np.abs(L.real) > .5*lim[1]) | (np.abs(L.imag) > .5*lim[2]))
                else:
                    e['tru'] = not np.any(np.abs(L) > .7*lim[0])
        ev.append(e)
        if not e['same'] or abs(h) < 1e3*np.spacing(max(abs(x.t), abs(x.t1))):
            break
    done = len(ev) == n and n == len(b.steps)
    if done and s.get('need'):
        ev.append(dict(k='need', warned=bool(warned)))
    if s.get('kind') in NONSTIFF:
        ev.append(dict(k='free', warned=bool(warned)))
    if len(a.steps) != len(b.steps):
        ev.append(dict(k='step', st=n, rej=0, same=False, x=0, xt=True, said='none', rt=[0, 0], cost=[0, 0], zero=False, v=-200, it=[], rr=NOROOT, rp=NOROOT,
                       tru=False, known=False))
    return dict(cfg=cfg, ev=ev)


def follow(e, X, E, y, wt, havg, fy):
    """the decision after each product; the first vector is known to rounding only: it is varied, and where decisions
    differ they are left open"""
    fy = E(fy)
    yn = y/wt
    scale = math.sqrt(yn @ yn)*math.sqrt(EN)
    if scale == 0 or not np.isfinite(scale):
        return
    v0 = (E(X[0].y.reshape(-1)) - y)/wt
    n0 = math.sqrt(v0 @ v0)
    # rounding of the argument
    sp = np.spacing(np.abs(y) + np.abs(v0*wt))/wt
    un = math.sqrt(float(np.sum(sp**2)))/scale
    if wt.min() > 1e-140:
        e['v'] = dev2(max(0., abs(n0/scale - 1) - un))
    rs = np.random.RandomState(len(X))
    var = [v0] + [v0 + rs.choice([-.5, .5], v0.size)*sp for _ in range(4)]
    res = []
    for v in var:
        fv = fy if v is v0 else fy + rs.choice([-1., 1.], fy.size)*np.spacing(np.abs(fy))
        it, rr, rp, known = [], NOROOT, NOROOT, True
        V = [v/math.sqrt(v @ v)]
        rold = 0.
        for n, c in enumerate(X, 1):
            pos = (n - 1) % 3
            arg = (E(c.y.reshape(-1)) - y)/wt
            d = -200
            if n > 1:
                q = V[-1]/np.linalg.norm(V[-1])
                d = dev2(max(0., np.linalg.norm(arg/scale - q) - un))
                if pos == 0:
                    V = [q]
            va = V[-1]
            z = havg*np.linalg.norm(va)/scale*((E(np.asarray(c.f).reshape(-1)) - fv)/wt)
            V.append(z)
            aa, ab, bb = va @ va, va @ z, z @ z
            t = dict(real=0, pair=0, small=0, large=0, d=d)
            it.append(t)
            if not all(np.isfinite((aa, ab, bb))) or aa == 0:
                known = False
                break
            if pos == 0:
                t['large'] = tri(math.sqrt(bb)/math.sqrt(aa)/1e10 - 1, 1e-3)
            r = ab/aa
            if n == 1:
                t['small'] = tri(1 - abs(r)/EN**(1/3), 1e-3)
            else:
                w = z - r*va
                rel = (w @ w)/bb/1e-6 if bb else 0.
                dr = abs(r - rold)/abs(r)/1e-3 if r else (0. if rold == r else 2.)
                if bb == 0 or rel < 1e-8:
                    t['real'] = 2 if dr > 1 - 1e-3 else 1        # the determinant may vanish
                elif rel < 1 - 1e-3 and dr < 1 - 1e-3:
                    t['real'] = 1
                elif rel < 1 + 1e-3 and dr < 1 + 1e-3:
                    t['real'] = 2
                rr = rootrec(complex(r, 0.), 0j, 1)
            rold = r
            if pos == 2:
                try:
                    A, B = proots(V, 0), proots(V, 1)
                except (np.linalg.LinAlgError, ZeroDivisionError, ValueError, OverflowError):
                    known = False
                    break
                if not all(np.isfinite(A[:3])) or not all(np.isfinite(B[:3])):
                    known = False
                    break
                agree = abs(A[2] - B[2]) <= 1e-4*abs(B[2]) and abs(A[3] - B[3]) <= 1e-3*abs(B[2])
                q = [max(A[0], A[1]), max(B[0], B[1])]
                t['pair'] = 1 if max(q) < .2 and agree else 0 if min(q) > 5 else 2
                if t['pair'] == 2 and not agree:
                    known = False
                    break
                rp = rootrec(B[2], B[3], 2 if abs(B[4]) < 1e-6 else int(B[4] > 0))
        res.append((it, rr, rp, known))
        if not known:
            break
    e['known'] = all(r[3] for r in res)
    it = e['it'] = res[0][0]
    if not e['known']:
        return
    for other in res[1:]:
        for a, b in zip(it, other[0]):
            for k in ('real', 'pair', 'small', 'large'):
                if a[k] != b[k]:
                    a[k] = 2
            a['d'] = min(a['d'], b['d'])
    e['rr'], e['rp'] = (join([r[k] for r in res]) for k in (1, 2))


def join(R):
    o = dict(R[0])
    for r in R[1:]:
        for k in ('left', 'near2', 'isreal'):
            if r[k] != o[k]:
                o[k] = 2
        for k in ('ax', 'rho', 're', 'im'):
            o[k] = [min(o[k][0], r[k][0]), max(o[k][1], r[k][1])]
    return o
