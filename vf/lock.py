"""Paired runs: a scenario and its transformed twin, projected onto the events of Lockstep.tla."""
import numpy as np
from . import rec, scen, problems
from .base import dev2


def ident(x):
    return x


class Twin:
    """transformed problem, options and the maps back to the original time and state"""
    def __init__(self, p, o, tm=ident, ym=ident, dense=None, method=None):
        self.p, self.o, self.tm, self.ym, self.dense, self.method = p, o, tm, ym, dense, method


EXACT = dict(tt=-30, ty=-24, td=-20, cn=True, cj=True, cl=True, cr=True)
ROUND = dict(tt=-14, ty=-9, td=-8, cn=True, cj=True, cl=True, cr=True)
LOOSE = dict(tt=-9, ty=-4, td=-4, cn=False, cj=False, cl=False, cr=False)


def pair(method, p, o, twin, tag, lim, dense=None, max_steps=60, keep_dense=True, th=(.2, .55, .9), pre=None):
    kw = dict(max_steps=max_steps, keep_dense=keep_dense)
    a = rec.run(method, p, o, dense=dense, **kw)
    if pre:
        pre()
    b = rec.run(twin.method or method, twin.p, twin.o, dense=twin.dense or dense, **kw)
    return compare(a, b, twin, tag, lim, th)


def compare(a, b, tw, tag, lim, th=(.2, .55, .9)):
    ev = []
    cfg = dict(lim, tag=tag, name=a.method)
    ev.append(dict(k='init', dx=type(a.init_exc) is not type(b.init_exc),
                   dn=len(a.init_calls) - len(b.init_calls) if lim['cn'] else 0))
    if a.init_exc is not None or b.init_exc is not None:
        return dict(cfg=cfg, ev=ev)
    if a.hang or b.hang or a.trunc or b.trunc:
        ev.append(dict(k='exc') if a.trunc != b.trunc else dict(k='hang'))
        return dict(cfg=cfg, ev=ev)
    rtol = max(a.opts.get('rtol', 1e-3), 2.3e-15)
    atol = np.maximum(np.asarray(a.opts.get('atol', 1e-6), float), 1e-150)
    for s, q in zip(a.steps, b.steps):
        if s.exc or q.exc:
            if bool(s.exc) != bool(q.exc):
                ev.append(dict(k='exc'))
            break
        h = abs(s.t1 - s.t) or 1.
        sc = atol + rtol*np.maximum(np.abs(s.y1), np.abs(s.y))
        with np.errstate(all='ignore'):
            yb = tw.ym(q.y1)
            same = np.array_equal(s.y1, yb, equal_nan=True)
            dlt = s.t1 - tw.tm(q.t1)
            if dlt and not same:            # compare the solutions at the same time
                yb = yb + dlt*np.asarray(a.p.get('dydt', a.p['fun'])(s.t1, s.y1))
            dy = -200 if same else dev2(np.max(np.abs(s.y1 - yb)/sc))
            dt = -200 if s.t1 == tw.tm(q.t1) else dev2(abs(s.t1 - tw.tm(q.t1))/h)
            dd = -200
            if s.sol and q.sol:
                for x in th:
                    xb = q.t + x*(q.t1 - q.t)
                    u = s.sol[0](tw.tm(xb))
                    v = tw.ym(q.sol[0](xb))
                    if not np.array_equal(u, v, equal_nan=True):
                        dd = max(dd, dev2(np.max(np.abs(u - v)/sc)))
        ev.append(dict(k='step', ds=s.status != q.status or bool(s.msg) != bool(q.msg), dt=dt, dy=dy, dd=dd,
                       dn=s.nfev - q.nfev + (len(s.calls) - len(q.calls)), dj=s.njev - q.njev, dl=s.nlu - q.nlu,
                       dr=s.nfs - q.nfs, rej=bool(s.nfs), fail=s.status == 'failed'))
    ev.append(dict(k='end', extra=len(a.steps) != len(b.steps),
                   dm=(len([w for w in a.warns if 'stiff' in w]) > 0) != (len([w for w in b.warns if 'stiff' in w]) > 0)))
    return dict(cfg=cfg, ev=ev)


# --- transformations ---------------------------------------------------------------------------
def neg_v(p):
    n = p['y0'].size//2

    def f(y):
        y = np.array(y)
        y[n:] = -y[n:]
        return y
    return f if p['so'] else ident


def mirror(s):
    """scenario -> base problem and its mirror image"""
    p, o = scen.build(s)
    s2 = dict(s, mirror=not s.get('mirror', False), shift=-s.get('shift', 0.))
    p2, o2 = scen.build(s2)
    if isinstance(o.get('jac'), np.ndarray):
        o2['jac'] = -o['jac']
    return p, o, Twin(p2, o2, lambda t: -t, neg_v(p))


def form(s, f):
    p, o = scen.build(dict(s, form=None))
    p2, o2 = scen.build(dict(s, form=f))
    return p, o, Twin(p2, o2)


def complexify(s, phase=1.):
    p, o = scen.build(dict(s, cplx=False))
    if not hasattr(phase, 'imag') or phase == 1.:
        p2, o2 = scen.build(dict(s, cplx=True))
        return p, o, Twin(p2, o2)
    p, o = scen.build(dict(s, cplx=True))
    p2 = dict(p)
    f, j = p['fun'], p['jac']
    n = p['y0'].size//2 if p['so'] else 0

    def g(t, y):
        r = phase*f(t, y/phase)
        r[:n] = y[n:] if n else r[:n]
        return r
    p2['fun'] = g
    p2['y0'] = p['y0']*phase
    o2 = dict(o)
    if callable(o.get('jac')):
        o2['jac'] = lambda t, y: j(t, y/phase)
    return p, o, Twin(p2, o2, ym=lambda y: y/phase)


def atol_vector(s):
    p, o = scen.build(s)
    a = o.get('atol', 1e-6)
    if np.ndim(a):
        a = 1e-5
        o['atol'] = a
    return p, o, Twin(dict(p), dict(o, atol=np.full(p['y0'].size, a)))


def units(s, k):
    """state in units 2^-k"""
    c = 2.**k
    p, o = scen.build(s)
    f, j = p['fun'], p['jac']
    p2 = dict(p, fun=lambda t, y: c*np.asarray(f(t, y/c)), y0=p['y0']*c)
    o2 = dict(o, atol=np.asarray(o.get('atol', 1e-6))*c if np.ndim(o.get('atol', 1e-6)) else o.get('atol', 1e-6)*c)
    if callable(o.get('jac')):
        j = o['jac']
        o2['jac'] = lambda t, y: j(t, y/c)
    if o.get('rho_jac'):
        rj = o['rho_jac']
        o2['rho_jac'] = lambda t, y: rj(t, y/c)
    return p, o, Twin(p2, o2, ym=lambda y: y/c)


def time_units(s, k):
    """time in units 2^-k: tau = c t"""
    c = 2.**k
    p, o = scen.build(s)
    f = p['fun']
    o2 = dict(o)
    p2 = dict(p, t0=p['t0']*c, tb=p['tb']*c)
    for q in ('first_step', 'max_step'):
        if q in o:
            o2[q] = o[q]*c
    if p['so']:
        n = p['y0'].size//2
        sc = np.concatenate((np.ones(n), np.full(n, c)))

        def g(t, y):
            r = np.asarray(f(t/c, y*sc))/c/sc
            r[:n] = y[n:]
            return r
        p2['fun'] = g
        p2['y0'] = p['y0']/sc
        o2['atol'] = o.get('atol', 1e-6)/sc

        def ym(y):
            return y*sc
    else:
        p2['fun'] = lambda t, y: np.asarray(f(t/c, y))/c
        ym = ident
    if callable(o.get('jac')):
        j = o['jac']
        o2['jac'] = lambda t, y: j(t/c, y)/c
    elif isinstance(o.get('jac'), np.ndarray):
        o2['jac'] = o['jac']/c
    if o.get('rho_jac'):
        rj = o['rho_jac']
        o2['rho_jac'] = lambda t, y: rj(t/c, y)/c
    return p, o, Twin(p2, o2, lambda t: t/c, ym)


def permute(s, seed=0):
    p, o = scen.build(s)
    n = p['y0'].size
    g = np.random.RandomState(seed)
    if p['so']:
        q = g.permutation(n//2)
        if n//2 > 1 and np.array_equal(q, np.arange(n//2)):
            q = q[::-1]
        P = np.concatenate((q, q + n//2))
    else:
        P = g.permutation(n)
        if n > 1 and np.array_equal(P, np.arange(n)):
            P = P[::-1]
    inv = np.argsort(P)
    f = p['fun']
    p2 = dict(p, fun=lambda t, y: np.asarray(f(t, y[inv]))[P], y0=p['y0'][P])
    o2 = dict(o)
    if np.ndim(o.get('atol', 1e-6)):
        o2['atol'] = o['atol'][P]
    if callable(o.get('jac')):
        j = o['jac']
        o2['jac'] = lambda t, y: j(t, y[inv])[np.ix_(P, P)]
    elif isinstance(o.get('jac'), np.ndarray):
        o2['jac'] = o['jac'][np.ix_(P, P)]
    if o.get('rho_jac'):
        rj = o['rho_jac']
        o2['rho_jac'] = lambda t, y: rj(t, y[inv])
    return p, o, Twin(p2, o2, ym=lambda y: y[inv])
