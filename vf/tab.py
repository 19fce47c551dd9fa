"""Projection of recorded runs of the explicit embedded Runge-Kutta(-Nystrom) methods onto the events of the
specifications: one event per attempted step.  All coefficients come from golden.json (reference tableaux)."""
import json, os, math
import numpy as np
from .base import LG, LGf, LGc, LMAX, INF, U, dev2, ulps, cint

_here = os.path.dirname(os.path.abspath(__file__))
GOLD = json.load(open(os.path.join(_here, 'golden.json')))
for _g in GOLD.values():
    for _k, _v in _g.items():
        if isinstance(_v, list) and _k != 'sc_params':
            _g[_k] = np.array(_v, float)

EPS = np.finfo(float).eps
TINY = np.finfo(float).tiny

SC_RK = {"G": (70, -40, 0, .9), "S": (60, -20, 0, .9), "standard": (100, 0, 0, .9)}
SC_ES = {"G": (200, -100, -100, .8), "S": (110, -70, -100, .8), "standard": (100, 0, 0, .8)}


def sc_of(method, opt, fam):
    g = GOLD[method]
    sc = opt.get('sc_params') or g['sc_params']
    if method == 'BS5':
        sc = opt.get('sc_params', 'standard') or 'standard'
    if isinstance(sc, str):
        return (SC_RK if fam == 'rk' else SC_ES)[sc]
    return tuple(int(round(100*v)) for v in sc[:3]) + (sc[3],)


def cdiff(C):
    c = 1.
    for a in C:
        for b in C:
            if abs(a - b):
                c = min(c, abs(a - b))
    return max(c, 1e-3)


def scale_of(atol, rtol, y, yn):
    return atol + rtol*np.maximum(np.abs(y), np.abs(yn))


def rms(x):
    x = np.abs(x)
    m = x.max() if x.size else 0.
    if not np.isfinite(m):
        return m
    if m == 0:
        return 0.
    return m*math.sqrt(float(np.sum((x/m)**2))/x.size)


def err_iv(e, de, sc, dsc=None):
    """interval of the weighted norm of e +- de"""
    with np.errstate(all='ignore'):
        if not np.all(np.isfinite(e)) or not np.all(np.isfinite(sc)):
            v = rms(e/sc)
            if v == v and np.isfinite(v):
                return v, v, False
            return 0., 0., True
        lo = rms(np.maximum(np.abs(e) - de, 0)/sc)*(1 - 1e-12)
        hi = rms((np.abs(e) + de)/sc)*(1 + 1e-12)
        if not np.isfinite(hi):
            return 0., 0., True
    return lo, hi, False


class Tab:
    """reference formulas of one method"""

    def __init__(self, method, opts, n):
        g = GOLD[method]
        self.m, self.g, self.n = method, g, n
        self.A, self.B, self.C, self.E = g['A'], g['B'], g['C'], g['E']
        self.s = g['n_stages']
        self.ny = 'Bp' in g
        if self.ny:
            self.Ap = g.get('Ap', np.zeros_like(self.A))
            self.Bp, self.Ep = g['Bp'], g['Ep']
            if method == 'Mu5Nmb' and opts.get('scale_embedded', True):
                self.E, self.Ep = self.E*.75, self.Ep*.75
            self.fsal = self.E[-1] != 0 or self.Ep[-1] != 0
        else:
            self.fsal = self.E[-1] != 0
        self.pre = {'BS5': (6, g.get('B_scale_pre'), g.get('E_pre')),
                    'CFMR7osc': (8, self.A[8, :8] if method == 'CFMR7osc' else None, self.E[:8])}.get(method)
        self.nodes = list(self.C[1:]) + ([1.] if self.fsal else [])

    def comb(self, h, y, K, a, ap, c):
        """-> value, magnitude (for rounding) of y + step combination"""
        m = len(a)
        with np.errstate(all='ignore'):
            if not self.ny:
                d = h*(K[:m].T @ a)
                mag = np.abs(y) + abs(h)*(np.abs(K[:m]).T @ np.abs(a))
                return y + d, mag
            n = y.size//2
            u = (K[:m].T @ a)*h**2 + c*h*y[n:]
            v = (K[:m].T @ ap)*h
            mag = np.abs(y) + np.concatenate(((np.abs(K[:m]).T @ np.abs(a))*h**2 + abs(c*h)*np.abs(y[n:]),
                                              (np.abs(K[:m]).T @ np.abs(ap))*abs(h)))
            return y + np.concatenate((u, v)), mag

    def stage(self, h, y, K, i):
        return self.comb(h, y, K, self.A[i, :i], self.Ap[i, :i] if self.ny else None, self.C[i])

    def ynew(self, h, y, K):
        return self.comb(h, y, K, self.B, self.Bp if self.ny else None, 1.)

    def error(self, h, y, K, m, E, Ep=None, hrel=0.):
        """error vector and its uncertainty from the first m stage values"""
        with np.errstate(all='ignore'):
            if not self.ny:
                e = h*(K[:m].T @ E[:m])
                mag = abs(h)*(np.abs(K[:m]).T @ np.abs(E[:m]))
            else:
                e = np.concatenate(((K[:m].T @ E[:m])*h**2, (K[:m].T @ Ep[:m])*h))
                mag = np.concatenate(((np.abs(K[:m]).T @ np.abs(E[:m]))*h**2,
                                      (np.abs(K[:m]).T @ np.abs(Ep[:m]))*abs(h)))
            return e, 24*EPS*mag + 2*hrel*np.abs(e)


class Parser:
    """split the recorded right-hand side calls of one step into attempts"""

    def __init__(self, tab, t, direction, tb):
        self.tab, self.t, self.dir, self.tb = tab, t, direction, tb

    def match(self, calls, nodes):
        """do the first len(nodes) calls follow t + c*h for one h?  -> h or None"""
        if len(calls) < len(nodes) or not nodes:
            return None
        j = int(np.argmax(nodes))
        h = (calls[j].t - self.t)/nodes[j]
        if h*self.dir <= 0 or not np.isfinite(h):
            return None
        d = self.tb - self.t
        # an attempt ending at t_bound has exactly this length
        if abs(h - d) <= 4*np.spacing(max(abs(self.t), abs(self.tb))):
            h = d
        tol = 6*np.spacing(max(abs(self.t), abs(self.t + h))) + 1e-13*abs(h)
        for c, x in zip(calls, nodes):
            if abs(c.t - (self.t + x*h)) > tol:
                return None
        return h


def hrel(t, h, cmax=1.):
    """relative uncertainty of a step size reconstructed from times"""
    return 2*np.spacing(max(abs(t), abs(t + h)))/abs(h)/cmax + 4*EPS


def iv(lo, hi):
    return [LGf(lo), LGc(hi)]


def project(r, pure=True):
    """-> trace {cfg, ev} for StepControl.tla"""
    m, p, o = r.method, r.p, r.opts
    g = GOLD[m]
    n = r.y0.size
    tab = Tab(m, o, n)
    rtol = min(max(o.get('rtol', 1e-3), 10*np.finfo(float).epsneg), .1)
    atol = np.maximum(np.asarray(o.get('atol', 1e-6), float), math.sqrt(TINY))
    q = min(g['order'], g['order_secondary'])
    k1, k2, al, sf = sc_of(m, o, 'rk')
    ms = o.get('max_step', np.inf)
    fs = o.get('first_step')
    d0 = abs(p['tb'] - p['t0'])
    cfg = dict(fam='rk', q1=q + 1, k1=k1, k2=k2, al=al, sf=LG(sf), mx=LG(10), tiny=LG(math.sqrt(TINY)),
               mxs=LG(ms) if np.isfinite(ms) else INF, h0=LG(fs) if fs else INF,
               name=m, pre=bool(tab.pre), fsal=bool(tab.fsal))
    ha = 10*np.finfo(float).epsneg/cdiff(tab.C)
    hb = math.sqrt(TINY)
    ev = []
    nv = n//2 if tab.ny else 0
    half = (lambda f: np.asarray(f).reshape(-1)[nv:]) if tab.ny else (lambda f: np.asarray(f).reshape(-1))
    dt = r.y0.dtype
    fend = None              # right-hand side value at the current point
    for c in r.init_calls:
        if c.k == 'fun' and c.t == p['t0'] and np.array_equal(c.y, r.y0) and fend is None:
            fend = c.f
    hprev = None
    for si, st in enumerate(r.steps):
        t, y = st.t, st.y
        d = p['tb'] - t
        calls = [c for c in st.calls if c.k == 'fun']
        ps = Parser(tab, t, r.direction, p['tb'])
        pos = 0
        att = []              # (h, K, kind)
        bad = None
        full = tab.nodes
        prec = tab.nodes[:tab.pre[0] - 1] if tab.pre else None
        ok = st.status != 'failed'
        stop = len(calls)
        while pos < stop:
            rest = calls[pos:]
            h = ps.match(rest, full)
            if h is not None:
                att.append((h, pos, len(full), 'full'))
                pos += len(full)
                # was this the accepted one?  then only end point / stiffness calls may follow
                if ok and abs(t + h - st.t1) <= 2*np.spacing(max(abs(t), abs(st.t1))) and \
                        (pos == stop or all(c.t == st.t1 or abs(c.t - st.t1) <= 2*np.spacing(abs(st.t1))
                                            for c in calls[pos:])):
                    break
                continue
            if prec is not None:
                h = ps.match(rest, prec)
                if h is not None:
                    att.append((h, pos, len(prec), 'pre'))
                    pos += len(prec)
                    continue
            bad = 'schedule'
            break
        extra = calls[pos:] if bad is None else []
        # ---- K0
        k0dev = -200
        if fend is None or bad == 'nofend':
            bad = bad or 'nofend'
        if pure and fend is not None:
            with np.errstate(all='ignore'):
                ft = np.asarray(r.rec.raw(t, y.copy())).reshape(-1)
                a, b = half(ft), half(fend)
                if m == 'Fi5N' and o.get('interpolant') == 1:
                    pass
                elif np.all(np.isfinite(a)) or np.all(np.isfinite(b)):
                    k0dev = dev2(rms(np.abs(a - b)/(EPS*(np.abs(a) + np.abs(b)) + 1e-300)))
                    if np.array_equal(a, b):
                        k0dev = -200
        base = dict(k='a', d=LG(abs(d)), st=si)
        for ai, (h, c0, nc, kind) in enumerate(att):
            last = ai == len(att) - 1
            cs = calls[c0:c0 + nc]
            K = np.zeros((tab.s + 1, nv or n), dt)
            if fend is not None:
                K[0] = half(fend)
            dev = -200
            hr = hrel(t, h)
            for i, c in enumerate(cs, start=1):
                if i < tab.s:
                    ye, mag = tab.stage(h, y, K, i)
                else:
                    ye, mag = tab.ynew(h, y, K)
                with np.errstate(all='ignore'):
                    if np.all(np.isfinite(ye)):
                        dd = np.abs(c.y.reshape(-1) - ye)/(EPS*mag + 2*hr*np.abs(ye - y) + 1e-300)
                        if np.all(np.isfinite(c.y)):
                            dev = max(dev, dev2(dd.max()) if dd.size else -200)
                        else:
                            dev = 200
                K[i] = half(c.f)
            acc = ok and last
            e = dict(base, first=ai == 0, kind=kind, h=iv(abs(h)*(1 - hr), abs(h)*(1 + hr)), dev=dev,
                     k0=k0dev if ai == 0 else -200, out='acc' if acc else 'rej')
            mlo = max(ha*abs(t), hb)
            mhi = max(ha*(abs(t) + 32*abs(h)), hb)
            e['mn'] = [LGf(mlo*(1 - 1e-6)), LGc(mhi*(1 + 1e-6))]
            # preliminary estimate
            e['pre'] = [-LMAX, -LMAX]
            e['prenan'] = False
            if tab.pre:
                s_, b_, e_ = tab.pre
                yp, _ = tab.comb(h, y, K, b_, None, 1.)
                ev_, de = tab.error(h, y, K, s_, e_, None, hr)
                lo, hi, nan = err_iv(ev_, de, scale_of(atol, rtol, y, yp))
                e['pre'] = iv(lo, hi)
                e['prenan'] = bool(nan)
            e['yd'] = -200
            if kind == 'full':
                if acc:
                    yn, mag = tab.ynew(h, y, K)
                    with np.errstate(all='ignore'):
                        dd = np.abs(st.y1 - yn)/(EPS*mag + 2*hr*np.abs(yn - y) + 1e-300)
                        e['yd'] = dev2(dd.max()) if dd.size else -200
                    yn = st.y1
                elif tab.fsal:
                    yn = cs[-1].y.reshape(-1)
                else:
                    yn, _ = tab.ynew(h, y, K)
                mm = tab.s + (1 if tab.fsal else 0)
                ev_, de = tab.error(h, y, K, mm, tab.E, tab.Ep if tab.ny else None, hr)
                lo, hi, nan = err_iv(ev_, de, scale_of(atol, rtol, y, yn))
                e['e'] = iv(lo, hi)
                e['nan'] = bool(nan)
            else:
                e['e'] = [-LMAX, -LMAX]
                e['nan'] = False
            if acc:
                e['hr'] = [0, 0] if hprev is None else [e['h'][0] - hprev[1], e['h'][1] - hprev[0]]
                # end point evaluation
                ncall = 1
                if tab.fsal:
                    fend = cs[-1].f
                    ncall = 0
                elif extra and abs(extra[0].t - st.t1) <= 2*np.spacing(max(abs(t), abs(st.t1))) \
                        and np.array_equal(extra[0].y.reshape(-1), st.y1):
                    fend = extra[0].f
                else:
                    fend = None
                    e['yd'] = 200
                e['xtra'] = len(extra) - ncall
                hprev = e['h']
            else:
                e['hr'] = [0, 0]
                e['xtra'] = 0
            ev.append(e)
            if acc and fend is None and pure:
                fend = r.rec.raw(st.t1, st.y1.copy())
        if bad:
            ev.append(dict(k='bad', what=bad, st=si, d=0))
            if bad == 'schedule' and ok and pure:
                fend = r.rec.raw(st.t1, st.y1.copy())
                hprev = iv(abs(st.t1 - t), abs(st.t1 - t))
        if ok and not att and not bad:
            ev.append(dict(k='bad', what='noattempt', st=si, d=0))
        if not ok:
            hh = abs(att[-1][0]) if att else (abs(d))
            mlo = max(ha*abs(t), hb)
            mhi = max(ha*(abs(t) + 32*hh), hb)
            ev.append(dict(k='fail', d=LG(abs(d)), st=si, first=not att, small='spacing' in (st.msg or ''),
                           over='flow' in (st.msg or ''), msg=bool(st.msg),
                           mn=[LGf(mlo*(1 - 1e-6)), LGc(mhi*(1 + 1e-6))]))
    return dict(cfg=cfg, ev=ev)
