"""SWAG: projection of recorded runs onto the events of TraceSwag.tla.  The reference is the mathematics of Adams PECE
formulas in terms of the recorded history (Lagrange and Newton interpolation), not the recurrences of the code."""
import numpy as np
from .base import LG, INF, LMAX
from .tab import iv, hrel, rms, EPS, TINY
from . import rec

GSTR = [0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114, 0.00936, 0.00789, 0.00679, 0.00592, 0.00524, 0.00468]
GX, GW = np.polynomial.legendre.leggauss(9)
GX, GW = (GX + 1)/2, GW/2
SMALL = np.nextafter(np.finfo(float).epsneg, 1)
C1, C2 = 200., 16.


XS = np.concatenate((GX, [1.]))


def lagrange(s, x):
    """values at points x of the Lagrange basis polynomials of the first 1, 2, ... nodes of s"""
    L = np.ones((len(x), 1))
    yield L
    for k in range(1, len(s)):
        d = s[:k] - s[k]
        new = np.prod((x[:, None] - s[None, :k])/(-d), axis=1)
        L = np.hstack((L*((x[:, None] - s[k])/d), new[:, None]))
        yield L


def divided(ts):
    """weights w such that w @ f is the divided difference over the first 1, 2, ... of the points ts"""
    w = np.ones(1)
    yield w
    for k in range(1, len(ts)):
        d = ts[:k] - ts[k]
        w = np.append(w/d, 1/np.prod(-d))
        yield w


def project(r, pure=True):
    p, o = r.p, r.opts
    kmax = o.get('k_max', 12)
    rtol = min(max(o.get('rtol', 1e-3), 10*np.finfo(float).epsneg), .1)
    atol = np.maximum(np.asarray(o.get('atol', 1e-6), float), np.sqrt(TINY))
    ms, fs = o.get('max_step', np.inf), o.get('first_step')
    cfg = dict(name='SWAG', mxs=LG(ms) if np.isfinite(ms) else INF, h0=LG(fs) if fs else INF, kmax=kmax)
    f0 = next((np.asarray(c.f).reshape(-1) for c in r.init_calls if c.k == 'fun'), None)
    if f0 is None or r.y0.size == 0:
        return None
    T, F = [p['t0']], [f0]               # latest first
    ev = []
    for si, st in enumerate(r.steps):
        t, y = st.t, st.y
        d = abs(p['tb'] - t)
        calls = [c for c in st.calls if c.k == 'fun']
        ok = st.status != 'failed'
        mnv = max(4*SMALL*abs(t), np.sqrt(TINY))
        mn = iv(mnv*(1 - 1e-12), mnv*(1 + 1e-12))
        if ok and not calls and d <= 2*mnv:
            ev.append(dict(k='ext', st=si, d=LG(d), mn=mn, calls=0))
            break
        body = calls[:-1] if ok else calls
        if ok and not body:
            ev.append(dict(k='bad', st=si))
            break
        if any(abs(c.t - t) < 1e4*np.spacing(max(abs(t), abs(c.t))) for c in body):
            break
        k0 = True
        if pure:
            ft = np.asarray(r.rec.raw(t, y.copy())).reshape(-1)
            k0 = bool(np.array_equal(ft, F[0], equal_nan=True))
        for ai, c in enumerate(body):
            h = c.t - t
            if h*r.direction <= 0:
                ev.append(dict(k='bad', st=si))
                return dict(cfg=cfg, ev=ev)
            acc = ok and ai == len(body) - 1
            hr = hrel(t, h)
            pc, fp = c.y.reshape(-1), np.asarray(c.f).reshape(-1)
            m = min(len(T), kmax + 1)
            s = (np.array(T[:m]) - t)/h
            rho = C1*EPS + C2*np.spacing(max(abs(t), abs(c.t)))/abs(h)
            with np.errstate(all='ignore'):
                wt = atol + rtol*(np.abs(pc) + np.abs(y))/2
                fin = np.all(np.isfinite(fp)) and np.all(np.isfinite(pc))
                big = not np.all(np.abs(fp[np.isfinite(fp)]) < 1e140)
            if big:
                return dict(cfg=cfg, ev=ev)
            e = dict(k='a', st=si, first=ai == 0, h=iv(abs(h)*(1 - hr), abs(h)*(1 + hr)), d=LG(d), mn=mn, acc=acc, k0=k0 if ai == 0 else True,
                     nan=bool(np.any(np.isnan(fp))), inf=False, xtra=0, nfs=False)
            e['inf'] = bool(not fin and not e['nan'])
            Fm = np.array(F[:m])
            wide = [-LMAX, LMAX]
            ordr, yok, S, err, R = [], [], [wide]*(kmax + 2), [wide]*(kmax + 1), [wide]*(kmax + 1)
            fn = np.asarray(calls[-1].f).reshape(-1) if acc else None
            y1 = st.y1
            if acc and not (calls[-1].t == st.t1 == c.t and np.array_equal(calls[-1].y.reshape(-1), y1)):
                e['xtra'] = 1
            sg = 1.
            s1 = np.concatenate(([1.], s))            # new point and history
            for i, w in enumerate(divided(s1[:min(m + 1, kmax + 2)]), start=1):      # S[i], phi(i)
                if i > 1:
                    sg *= (i - 1)/(1 - s[i - 2]) if i - 1 <= m else 1
                if i > 1:
                    w = w*np.prod(1 - s[:i - 1])
                if fin:
                    Q = np.concatenate((fp[None], Fm))[:i]
                    v = np.abs(w @ Q)
                    u = rho*i*(np.abs(w) @ np.abs(Q))
                    g = abs(h)*sg*(GSTR[i - 2] if i > 1 else 1.)
                    S[i - 1] = iv(g*rms(np.maximum(v - u, 0)/wt)*(1 - 1e-9), g*rms((v + u)/wt)*(1 + 1e-9))
                    if acc and i >= 3:                 # estimate of order k + 1 = i - 1 after the step
                        Q = np.concatenate((fn[None], Fm))[:i]
                        if np.all(np.isfinite(fn)):
                            v = np.abs(w @ Q)
                            u = rho*i*(np.abs(w) @ np.abs(Q))
                            g = abs(h)*GSTR[i - 2]
                            R[i - 3] = iv(g*rms(np.maximum(v - u, 0)/wt)*(1 - 1e-9), g*rms((v + u)/wt)*(1 + 1e-9))
            cold = 1.                                  # integral of the basis polynomial of the new point, k - 1 old points
            pr = 1.
            for k, L in enumerate(lagrange(s[:min(m, kmax)], XS), start=1):
                wI, wE = GW @ L[:-1], L[-1]
                pk = y + h*(wI @ Fm[:k])
                mag = np.abs(y)*4*EPS + abs(h)*rho*k*(np.abs(wI) @ np.abs(Fm[:k]))
                with np.errstate(all='ignore'):
                    if np.all(np.abs(pc - pk) <= mag + 1e-300) or not np.all(np.isfinite(pk)):
                        ordr.append(k)
                pr = pr*(GX - s[k - 1])/(1 - s[k - 1])
                ck = GW @ pr
                if fin:
                    P = wE @ Fm[:k]
                    up = rho*k*(np.abs(wE) @ np.abs(Fm[:k])) + EPS*np.abs(fp)
                    dlt = np.abs(fp - P)
                    g = abs(h)*abs(cold - ck)
                    err[k - 1] = iv(g*rms(np.maximum(dlt - up, 0)/wt)*(1 - 1e-9), g*rms((dlt + up)/wt)*(1 + 1e-9))
                    if acc:
                        yk = pc + h*ck*(fp - P)
                        if np.all(np.abs(y1 - yk) <= 4*EPS*(np.abs(pc) + np.abs(yk)) + abs(h*ck)*2*(up + rho*(np.abs(fp) + np.abs(P))) + 1e-300):
                            yok.append(k)
                cold = ck
            e.update(ord=ordr, yok=yok, S=S, err=err, R=R)
            if ai == len(body) - 1:
                e['nfs'] = bool(ok and st.nfs != len(body) - 1 or not ok and st.nfs != len(body))
            ev.append(e)
        if not ok:
            ev.append(dict(k='fail', st=si, first=not body, msg=bool(st.msg), small='spacing' in (st.msg or ''),
                           tight='tight' in (st.msg or ''), mn=mn))
            break
        T.insert(0, st.t1)
        F.insert(0, np.asarray(calls[-1].f).reshape(-1))
        del T[kmax + 3:], F[kmax + 3:]
        if not np.all(np.isfinite(F[0])):
            break
    return dict(cfg=cfg, ev=ev)
