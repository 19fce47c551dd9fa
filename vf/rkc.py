"""SSV2stab: projection of recorded runs onto the events of TraceRkc.tla, with the formulas of Sommeijer, Shampine and
Verwer (1998) written with Chebyshev polynomials, not the recurrences of the code."""
import math
import numpy as np
from .base import LG, INF, LMAX, dev2
from .tab import iv, err_iv, scale_of, hrel, EPS, TINY
from . import rec

SMALL = float(np.nextafter(np.finfo(float).epsneg, 1))
_co = {}


def coef(m):
    """-> mu, nu, mus, gamma(1-mu-nu..), nodes of the formula with m stages"""
    if m in _co:
        return _co[m]
    w0 = 1 + 2/(13*m*m)
    a = math.acosh(w0)
    sh = math.sinh(a)
    j = np.arange(m + 1)
    T = np.cosh(j*a)
    T1 = j*np.sinh(j*a)/sh
    T2 = (j*j*np.cosh(j*a)*sh - w0*j*np.sinh(j*a))/sh**3
    # small arguments: exact values of the lowest polynomials
    T1[0], T1[1] = 0., 1.
    T2[0], T2[1] = 0., 0.
    T2[2] = 4.
    w1 = T1[m]/T2[m]
    b = np.empty(m + 1)
    b[2:] = T2[2:]/T1[2:]**2
    b[0] = b[1] = b[2]
    c = np.zeros(m + 1)
    c[2:] = T1[m]/T2[m]*T2[2:]/T1[2:]
    c[1] = w1*b[1]            # mus_1 as in the published code
    mu, nu, mus, ga = (np.zeros(m + 1) for _ in range(4))
    mu[2:] = 2*b[2:]*w0/b[1:-1]
    nu[2:] = -b[2:]/b[:-2]
    mus[2:] = 2*b[2:]*w1/b[1:-1]
    ga[2:] = -(1 - b[1:-1]*T[1:-1])*mus[2:]
    # nodes by the recurrence, consistent with the stages
    th = np.zeros(m + 1)
    th[1] = c[1]
    for i in range(2, m + 1):
        th[i] = mu[i]*th[i - 1] + nu[i]*th[i - 2] + mus[i] + ga[i]
    r = (mu, nu, mus, ga, th, w1*b[1])
    if m < 3000:
        _co[m] = r
    return r


def project(r, pure=True):
    p, o = r.p, r.opts
    rtol = min(max(o.get('rtol', 1e-3), 10*np.finfo(float).epsneg), .1)
    atol = np.maximum(np.asarray(o.get('atol', 1e-6), float), np.sqrt(TINY))
    fs = o.get('first_step')
    mx = min(o.get('max_step', np.inf), abs(p['tb'] - p['t0']), math.sqrt(np.finfo(float).max))
    mmax = max(int(round(math.sqrt(rtol/(10*SMALL)))), 2)
    hm0 = max(math.sqrt(TINY), 10*SMALL*max(abs(p['t0']), mx))
    user = o.get('rho_jac') is not None
    cfg = dict(name='SSV2stab', mxs=LG(mx), h0=LG(fs) if fs else INF, mmax=mmax, lmm=LG(mmax**2 - 1), hm0=[LG(hm0)]*2,
               user=user, const=bool(o.get('const_jac', False)))
    ev = []
    fn = next((np.asarray(c.f).reshape(-1) for c in r.init_calls if c.k == 'fun'), None)
    if fn is None or r.y0.size == 0:
        return None
    V = None
    small = 1/mx
    first = True
    for si, st in enumerate(r.steps):
        t, y = st.t, st.y
        d = abs(p['tb'] - t)
        ok = st.status != 'failed'
        fd = True
        if pure:
            ft = np.asarray(r.rec.raw(t, y.copy())).reshape(-1)
            fd = bool(np.array_equal(ft, fn, equal_nan=True))
        # group the calls: [rho work], [trial], stages
        att = []
        cur = dict(rho=[], user=[], trial=None, st=[])
        prev = None
        pn, pinf = 0, False
        for c in st.calls:
            if c.k == 'rho' or (c.k == 'fun' and c.t == t):
                if cur['st']:
                    att.append(cur)
                    cur = dict(rho=[], user=[], trial=None, st=[])
                cur['user' if c.k == 'rho' else 'rho'].append(c)
                prev = None
                continue
            if c.k != 'fun':
                continue
            x = abs(c.t - t)
            if prev is not None and x <= prev:
                att.append(cur)
                cur = dict(rho=[], user=[], trial=None, st=[])
                prev = None
            cur['st'].append(c)
            prev = x
        if cur['st'] or cur['rho'] or cur['user']:
            att.append(cur)
        # the trial evaluation for the automatic first step forms a group of its own (or, at a later time than the first
        # stage, it does not: then split it off)
        if first and not fs and att:
            g = att[0]
            g['trial'] = g['st'][0] if g['st'] else None
            g['st'] = g['st'][1:]
            if not g['st'] and len(att) > 1 and not att[1]['rho'] and not att[1]['user']:
                g['st'] = att.pop(1)['st']
        for ai, g in enumerate(att):
            S = g['st']
            e = dict(k='a', st=si, first=ai == 0, last=ai == len(att) - 1, rho='none', sp=[-LMAX, -LMAX], pearly=False, plate=False, pdev=-200,
                     init=g['trial'] is not None, t0=[0, 0], est=[0, 0], d=LG(d), fd=fd, warn=False, xtra=0, nfs=False)
            if g['rho']:
                e['rho'] = 'power'
                sig, dl, un = [], [], []
                pn = len(g['rho'])
                ref = fn if V is None else V
                with np.errstate(all='ignore'):
                    for c in g['rho']:
                        v, fv = c.y.reshape(-1), np.asarray(c.f).reshape(-1)
                        dv = v - y
                        dn, df = np.linalg.norm(dv), np.linalg.norm(fv - fn)
                        sig.append(df/dn if dn else np.nan)
                        un.append(4*EPS*np.linalg.norm(v)/dn if dn else 1.)
                        rn = np.linalg.norm(ref)
                        if not rn and dn and len(sig) == 1 and np.any(y):       # start at an equilibrium
                            ref, rn = y, np.linalg.norm(y)
                        if rn and dn and np.isfinite(rn):
                            # rounding of v and of the difference of two function values
                            tol = 8*EPS*(np.linalg.norm(y)/dn + (np.linalg.norm(fn)/rn if len(sig) > 1 else 0))
                            x = np.linalg.norm(dv/dn - ref/rn)
                            e['pdev'] = max(e['pdev'], dev2(max(0., x - tol)))
                        ref = fv - fn
                    conv = []
                    for i in range(1, len(sig)):
                        q = abs(sig[i] - sig[i - 1])
                        lim = max(sig[i], small)*.01
                        u = un[i]*sig[i] + un[i - 1]*sig[i - 1]
                        conv.append((q + u <= lim*(1 - 1e-9), q - u <= lim*(1 + 1e-9)))
                    pinf = not np.isfinite(sig[-1])
                    if S or g['trial'] is not None:
                        e['pearly'] = any(x for x, _ in conv[:-1])
                        e['plate'] = not conv or not conv[-1][1]
                    V = g['rho'][-1].y.reshape(-1) - y
                    e['sp'] = iv(1.2*sig[-1]*(1 - un[-1]), 1.2*sig[-1]*(1 + un[-1])) if not pinf else [-LMAX, LMAX]
            if g['user']:
                e['rho'] = 'user'
                z = float(np.ravel(g['user'][-1].f)[0])
                e['sp'] = [LG(z)]*2
            if g['trial'] is not None:
                c = g['trial']
                ht = abs(c.t - t)
                u = 2*np.spacing(max(abs(t), abs(c.t)))/ht
                e['t0'] = iv(ht*(1 - u), ht*(1 + u))
                with np.errstate(all='ignore'):
                    w = atol + rtol*np.abs(y)
                    df = np.asarray(c.f).reshape(-1) - fn
                    lo, hi, nan = err_iv(df*ht, (8*EPS*(np.abs(fn) + np.abs(df)) + u*np.abs(df))*ht, w)
                if nan:
                    return dict(cfg=cfg, ev=ev)
                e['est'] = iv(lo, hi)
            if not S:
                break
            h = S[-1].t - t
            m = len(S)
            th = coef(m)[4] if m >= 2 else None
            if abs(S[-1].t - p['tb']) <= 2*np.spacing(max(abs(t), abs(p['tb']))):
                h = p['tb'] - t
            if abs(h)/m**2 < 2e3*np.spacing(max(abs(t), abs(S[-1].t))) or m > 2500:
                return dict(cfg=cfg, ev=ev)
            if m < 2 or h*r.direction <= 0:
                return dict(cfg=cfg, ev=ev + [dict(k='bad', st=si)])
            acc = ok and e['last']
            hr = hrel(t, h)
            mu, nu, mus, ga, th, mus1 = coef(m)
            dev, tdev = -200, -200
            with np.errstate(all='ignore'):
                Y0, Y1 = y, y + h*mus1*fn
                amp = m*m*EPS
                mag = np.abs(y) + abs(h)*np.abs(fn)
                for j in range(2, m + 1):
                    c = S[j - 2]
                    tdev = max(tdev, dev2(abs(c.t - (t + h*th[j - 1]))/(4*np.spacing(max(abs(t), abs(c.t))) + abs(h)*(hr + 1e-13*m))))
                    a = c.y.reshape(-1)
                    tol = amp*mag + 2*hr*np.abs(Y1 - y) + 1e-300
                    if np.all(np.isfinite(Y1)):
                        dev = max(dev, dev2(np.max(np.abs(a - Y1)/tol)) if np.all(np.isfinite(a)) else 200)
                    f = np.asarray(c.f).reshape(-1)
                    Y0, Y1 = Y1, mu[j]*a + nu[j]*(y if j == 2 else S[j - 3].y.reshape(-1)) + (1 - mu[j] - nu[j])*y + h*(mus[j]*f + ga[j]*fn)
                    mag = np.maximum(mag, np.abs(Y1) + abs(h)*mus[j]*np.abs(f))
                a = S[-1].y.reshape(-1)
                tol = amp*mag + 2*hr*np.abs(Y1 - y) + 1e-300
                yd = -200
                if np.all(np.isfinite(Y1)):
                    yd = dev2(np.max(np.abs(a - Y1)/tol)) if np.all(np.isfinite(a)) else 200
                fe = np.asarray(S[-1].f).reshape(-1)
                est = .8*(y - a) + .4*h*(fn + fe)
                de = 8*EPS*(.8*(np.abs(y) + np.abs(a)) + .4*abs(h)*(np.abs(fn) + np.abs(fe))) + .4*abs(h)*hr*np.abs(fn + fe)
                lo, hi, nan = err_iv(est, de, scale_of(atol, rtol, y, a))
            if np.any(np.abs(est[np.isfinite(est)]) > 1e140):
                return dict(cfg=cfg, ev=ev)
            hm = max(math.sqrt(TINY), 13.3*SMALL*(abs(t) + abs(h))*(m*m - 1))
            e.update(h=iv(abs(h)*(1 - hr), abs(h)*(1 + hr)), m=m, la=LG((m - 1)**2 - 1) if m > 2 else -2*LMAX, lb=LG(m*m - 1), hm=iv(hm*(1 - 1e-9), hm*(1 + 1e-9)),
                     e=iv(lo, hi), nan=bool(nan), acc=acc, dev=dev, tdev=tdev, yd=yd)
            if acc:
                e['xtra'] = int(abs(S[-1].t - st.t1) > 2*np.spacing(max(abs(t), abs(st.t1))) or not np.array_equal(a, st.y1))
                fn = fe
            if e['last']:
                e['nfs'] = bool(st.nfs != len(att) - 1 if ok else False)
                e['warn'] = any('too stiff' in w for w in st.warns)
            ev.append(e)
        first = False
        if not ok:
            ev.append(dict(k='fail', st=si, msg=bool(st.msg), small='spacing' in (st.msg or ''), over='flow' in (st.msg or ''),
                           rho='spectral' in (st.msg or ''), pn=pn, pinf=bool(pinf)))
    return dict(cfg=cfg, ev=ev)
