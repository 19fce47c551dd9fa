"""CKdisc: projection of recorded runs onto the events of TraceCK.tla, and replay of scripts from MCCK.tla."""
import re
import numpy as np
from .base import LG, INF, LMAX, dev2
from .tab import iv, err_iv, scale_of, hrel, rms, EPS, TINY, cdiff
from . import rec

# Cash & Karp (1990)
C = np.array([0, 1/5, 3/10, 3/5, 1, 7/8])
A = [[], [1/5], [3/40, 9/40], [3/10, -9/10, 6/5], [-11/54, 5/2, -70/27, 35/27],
     [1631/55296, 175/512, 575/13824, 44275/110592, 253/4096]]
B1 = np.array([1, 0, 0, 0, 0, 0.])
B2 = np.array([-3/2, 5/2, 0, 0, 0, 0])
B3 = np.array([19/54, 0, -10/27, 55/54, 0, 0])
B4 = np.array([2825/27648, 0, 18575/48384, 13525/55296, 277/14336, 1/4])
B5 = np.array([37/378, 0, 250/621, 125/594, 0, 512/1771])
F2, G2 = np.array([1/10, 1/10, 0, 0, 0, 0]), np.array([-1/10, 1/10, 0, 0, 0, 0])
F3, G3 = np.array([1/10, 0, 2/5, 1/10, 0, 0]), np.array([1/10, 0, -2/10, 1/10, 0, 0])
LENGTHS = {'1': (1., B5), '3/5': (3/5, F3), '1/5': (1/5, F2)}


def project(r, pure=True):
    p, o = r.p, r.opts
    rtol = min(max(o.get('rtol', 1e-3), 10*np.finfo(float).epsneg), .1)
    atol = np.maximum(np.asarray(o.get('atol', 1e-6), float), np.sqrt(TINY))
    ms, fs = o.get('max_step', np.inf), o.get('first_step')
    cfg = dict(name='CKdisc', mxs=LG(ms) if np.isfinite(ms) else INF, h0=LG(fs) if fs else INF)
    ha, hb = 10*np.finfo(float).epsneg/cdiff(C), np.sqrt(TINY)
    ev = []
    fend = next((c.f for c in r.init_calls if c.k == 'fun'), None)
    n = r.y0.size
    for si, st in enumerate(r.steps):
        t, y = st.t, st.y
        d = abs(p['tb'] - t)
        calls = [c for c in st.calls if c.k == 'fun']
        ok = st.status != 'failed'
        body = calls[:-1] if ok else calls
        att, pos = [], 0
        tol = lambda h: 6*np.spacing(max(abs(t), abs(t + h))) + 1e-13*abs(h)
        while pos < len(body):
            h = (body[pos].t - t)*5
            if ok and abs(abs(h) - abs(st.t1 - t)) <= 2*tol(h)*5:
                h = st.t1 - t
            m = 1
            if pos + 2 < len(body) and all(abs(body[pos + j].t - (t + C[1 + j]*h)) <= 5*tol(h) for j in (1, 2)):
                m = 3
                # the most precise estimate of the step size
                h2 = (body[pos + 2].t - t)/.6
                h = h2 if abs(h) != abs(st.t1 - t) else h
                if pos + 4 < len(body) and all(abs(body[pos + j].t - (t + C[1 + j]*h)) <= 5*tol(h) for j in (3, 4)):
                    m = 5
                    h = body[pos + 3].t - t
            if ok and abs(h - (p['tb'] - t)) <= 5*tol(h):
                h = p['tb'] - t
            if h*r.direction <= 0 or not np.isfinite(h):
                ev.append(dict(k='bad', st=si))
                break
            att.append((h, pos, m))
            pos += m
        if any(abs(h) < 4e3*np.spacing(max(abs(t), abs(t + h))) for h, _, _ in att):
            break                # stage times are too coarse to tell the attempts apart
        k0 = -200
        if pure and fend is not None:
            ft = np.asarray(r.rec.raw(t, y.copy())).reshape(-1)
            if np.all(np.isfinite(ft)) or np.all(np.isfinite(fend)):
                k0 = -200 if np.array_equal(ft, fend) else dev2(rms(np.abs(ft - fend)/(EPS*(np.abs(ft) + np.abs(fend)) + 1e-300)))
        for ai, (h, pos, m) in enumerate(att):
            hr = hrel(t, h)*(5 if m == 1 else 1)
            K = np.zeros((6, n), r.y0.dtype)
            K[0] = fend if fend is not None else np.nan
            dev = -200

            def comb(w, k):
                with np.errstate(all='ignore'):
                    w = np.asarray(w)[:k]
                    return y + h*(K[:k].T @ w), np.abs(y) + abs(h)*(np.abs(K[:k]).T @ np.abs(w))

            def nrm(w, wsol, k, ynew=None):
                with np.errstate(all='ignore'):
                    e = h*(K[:k].T @ w[:k])
                    de = 24*EPS*abs(h)*(np.abs(K[:k]).T @ np.abs(w[:k])) + 2*hr*np.abs(e)
                    yn = comb(wsol, k)[0] if ynew is None else ynew
                    lo, hi, nan = err_iv(e, de, scale_of(atol, rtol, y, yn))
                return lo, hi, bool(nan)
            for j in range(m):
                c = body[pos + j]
                ye, mag = comb(A[1 + j], 1 + j)
                with np.errstate(all='ignore'):
                    if np.all(np.isfinite(ye)):
                        dd = np.abs(c.y.reshape(-1) - ye)/(EPS*mag + 2*hr*np.abs(ye - y) + 1e-300)
                        dev = max(dev, dev2(dd.max()) if np.all(np.isfinite(c.y)) else 200)
                K[1 + j] = np.asarray(c.f).reshape(-1)
            last = ai == len(att) - 1
            acc = ok and last
            e = dict(k='a', st=si, first=ai == 0, n=m, h=iv(abs(h)*(1 - hr), abs(h)*(1 + hr)), d=LG(d), acc=acc, len='?',
                     dev=dev, yd=-200, k0=k0 if ai == 0 else -200, xtra=0)
            mlo, mhi = max(ha*abs(t), hb), max(ha*(abs(t) + 32*abs(h)), hb)
            e['mn'] = iv(mlo*(1 - 1e-6), mhi*(1 + 1e-6))
            z = [-LMAX, -LMAX]
            e.update(n1=z, n2=z, n4=z, f2=z, f3=z, x1=False, x2=False, x4=False, y2=False, y3=False)
            lo, hi, e['x1'] = nrm(B2 - B1, B2, 2)
            e['n1'] = iv(lo, hi)
            lo, hi, e['y2'] = nrm(G2, F2, 2)
            e['f2'] = iv(lo, hi)
            if m >= 3:
                lo, hi, e['x2'] = nrm(B3 - B2, B3, 4)
                e['n2'] = iv(lo, hi)
                lo, hi, e['y3'] = nrm(G3, F3, 4)
                e['f3'] = iv(lo, hi)
            if m == 5:
                lo, hi, e['x4'] = nrm(B5 - B4, B5, 6)
                e['n4'] = iv(lo, hi)
            if acc:
                f = abs(st.t1 - t)/abs(h)
                sl = 8*np.spacing(max(abs(t), abs(st.t1)))/abs(h) + 8*hr + 1e-12
                for k, (x, w) in LENGTHS.items():
                    if abs(f - x) <= sl:
                        e['len'] = k
                        yn, mag = comb(w, 6 if k == '1' else 4 if k == '3/5' else 2)
                        with np.errstate(all='ignore'):
                            dd = np.abs(st.y1 - yn)/(EPS*mag + 2*hr*np.abs(yn - y) + 1e-300)
                            e['yd'] = dev2(dd.max())
                c = calls[-1]
                if c.t != st.t1 or not np.array_equal(c.y.reshape(-1), st.y1, equal_nan=True):
                    e['xtra'] = 1
                fend = np.asarray(c.f).reshape(-1)
            e['nfs'] = bool(last and st.nfs != len(att) - (1 if ok or e['x4'] and m == 5 else 0))
            ev.append(e)
        if ok and not att:
            ev.append(dict(k='bad', st=si))
        if not ok:
            hh = abs(att[-1][0]) if att else d
            mlo, mhi = max(ha*abs(t), hb), max(ha*(abs(t) + 32*hh), hb)
            ev.append(dict(k='fail', st=si, msg=bool(st.msg), small='spacing' in (st.msg or ''),
                           over='flow' in (st.msg or ''), mn=iv(mlo*(1 - 1e-6), mhi*(1 + 1e-6))))
    return dict(cfg=cfg, ev=ev)


# ---------------------------------------------------------------------------------------------- scripts
V = dict(S=-200000, N=-4000, R=3000, G=60000, Q=115000, H=150000)


def parse(lines):
    out = set()
    for l in lines:
        m = re.match(r'SCRIPT (.*)', l)
        if m:
            out.add(tuple(re.findall(r'"(\w+)"', m.group(1))))
    return sorted(out)


class Script:
    """scalar right-hand side whose stage values put the error estimates into the classes of the script"""

    def __init__(self, script):
        self.script, self.idx, self.pos, self.on = script, 0, 0, False

    def start(self, s):
        self.on, self.t, self.pos = True, s.t, 0

    def after(self, s, st, i):
        self.t, self.pos = s.t, 0

    def __call__(self, t, y):
        if not self.on or self.idx >= len(self.script):
            return np.zeros(1)
        a = self.script[self.idx]
        m = {1: 1, 2: 3, 4: 5}[len(a)]
        self.pos += 1
        w = lambda cl, k: 2.**(k*V[cl]/16384)
        if self.pos == 1:
            self.h = (t - self.t)*5
            f = w(a[0], 2)/abs(2.5*self.h)
            self.k = [0., f]
        elif self.pos == 2:
            # n2 = |h| |(B3 - B2) k|, f3 = |h| |G3 k| with two unknowns k2, k3
            e2 = w(a[1], 3)/abs(self.h)
            # f3 in class N or R; a large first estimate may leave no choice, the trace tells
            e3 = 2.**(V[a[3]]/16384)/abs(self.h) if len(a) == 4 else .01/abs(self.h)
            D = B3 - B2
            M = np.array([[D[2], D[3]], [G3[2], G3[3]]])
            self.k[2:] = list(np.linalg.solve(M, [e2 - D[1]*self.k[1], e3]))
            f = self.k[2]
        elif self.pos == 3:
            f = self.k[3]
        elif self.pos == 4:
            f = 0.
            self.k.append(0.)
        elif self.pos == 5:
            D = B5 - B4
            e4 = w(a[2], 5)/abs(self.h)
            f = (e4 - sum(D[i]*self.k[i] for i in range(4)))/D[5]
        else:
            f = 0.
        if self.pos == m:
            self.idx += 1
            self.pos = -1 if self.accepted(a) else 0
        elif self.pos == 0:            # the end point of an accepted step
            return np.zeros(1)
        return np.array([f])

    def accepted(self, a):
        return (len(a) == 4 and (a[2] in 'SN' or (a[1] in 'SN' and a[3] == 'N'))) or (len(a) > 1 and a[0] in 'SN')


def run_script(script, direction=1):
    f = Script(script)
    p = dict(name='script', fun=f, jac=None, y0=np.zeros(1), t0=0., tb=direction*1e9, so=False, vel=False)
    return rec.run('CKdisc', p, dict(atol=1., rtol=1e-14, first_step=1.), max_steps=len(script) + 3, on_init=f.start,
                   on_step=f.after)
