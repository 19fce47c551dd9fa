"""Projection of recorded runs of the ESDIRK methods onto the events of TraceEsdirk.tla.  The recorded calls of a step
are explained, attempt by attempt and Newton iteration by Newton iteration, with the reference tableau (golden.json),
the Jacobian values handed out and a hypothesis about the factorization in use."""
import math
import numpy as np
from . import rec
from .base import LG, LGf, LGc, LMAX, INF, dev2
from .tab import GOLD, scale_of, rms, err_iv, sc_of, cdiff, hrel, iv, EPS, TINY

MAXIT = 5


class Es:
    def __init__(s, m, o, n):
        g = GOLD[m]
        s.A, s.B, s.C, s.E, s.Az, s.d = g['A'], g['B'], g['C'], g['E'], g['Az'], g['d']
        s.S, s.kappa, s.filt = g['n_stages'], g['kappa'], g['filter_error']


def dense(a):
    return np.asarray(a.todense()) if hasattr(a, 'todense') else np.asarray(a)


def mass(o, n):
    M = o.get('M')
    if M is None:
        return np.eye(n)
    M = dense(M)
    return np.diag(M) if M.ndim == 1 else M


def fd_jac(f, t, y):
    n = y.size
    f0 = np.asarray(f(t, y))
    J = np.empty((n, n), f0.dtype)
    for i in range(n):
        e = 1e-7*max(1e-2, abs(y[i]))
        q = y.copy()
        q[i] += e
        J[:, i] = (np.asarray(f(t, q)) - f0)/e
    return J


def diff_jac(calls, t, y, pattern=None):
    """the difference approximation (scipy's num_jac) that follows from the recorded calls at the point (t, y);
    None if the calls do not determine it"""
    n = y.size
    f0, cols = None, {}
    for c in calls:
        if c.k != 'fun' or c.t != t:
            continue
        Y, F = np.asarray(c.y), np.asarray(c.f)
        if Y.size == n:
            Y, F = Y.reshape(n, 1), F.reshape(n, 1)
        for q in range(Y.shape[1]):
            u, v = Y[:, q], F[:, q]
            D = np.nonzero(u != y)[0]
            if D.size == 0:
                f0 = v
            elif D.size == 1 or pattern is not None:
                for j in D:
                    cols.setdefault(int(j), []).append((u[j] - y[j], v))
    if f0 is None or len(cols) < n:
        return None
    J = np.zeros((n, n), np.result_type(f0, y))
    with np.errstate(all='ignore'):
        for j, L in cols.items():
            rows = np.arange(n) if pattern is None else np.nonzero(pattern[:, j])[0]
            best = None
            for h, v in L[-2:] if len(L) > 2 else L:
                df = (v - f0)[rows]
                i = int(np.argmax(np.abs(df)))
                md, sc = abs(df[i]), max(abs(f0[rows][i]), abs(v[rows][i]))
                if best is None or best[1]*sc < md*best[2]:
                    best = (df/h, md, sc)
            J[rows, j] = best[0]
    return J


def init_block(r):
    """the calls of the first Jacobian evaluation: from the second evaluation at the initial point to the first one at
    another time"""
    c = [x for x in r.init_calls if x.k == 'fun']
    i = [k for k, x in enumerate(c) if x.t == r.p['t0'] and np.array_equal(np.asarray(x.y).reshape(-1), r.y0)]
    if len(i) < 2:
        return []
    j = i[1]
    while j < len(c) and c[j].t == r.p['t0']:
        j += 1
    return c[i[1]:j]


class Solver:
    def __init__(s, M, J, h, d):
        s.W = M - h*d*J
        try:
            s.inv = np.linalg.inv(s.W)
        except np.linalg.LinAlgError:
            s.inv = np.full_like(s.W, np.nan)
        s.ainv = np.abs(s.inv)

    def __call__(s, b):
        x = s.inv @ b
        return x + s.inv @ (b - s.W @ x)


def nrm(x, sc):
    with np.errstate(all='ignore'):
        return rms(np.abs(x)/sc)


def attempt(T, items, pos, t, y, h, hr, K0, Ku, M, lu, atol, rtol, split=None):
    """explain the calls from items[pos] on as one attempt with factorization lu, carrying along bounds of what rounding
    makes of every quantity; split: number of iterations of a stage that is followed by another one at the same time.
    -> dict(stages, K, U (its uncertainty), mis, pos, complete, ...)"""
    S, d = T.S, T.d
    n = y.size
    ah = abs(h)
    K, U = np.zeros((S, n), y.dtype), np.zeros((S, n))
    K[0], U[0] = K0, Ku
    tolt = 8*np.spacing(max(abs(t), abs(t + h), abs(t + h*max(T.C)))) + 1e-12*ah
    mis = -200
    stages, unc = [], []
    rel = 2.**-14
    complete = False
    bad = None
    aM = np.abs(M)
    G = np.abs(np.eye(n) - lu.inv @ M)

    def at(i, s):
        return i < len(items) and items[i].k == 'fun' and abs(items[i].t - (t + T.C[s]*h)) <= tolt

    for s in range(1, S):
        if not at(pos, s):
            bad = 'schedule'
            break
        with np.errstate(all='ignore'):
            c = items[pos]
            yc = c.y.reshape(-1)
            ry = 4*EPS*(np.abs(y) + np.abs(yc))
            if s == 1:
                c0 = T.A[1, 0] + d*T.Az[1, 0]
                Ko = (yc - y)/(h*c0)
                uo = ry/abs(h*c0) + hr*np.abs(Ko)
                if np.all(np.abs(Ko - K[0]) <= uo + 2*U[0]):
                    K[0], U[0] = np.where(uo < U[0], Ko, K[0]), np.minimum(uo, U[0])
            aK = np.abs(K[:s]).T
            psi = y + h*(K[:s].T @ T.A[s, :s])
            zp = h*(K[:s].T @ T.Az[s, :s])
            mp, mz = ah*(aK @ np.abs(T.A[s, :s])), ah*(aK @ np.abs(T.Az[s, :s]))
            upsi = ah*(U[:s].T @ np.abs(T.A[s, :s])) + 16*EPS*(np.abs(y) + mp) + hr*mp
            zu = ah*(U[:s].T @ np.abs(T.Az[s, :s])) + (16*EPS + hr)*mz
            sc = scale_of(atol, rtol, y, yc)
            noise = nrm(4*(upsi + d*zu) + ry + 2.**8*EPS*(np.abs(y) + mp + mz), sc)
            prev = unc[-1] if unc else 0.
            df = nrm(psi + d*zp - yc, sc)
            z, zo, uo = zp, (yc - psi)/d, (upsi + ry)/d
            if not df <= noise + rel*prev:
                # another predictor: take the iterate as it is (only its consistency matters)
                z, zu = zo, uo
                if split and s > 1 and T.C[s - 1] == T.C[s]:
                    mis = max(mis, dev2((df - noise)/max(rel*prev, 1e-300)))
            z, zu = np.where(uo < zu, zo, z), np.minimum(uo, zu)
            dzs, nzs, fin = [], [], True
            k = 0
            while True:
                f = np.asarray(c.f).reshape(-1)
                pos += 1
                k += 1
                if not np.all(np.isfinite(f)):
                    fin = False
                    break
                up = lu(h*f - M @ z)
                sc = scale_of(atol, rtol, y, yc)
                dv = lu.ainv @ (2.**8*EPS*(np.abs(lu.W) @ np.abs(up)) + 4*hr*(np.abs(lu.W - M) @ np.abs(up))
                                + (hr + 8*EPS)*np.abs(h*f) + 8*EPS*np.abs(M @ z))
                dl = nrm(dv + lu.ainv @ (aM @ zu), sc)
                dz = nrm(up, sc)
                dzs.append(dz)
                nzs.append(dl)
                z, zu = z + up, G @ zu + dv
                if not at(pos, s) or (s + 1 < S and T.C[s + 1] == T.C[s] and k == split):
                    break
                nx = items[pos].y.reshape(-1)
                same = max(nrm(psi + d*z - nx, sc) - noise - nrm(d*zu, sc), 0)/max(d*dz, 1e-300)
                big = max(np.max(np.abs(nx)), np.max(np.abs(psi)), np.max(np.abs(f)))
                if big < 1e100:                   # near overflow the iterates say nothing
                    mis = max(mis, dev2(same/rel))
                zo, uo = (nx - psi)/d, (upsi + 4*EPS*(np.abs(y) + np.abs(nx)))/d
                if same > rel:
                    z, zu = zo, uo
                z, zu = np.where(uo < zu, zo, z), np.minimum(uo, zu)
                c, yc = items[pos], nx
                if k > 60:
                    break
        K[s], U[s] = z/h, zu/ah
        unc.append(rms(np.array(dzs[-1:])) if dzs else 0.)
        stages.append((k, fin, dzs, nzs))
        if s + 1 < S:
            if not (fin and at(pos, s + 1)):
                break
        else:
            complete = fin
    return dict(stages=stages, K=K, U=U, mis=mis, pos=pos, complete=complete, psi=psi if stages else None, z=K[-1]*h,
                bad=bad, uy=upsi + d*zu if stages else 0*y, mag=np.abs(y) + mp + mz if stages else None)


def uniq(fac, J):
    """drop duplicates; the last two of older Jacobians and all of the present one are kept"""
    L = []
    for h, j in fac:
        if not any(i is j and abs(g - h) <= 1e-14*abs(h) for g, i in L):
            L.append((h, j))
    return [x for x in L if x[1] is not J][-2:] + [x for x in L if x[1] is J]


def converged(T, stg, tiny, linear, sg=0):
    """the documented test, used to classify a complete attempt that was not accepted; sg: with updates at the lower
    (-1) or upper (1) ends of their ranges"""
    k, fin, dz, nz = stg
    dz = [max(x + sg*d, 0.) for x, d in zip(dz, nz)]
    if not fin:
        return False
    if linear:
        return True
    rate = -1.
    for i, x in enumerate(dz):
        if x <= tiny:
            return True
        if i:
            if rate < 0 or dz[i - 1] > T.kappa:
                rate = max(rate, x/dz[i - 1] if dz[i - 1] > 0 else 0.)
            if rate >= 1 or x*rate**(MAXIT - i) >= T.kappa*(1 - rate):
                return False
            if x*rate < T.kappa*(1 - rate):
                return True
    return False


def stage(k, fin, dz, nz):
    """one stage for the specification: intervals of the update norms, their ratios and one minus the ratios"""
    D = [(max(x - d, 0.)*(1 - 1e-9), (x + d)*(1 + 1e-9)) for x, d in zip(dz, nz)]
    R = [(D[i][0]/D[i - 1][1] if D[i - 1][1] > 0 else 0., D[i][1]/D[i - 1][0] if D[i - 1][0] > 0 else math.inf)
         for i in range(1, len(D))]
    R = [(min(a, 2.**200), min(b, 2.**200)) for a, b in R]
    return dict(n=k, fin=fin, dz=[iv(*x) for x in D], r=[iv(*x) for x in R], rl=[lin(*x) for x in R], om=[[om(b)-1, om(a)+1] for a, b in R])


def lin(a, b, top=200000):
    """interval in units of 1/10000"""
    return [int(math.floor(min(a*1e4*(1 - 1e-9), top))), int(math.ceil(min(b*1e4*(1 + 1e-9), top)))]


def om(x):
    return LG(1 - x) if x < 1 else -LMAX


def near(w, x):
    return len(w['st']) == len(x['st']) and all(
        p['n'] == q['n'] and len(p['dz']) == len(q['dz'])
        and all(abs(g - h) <= 8 for u, v in zip(p['dz'] + p['r'], q['dz'] + q['r']) for g, h in zip(u, v))
        for p, q in zip(w['st'], x['st']))


def completions(T, a, tiny, linear):
    if not a['complete'] or a['acc']:
        return [a['complete']]
    return sorted({converged(T, a['stages'][-1], tiny, linear, sg) for sg in (-1, 0, 1)}, reverse=True)


def alternative(T, cfg, r, st, a, t, y, h, hr, M, atol, rtol, tiny, linear, smooth, jac_at, J, comp):
    """the observations of one attempt that depend on the factorization assumed to be in use"""
    n = y.size
    e = dict(mis=max(a['mis'], 0) if a['mis'] > 0 else -200, yd=a['yd'] if a['yd'] > 0 else -200,
             out='acc' if a['acc'] else 'rej' if comp else 'newton', nst=len(a['stages']), whole=bool(a['complete']), vague=False)
    e['st'] = [stage(*x) for x in a['stages']]
    e['ls'] = sum(len(s_[2]) for s_ in a['stages'])
    e['e'], e['nan'] = [-LMAX, -LMAX], False
    e['res'] = -200
    if not comp:
        return e
    with np.errstate(all='ignore'):
        L = Solver(M, a['fac'][1], a['fac'][0], T.d)
        v = h*(a['K'].T @ T.E)
        mag = abs(h)*(np.abs(a['K']).T @ np.abs(T.E))
        yn = st.y1 if a['acc'] else a['psi'] + T.d*a['z']
        sc = scale_of(atol, rtol, y, yn)
        u = 2.**-20
        top = max([x for s_ in a['stages'] for x in s_[2][-1:]] + [0.])
        de = 2.**7*EPS*mag + abs(h)*(a['U'].T @ np.abs(T.E))
        if T.filt:
            w = L(M @ v)
            de = np.abs(L.ainv) @ (np.abs(M) @ de) + u*np.abs(w)
            v = w
        lo, hi, nan = err_iv(v, de + 2*hr*np.abs(v), sc)
        x = u*top*np.max(np.abs(T.E))*math.sqrt(n)*8
        if not (np.isfinite(lo) and np.isfinite(hi)):
            nan = True
        e['e'] = iv(max(lo - x, 0), hi + x) if not nan else [-LMAX, -LMAX]
        e['nan'] = bool(nan)
        if a['acc'] and smooth:
            w = -200
            for s_ in range(1, T.S):
                z = a['K'][s_]*h
                ps = y + h*(a['K'][:s_].T @ T.A[s_, :s_])
                ys = ps + T.d*z
                ts = t + T.C[s_]*h
                fr = np.asarray(r.rec.raw(ts, ys)).reshape(-1)
                Jr = np.asarray(jac_at(ts, ys), y.dtype) if not linear else J
                x = nrm(Solver(M, Jr, h, T.d)(h*fr - M @ z), sc)
                nz = nrm(2.**10*EPS*(np.abs(y) + abs(h)*np.abs(fr)), sc)*8
                w = max(w, dev2(max(x - nz, 0)))
            e['res'] = w
    return e


def project(r, smooth=False):
    m, p, o = r.method, r.p, r.opts
    if r.init_exc is not None:
        return None
    n = r.y0.size
    g = GOLD[m]
    T = Es(m, o, n)
    M = mass(o, n)
    if np.linalg.matrix_rank(M) < n:
        return None
    linear = o.get('jac') is not None and not callable(o.get('jac'))
    numj = o.get('jac') is None
    each = bool(o.get('jac_each_step'))
    rtol = min(max(o.get('rtol', 1e-3), 10*np.finfo(float).epsneg), .1)
    atol = np.maximum(np.asarray(o.get('atol', 1e-6), float), math.sqrt(TINY))
    q = min(g['order'], g['order_secondary'])
    k1, k2, al, sf = sc_of(m, o, 'es')
    ms, fs = o.get('max_step', np.inf), o.get('first_step')
    tiny = math.sqrt(n)*EPS**.8
    cfg = dict(fam='esdirk', q1=q + 1, k1=k1, k2=k2, al=al, sf=LG(sf), mx=LG(10), tiny=LG(tiny), name=m,
               mxs=LG(ms) if np.isfinite(ms) else INF, h0=LG(fs) if fs else INF, kappa=LG(T.kappa), S=T.S,
               filt=bool(T.filt), linear=linear, each=each, num=numj, tl=8, smooth=smooth)
    ha = 10*np.finfo(float).epsneg/cdiff(T.C)
    hb = math.sqrt(TINY)
    f0 = [c.f for c in r.init_calls if c.k == 'fun' and c.t == p['t0'] and np.array_equal(c.y, r.y0)]
    if not f0 or not np.all(np.isfinite(f0[0])):
        return None
    K0 = np.linalg.solve(M, np.asarray(f0[0]).reshape(-1))
    jf = p.get('jac')

    pat = o.get('jac_sparsity')
    pat = None if pat is None else dense(pat) != 0

    def jac_at(t, y):
        if jf is None:
            return fd_jac(r.rec.raw, t, y)
        return dense(jf(t, y.copy()))
    if linear:
        J = dense(o['jac'])
    elif numj:
        J = diff_jac(init_block(r), p['t0'], r.y0, pat)
        if J is None:
            return None
    else:
        js = [c for c in r.init_calls if c.k == 'jac']
        if not js:
            return None
        J = dense(js[-1].f)
    with np.errstate(all='ignore'):
        J = np.asarray(J, K0.dtype)
    fac = []                      # the factorizations that may be in use: (step size, Jacobian)
    ev = []
    hprev = hp1 = None
    Ku = np.zeros(n)
    for si, st in enumerate(r.steps):
        if st.exc or not hasattr(st, 'nfs'):
            break
        t, y = st.t, st.y
        dd = p['tb'] - t
        ok = st.status != 'failed'
        items = list(st.calls)
        pos, first, nat = 0, True, 0
        ev0 = len(ev)
        hlast = None
        stop = False
        nit = 0
        fac0 = list(fac)
        while pos < len(items):
            c = items[pos]
            if c.k == 'jac' or (c.k == 'fun' and c.t == t):
                e = dict(k='jac', at=bool(c.t == t and np.array_equal(c.y, y)), user=c.k == 'jac')
                if c.k == 'jac':
                    J = np.asarray(dense(c.f), K0.dtype)
                    pos += 1
                else:
                    p0 = pos
                    while pos < len(items) and items[pos].k == 'fun' and items[pos].t == t:
                        pos += 1
                    J = diff_jac(items[p0:pos], t, y, pat)
                    if J is None:
                        stop = True
                        break
                    J = np.asarray(J, K0.dtype)
                ev.append(e)
                continue
            h = (c.t - t)/T.C[1]
            hr = hrel(t, h, T.C[1]) if h else 1.
            if abs(h - dd) <= hr*abs(h) + 4*np.spacing(max(abs(t), abs(p['tb']))):
                h, hr = dd, 4*EPS
            elif hlast is not None and abs(h - hlast) <= hr*abs(h):
                h = hlast
            if ok and abs(t + h - st.t1) <= 4*np.spacing(max(abs(t), abs(st.t1))) + hr*abs(h) and h != dd:
                h = st.t1 - t
                hr = hrel(t, h)
            if h*r.direction <= 0 or not np.isfinite(h) or not np.all(np.isfinite(J)) or not np.all(np.isfinite(K0)):
                stop = True
                break
            hyp = [('cur', J, h)]
            for fh, fJ in fac:
                if fJ is not J:
                    hyp.append(('stale', fJ, fh))
                elif fh != h:
                    hyp.append(('old', J, fh))
            if hr > 2.**-22:                      # the times do not resolve the step
                ev = ev[:ev0]
                stop = True
                break
            R = []
            sp = [None]
            if len(set(T.C)) < T.S:
                c1 = next(T.C[i] for i in range(1, T.S) if T.C[i] == T.C[i - 1])
                m_ = sum(abs(x.t - (t + c1*h)) <= 1e-9*abs(h) for x in items[pos:])
                sp = list(range(1, min(m_, 7))) + [None]
            for (name, JJ, hh), sk in [(x, k) for x in hyp for k in sp]:
                a = attempt(T, items, pos, t, y, h, hr, K0, Ku, M, Solver(M, JJ, hh, T.d), atol, rtol, sk)
                a['lu'], a['fac'] = name, (hh, JJ)
                acc = ok and a['pos'] >= len(items) and a['complete']
                a['acc'] = acc
                a['yd'] = -200
                if acc:
                    with np.errstate(all='ignore'):
                        yn = a['psi'] + T.d*a['z']
                        sc = scale_of(atol, rtol, y, st.y1)
                        w = max(nrm(yn - st.y1, sc) - nrm(2.**10*EPS*a['mag'], sc)
                                - nrm(2.**8*EPS*np.abs(T.d*a['z']), sc) - nrm(4*a['uy'], sc), 0)
                        top = max([x for s_ in a['stages'][-1:] for x in s_[2][-1:]] + [1e-300])
                        rel = 2.**-14
                        a['yd'] = dev2(w/(rel*top + 1e-14))
                R.append(a)
            R.sort(key=lambda a: (a['bad'] is not None, max(a['mis'], a['yd'], 0), -a['pos']))
            a = R[0]
            if not a['stages']:
                ev.append(dict(k='bad', what='schedule'))
                stop = True
                break
            fits = [b for b in R if b['bad'] is None and max(b['mis'], b['yd']) <= 0 and b['pos'] == a['pos']]
            known = [g for g in fac if g[1] is J and abs(g[0] - h) <= 1e-9*abs(h)]
            fac = uniq([b['fac'] for b in fits] if fits else fac + [(h, J)], J)
            if len(fac) > 24:                     # too many factorizations could be in use
                ev = ev[:ev0]
                stop = True
                break
            pos = a['pos']
            e = dict(k='att', first=first, h=iv(abs(h)*(1 - hr), abs(h)*(1 + hr)), d=LG(abs(dd)), sched=bool(a['bad']))
            mlo = max(ha*abs(t), hb)
            mhi = max(ha*(abs(t) + 32*abs(h)), hb)
            e['mn'] = [LGf(mlo*(1 - 1e-6)), LGc(mhi*(1 + 1e-6))]
            e['hr'] = [0, 0] if hprev is None else [e['h'][0] - hprev[1], e['h'][1] - hprev[0]]
            e['pk'] = bool(first and hp1 and fac0)
            if e['pk']:
                q = [abs(h/fh) for fh, _ in fac0]
                e['pq'] = lin(abs(h/hp1)*(1 - hr), abs(h/hp1)*(1 + hr))
                e['fq'] = lin(min(q)*(1 - hr), max(q)*(1 + hr))
            e['alts'] = []
            for b, comp in [(b, c) for b in fits or [a] for c in completions(T, b, tiny, linear)]:
                x = alternative(T, cfg, r, st, b, t, y, h, hr, M, atol, rtol, tiny, linear, smooth, jac_at, J, comp)
                x['lu'] = ([] if not fits else [b['lu'], 'old'] if b['lu'] == 'cur' and known else [b['lu']])
                for w in e['alts']:
                    if w['out'] == x['out'] and w['whole'] == x['whole'] and near(w, x):
                        w['lu'] = sorted(set(w['lu'] + x['lu']))
                        w['e'] = [min(w['e'][0], x['e'][0]), max(w['e'][1], x['e'][1])]
                        w['nan'] = w['nan'] or x['nan']
                        break
                else:
                    e['alts'].append(x)
            if len(e['alts']) > 12:               # too many explanations: only what they have in common
                if len({x['out'] for x in e['alts']}) > 1 or len({x['ls'] for x in e['alts']}) > 1:
                    ev = ev[:ev0]
                    stop = True
                    break
                x = dict(e['alts'][0], vague=True)
                x['e'] = [min(w['e'][0] for w in e['alts']), max(w['e'][1] for w in e['alts'])]
                x['nan'] = any(w['nan'] for w in e['alts'])
                x['lu'] = sorted({g for w in e['alts'] for g in w['lu']})
                e['alts'] = [x]
            ev.append(e)
            first = False
            nat += 1
            hlast = h
            if a['acc']:
                hprev = e['h']
                hp1 = h
                K0 = a['K'][-1]
                Ku = np.max([np.abs(b['K'][-1] - K0) for b in fits or [a]], axis=0)*2 + a['U'][-1]
            if nat > 400:
                stop = True
                break
        if stop:
            break
        e = dict(k='end', ok=ok, nlu=st.nlu, nfi=st.nfi, nfs=st.nfs, nls=st.nls, small='spacing' in (st.msg or ''),
                 d=LG(abs(dd)), first=first, acc=bool(ev and ev[-1]['k'] == 'att' and ev[-1]['alts'][0]['out'] == 'acc'))
        hh = abs(hlast) if hlast else abs(dd)
        mlo = max(ha*abs(t), hb)
        mhi = max(ha*(abs(t) + 32*hh), hb)
        e['mn'] = [LGf(mlo*(1 - 1e-6)), LGc(mhi*(1 + 1e-6))]
        ev.append(e)
        if ok and not e['acc']:
            break
    return dict(cfg=cfg, ev=ev)
