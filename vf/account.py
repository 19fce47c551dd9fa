"""Projection of recorded runs onto the events of TraceAccount.tla."""
import numpy as np
from . import rec
from .tab import Tab, Parser

CHECKS = {'MR6NN': 1}         # evaluations made to check the precondition, not counted
XTRA = {('BS5', 'best'): 3, ('BS5', 'low'): 1, ('BS5', 'free'): 0, ('BS5', None): 1,
        ('Fi5N', 0): 0, ('Fi5N', None): 0, ('Fi5N', 1): 2, ('Fi5N', 2): 2, ('Fi5N', 3): 1,
        ('Mu5Nmb', 'better'): 1, ('Mu5Nmb', None): 1, ('Mu5Nmb', 'free'): 0}
EXPL = rec.EMBEDDED + rec.NYSTROM


def project(r):
    m, o, p = r.method, r.opts, r.p
    if r.init_exc is not None:
        return None
    es = m in rec.ESDIRK
    jac = 'none'
    if es:
        jac = 'user' if callable(o.get('jac')) else 'const' if o.get('jac') is not None else 'num'
    elif m == 'SSV2stab' and not o.get('rho_jac'):
        jac = 'num'
    n = r.y0.size
    tab = Tab(m, o, n) if m in EXPL else None
    cfg = dict(name=m, fam='rk' if tab else 'esdirk' if es else {'SWAG': 'swag', 'SSV2stab': 'ssv', 'CKdisc': 'ck'}[m],
               s=len(tab.nodes) if tab else 0, p=tab.pre[0] - 1 if tab and tab.pre else 0,
               e=0 if not tab or tab.fsal else 1, x=XTRA.get((m, o.get('interpolant')), 0), chk=CHECKS.get(m, 0),
               stiff=bool(tab and o.get('nfev_stiff_detect', 5000)), jac=jac, dim=n)
    F = [c for c in r.init_calls if c.k == 'fun']
    y0 = r.y0
    ev = [dict(k='init', n=len(F), nfev=r.init_counts[0], at0=sum(c.t == p['t0'] for c in F),
               nj=sum(c.k == 'jac' for c in r.init_calls), njev=r.init_counts[1], rej=r.nfs0)]
    seen = {(c.t, c.y.tobytes()) for c in r.init_calls if c.k == 'jac'}
    if es and jac == 'num':
        seen.add((p['t0'], r.y0.tobytes()))
    for st in r.steps:
        if st.exc or st.msg is None and st.status == 'running' and not hasattr(st, 'nfs'):
            break
        F = [c for c in st.calls if c.k == 'fun']
        acc = st.status != 'failed'
        at = sum(c.t == st.t for c in F) if not tab else 0
        if m == 'CKdisc' or m == 'SWAG':
            at = 0
        e = dict(k='step', n=len(F), dn=st.nfev, at=at, nj=sum(c.k == 'jac' for c in st.calls), dj=st.njev, acc=acc,
                 full=0, pre=0, xtra=0, bad=False, dr=st.nfs, nan=False,
                 dense=[[len(a), b] for a, b in zip(st.dcalls, st.ddn)])
        e['dup'] = 0
        for c in st.calls:
            if c.k == 'jac':
                key = (c.t, c.y.tobytes())
                e['dup'] += key in seen
                seen.add(key)
        if es and jac == 'num' and at:
            key = (st.t, np.asarray(st.y).tobytes())
            e['dup'] += key in seen
            seen.add(key)
        if not acc:
            e['nan'] = any(not np.all(np.isfinite(c.f)) for c in F) or 'flow' in (st.msg or '')
        if tab:
            att, extra, bad = split(tab, r, st, F, acc, p['tb'])
            e.update(full=att.count('full'), pre=att.count('pre'), bad=bad,
                     xtra=max(0, extra - (0 if tab.fsal else 1)) if acc else 0)
        ev.append(e)
    return dict(cfg=cfg, ev=ev)


def split(tab, r, st, calls, acc, tb):
    ps = Parser(tab, st.t, r.direction, tb)
    full, prec = tab.nodes, tab.nodes[:tab.pre[0] - 1] if tab.pre else None
    pos, att = 0, []
    while pos < len(calls):
        rest = calls[pos:]
        h = ps.match(rest, full)
        if h is not None:
            att.append('full')
            pos += len(full)
            if acc and abs(st.t + h - st.t1) <= 2*np.spacing(max(abs(st.t), abs(st.t1))) and all(
                    abs(c.t - st.t1) <= 2*np.spacing(abs(st.t1)) for c in calls[pos:]):
                break
            continue
        if prec is not None and ps.match(rest, prec) is not None:
            att.append('pre')
            pos += len(prec)
            continue
        return att, 0, True
    return att, len(calls) - pos, False
