"""C02: limits are honoured (life cycle specification) and do nothing when they do not bind (paired runs)"""
import numpy as np
from .. import scen, lock, rec
from ..base import pmap, THOROUGH, rng
from .lifecommon import check as life


def job(s):
    m, k = s['method'], s['transform']
    p, o = scen.build(dict(s, form=None))
    o.pop('vectorized', None)
    sp = abs(p['tb'] - p['t0'])
    o2 = dict(o)
    if k == 'max_step':
        o.pop('max_step', None)
        o2['max_step'] = s['factor']*sp
    else:                               # giving the step that would have been chosen anyway
        o.pop('first_step', None)
        with np.errstate(all='ignore'):
            try:
                h = rec.cls(m)(p['fun'], p['t0'], p['y0'], p['tb'], **o).h_abs
            except Exception:
                return None
        if not 2e4*np.spacing(max(abs(p['t0']), abs(p['tb']))) < h <= sp:
            return None
        o2['first_step'] = float(h)
    lim = dict(lock.EXACT, cn=lock.EXACT['cn'])
    r = lock.pair(m, p, o, lock.Twin(p, o2), 'limit.' + k, lim, dense=scen.dense_of(s), max_steps=60)
    if k == 'first_step':
        r['ev'][0]['dn'] = 0            # the start itself costs less
    return r


def check(c):
    life(c, r'limit\..*')
    S = []
    for i, s in enumerate(scen.any_random(1500*(8 if THOROUGH else 1), 'C02p', forms=0.)):
        g = rng('C02t', i)
        if s['method'] == 'SSV2stab':
            continue                   # its smallest increment is defined relative to max_step
        S.append(dict(s, transform=g.choice(['max_step', 'max_step', 'first_step']), factor=g.choice([20., 1e3, 1e9])))
    T = pmap(job, S, chunksize=8)
    c.validate('Lockstep', T, S, sig=lambda x, n, t, e: f'Lockstep/{x}/{n["transform"]}/{n["method"]}')
    c.need('Lockstep.limit.max_step', 'Lockstep.limit.first_step', 'Lockstep.limit.max_step.rejected')
