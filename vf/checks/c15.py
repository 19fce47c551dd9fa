"""C15: units of state and time"""
import numpy as np
from .. import scen, lock, rec, problems
from ..base import pmap, THOROUGH, rng


def job(s):
    m, k, e = s['method'], s['transform'], s['power']
    lim = lock.EXACT
    ms = 60
    es = m in rec.ESDIRK
    if es and 'jac' not in s['opts']:
        s = dict(s, opts=dict(s['opts'], jac='fun'))
    if m == 'SSV2stab' and not s['opts'].get('rho_jac') and not np.any(problems.make(s['problem'])['y0']):
        s = dict(s, opts=dict(s['opts'], rho_jac=True))
    p, o, tw = (lock.units if k == 'state' else lock.time_units)(s, e)
    if 'first_step' not in o:
        # the automatic first step (Watts' HSTART) is not scale invariant by its published definition
        h = min(abs(p['tb'] - p['t0'])/64, o.get('max_step', np.inf))
        o['first_step'] = h
        tw.o['first_step'] = h*2.**e if k == 'time' else h
    return lock.pair(m, p, o, tw, 'units.' + k, lim, dense=scen.dense_of(s), max_steps=ms)


def check(c):
    S = []
    for i, s in enumerate(scen.any_random(3600*(8 if THOROUGH else 1), 'C15')):
        g = rng('C15t', i)
        k = g.choice(['state', 'time'])
        e = g.choice([-20, -7, -1, 1, 4, 10, 30] + [-60, 55]*(k == 'state'))
        if s.get('span', 1) < 1e-2:
            s.pop('span')
            for q in ('first_step', 'max_step'):
                s['opts'].pop(q, None)
        if 'atol' not in s['opts']:
            s['opts']['atol'] = 1e-6
        if k == 'time' and s['method'] in rec.NYSTROM:
            s.pop('form', None)
        S.append(dict(s, transform=k, power=e))
    T = pmap(job, S, chunksize=8)
    c.validate('Lockstep', T, S, sig=lambda x, n, t, e: f'Lockstep/{x}/{n["transform"]}/{n["method"]}')
    c.need('Lockstep.units.state', 'Lockstep.units.time', 'Lockstep.units.state.rejected', 'Lockstep.units.time.rejected')
