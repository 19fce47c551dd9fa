"""C13: mirrored integration"""
import numpy as np
from .. import scen, lock, rec
from ..base import pmap, THOROUGH


def job(s):
    p, o, tw = lock.mirror(s)
    f0 = np.asarray(p['fun'](p['t0'], p['y0']))
    if 'first_step' not in o and np.any(f0 == 0):
        # the estimate of the first step perturbs null components in the direction of time: only almost symmetric
        h = min(abs(p['tb'] - p['t0'])/300, o.get('max_step', np.inf))
        o['first_step'] = tw.o['first_step'] = h
    lim = lock.EXACT
    ms = 60
    if s['method'] in rec.ESDIRK and o.get('jac') is None and p['jac'] is not None:
        # differences for the Jacobian are taken in the direction of f (not mirrored exactly): supply it
        o['jac'], tw.o['jac'] = p['jac'], tw.p['jac']
    if s['method'] == 'SSV2stab' and not o.get('rho_jac'):
        lim, ms = dict(lock.LOOSE, tt=-4, ty=200, td=200), 5        # the same holds for the spectral radius
    return lock.pair(s['method'], p, o, tw, 'mirror', lim, dense=scen.dense_of(s), max_steps=ms)


def check(c):
    S = []
    for m in rec.ALL:
        for i, pn in enumerate(scen.probs_for(m)):
            for k, o in enumerate(({}, {'rtol': 1e-6, 'atol': 1e-9})):
                if m in rec.ESDIRK and k:
                    o = dict(o, jac='fun')
                S.append(dict(method=m, problem=pn, opts=o, dense=1 + (i + k) % 3))
    S += [dict(s, mirror=False) for s in scen.any_random(3600*(8 if THOROUGH else 1), 'C13')]
    T = pmap(job, S, chunksize=8)
    c.validate('Lockstep', T, S)
    c.need('Lockstep.mirror.rejected', 'Lockstep.mirror.failed')
