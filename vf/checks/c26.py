"""C26: orders of methods and interpolants, and proportionality to the tolerance, decided by MCOrder.tla / TraceOrder.tla"""
from .. import order, rec
from ..base import pmap, THOROUGH, rng

ITS = {'BS5': ['best', 'low', 'free'], 'Fi5N': [0, 1, 2, 3], 'Mu5Nmb': ['better', 'free'], 'KC3I': ['C0', 'C1'], 'KC4I': ['C0', 'C1'],
       'KC4Ia': ['C0', 'C1'], 'Kv3I': ['C0', 'C1']}


def scenario(m, it, kind, what, k):
    g = rng('C26', m, it, kind, what, k)
    s = dict(name=m, kind=kind, what=what, seed=[m, repr(it), kind, what, k], n=g.choice([2, 3, 4]), cplx=m not in rec.REAL_ONLY and g.random() < .4,
             back=g.random() < .4)
    if it is not None:
        s['interpolant'] = it
    if what == 'ladder':
        s.update(problems=8, levels=7, h0=.4 if m in rec.ESDIRK or m in ('SSV2stab', 'Me4') else 1. if m not in ('Pr8', 'Pr9', 'MR6NN') else 1.6)
    else:
        s.update(lo=3, hi=9 if m not in ('TRBDF2', 'TRX2', 'SSV2stab', 'KC3I', 'Kv3I') else 7)
    return s


def check(c):
    c.mc('MCOrder')
    n = 6 if THOROUGH else 1
    S = []
    for m in rec.ALL:
        for it in ITS.get(m, [None]):
            S += [scenario(m, it, kind, 'ladder', k) for kind in ('full', 'timevar', 'linear', 'forced', 'auto') for k in range(n) if m != 'SWAG']
            S += [scenario(m, it, kind, 'tols', k) for kind in ('full', 'auto') for k in range(n)]
    T = pmap(order.project, S, chunksize=1)
    c.validate('TraceOrder', T, S, sig=lambda x, n, t, e: f'{x}/{n["kind"]}/{n["name"]}{n.get("interpolant", "")}')
    c.need(*['TraceOrder.step.' + m for m in rec.ALL if m != 'SWAG'], *[f'TraceOrder.dense.{m}{it}' for m in rec.ALL if m != 'SWAG' for it in ITS.get(m, [''])],
           *['TraceOrder.tols.' + m for m in rec.ALL], *['TraceOrder.kind.' + x for x in ('full', 'timevar', 'linear', 'forced', 'auto')])
