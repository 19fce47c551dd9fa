"""C22: stages, spectral radius and step size of SSV2stab, decided by MCRkc.tla / TraceRkc.tla"""
from .. import scen, rkc
from ..base import pmap, THOROUGH, rng


def job(s):
    r = scen.record(s)
    if r.init_exc is not None or r.hang or any(x.exc for x in r.steps):
        return None
    return rkc.project(r)


def check(c):
    for k in ('', '_c', '_u', '_cu'):
        c.mc('MCRkc', f'MCRkc{k}.cfg')
    # few stages at tight relative tolerances: the stage limit, and the warning
    L = [dict(method='SSV2stab', problem=pn, mirror=i % 2 == 1, max_steps=60,
              opts=dict(rtol=10.**-q, atol=10.**-a, **({'rho_jac': True} if i % 3 else {}), **({'const_jac': True} if i == 4 and pn in scen.LINEAR else {})))
         for i, q in enumerate((10, 11, 12, 13, 13.5)) for a in (1, 2, 4) for pn in ('prot', 'heat', 'adr', 'stiff1', 'brus')]
    S = L + scen.any_random(1500*(8 if THOROUGH else 1), 'C22', methods=['SSV2stab'])
    T = pmap(job, S, chunksize=8)
    c.validate('TraceRkc', T, S)
    c.need(*['TraceRkc.rkc.' + x for x in 'rho.none rho.user rho.power init rejected oldestimate capped two many twentyfive nan const '
             'warned fail'.split()])
