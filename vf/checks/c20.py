"""C20: the quit and fallback strategy of CKdisc, decided by MCCK.tla / TraceCK.tla"""
from .. import scen, ck
from ..base import pmap, THOROUGH


def job(s):
    r = scen.record(s)
    if r.init_exc is not None or r.hang or any(x.exc for x in r.steps):
        return None
    return ck.project(r)


def sjob(a):
    r = ck.run_script(*a)
    if r.init_exc is not None or r.hang:
        return None
    return ck.project(r, pure=False)


def check(c):
    c.mc('MCCK', 'MCCK_t.cfg' if THOROUGH else 'MCCK_v.cfg')
    sc = ck.parse(c.mc('MCCK').lines)
    s3 = ck.parse(c.mc('MCCK', 'MCCK_3.cfg').lines)
    J = [(s, 1 - 2*(i % 2)) for i, s in enumerate(sc + (s3 if THOROUGH else s3[::4]))]
    T = pmap(sjob, J, chunksize=50)
    c.validate('TraceCK', T, [dict(method='CKdisc', script=list(j[0]), direction=j[1]) for j in J])
    c.extra['scripts_replayed'] = len(J)
    S = scen.any_random(2500*(8 if THOROUGH else 1), 'C20', methods=['CKdisc'])
    T = pmap(job, S, chunksize=8)
    c.validate('TraceCK', T, S)
    c.need(*['TraceCK.ck.' + x for x in ('acc5.5', 'acc3.5', 'acc2.3', 'acc2.5', 'rej.1', 'rej.3', 'rej.5',
                                         'acc.afterrej', 'twiddle', 'quit.twiddled', 'qmax', 'qmin', 'nan', 'fail')])
    c.assumptions += ['the coefficients in vf/ck.py are those of Cash & Karp (1990)']
