"""C21: order and step size selection of SWAG, decided by MCSwag.tla / TraceSwag.tla"""
from .. import scen, swag, rec
from ..base import pmap, THOROUGH
from .lifecommon import Faulty, VAL


def job(s):
    if s.get('fault'):
        p, o = scen.build(s)
        kind, j, k, dur = s['fault']
        f = Faulty(p['fun'], kind, j, k, dur, p['so'])
        p['fun'] = f
        r = rec.run('SWAG', p, o, max_steps=40, on_init=f.start, on_step=f.after)
        pure = False
    else:
        r = scen.record(s)
        pure = True
    if r.init_exc is not None or r.hang or any(x.exc for x in r.steps):
        return None
    return swag.project(r, pure)


def faults():
    """misbehaviour at call k of step j for some calls: consecutive failures at every stage of the start-up"""
    out = []
    for pn in ('decay', 'lotka', 'vdp'):
        for kind in ('nan', 'inf', 'big'):
            for j in (0, 1, 2, 4, 7, 12, 20):
                for k in (1, 2):
                    for dur in (1, 2, 3, 4, 5, 7):
                        out.append(dict(method='SWAG', problem=pn, mirror=(j + dur) % 2 == 1, fault=[kind, j, k, dur],
                                        opts=dict(rtol=10.**-(3 + (j + k) % 5), atol=1e-8,
                                                  **({'k_max': (1, 2, 3, 5)[dur % 4]} if (j + dur) % 3 == 0 else {}))))
    return out


def check(c):
    c.mc('MCSwag', 'MCSwag_t.cfg' if THOROUGH else 'MCSwag.cfg')
    c.mc('MCSwag', 'MCSwag1.cfg')
    # a first step ending just before t_bound: the rest is extrapolated
    E = [dict(method='SWAG', problem=pn, opts=dict(first_step=float(scen.base_span(pn)*(1 - 2.3e-16*q)), rtol=1e-2), mirror=q == 1)
         for pn in ('zero', 'const', 'poly') for q in (1, 2, 3)]
    S = E + scen.any_random(1100*(12 if THOROUGH else 1), 'C21', methods=['SWAG']) + faults()
    T = pmap(job, S, chunksize=8)
    c.validate('TraceSwag', T, S)
    c.need(*['TraceSwag.swag.' + x for x in 'k1 kmid kmax raise raise.phase1 lower stay failure third fourth keep double reduce atmax '
             'nan inf ext fail'.split()])
    c.assumptions += ['order and estimates are inferred from the recorded history by interpolation in double precision; '
                      'decisions within rounding of a threshold may go either way']
