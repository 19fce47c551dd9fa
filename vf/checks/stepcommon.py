"""C05, C06, C07: the step loop of the explicit embedded methods, decided by StepControl.tla"""
from .. import scen, scripts, tab, rec, margin
from ..base import pmap, THOROUGH
from . import esdcommon


def job(s):
    r = scen.record(s)
    if r.init_exc is not None or r.hang:
        return None
    return tab.project(r)


def sjob(a):
    m, cl, lim, tb, d, sc, cx = a
    r = scripts.run_script(m, cl, lim, tb, d, sc, cx)
    if r.init_exc is not None or r.hang:
        return None
    return tab.project(r, pure=False)


def script_jobs(c, methods):
    four = '4' if THOROUGH else ''
    s1 = scripts.parse(c.mc('MCController', f'MCController_rk{four}.cfg').lines)
    s2 = scripts.parse(c.mc('MCController', f'MCController_rkpre{four}.cfg').lines)
    J = []
    ends = [(1e9, 1), (3., -1), (1.7, 1), (1e9, -1), (11., 1)]
    scs = [None, 'S', 'G', 'standard', (.6, -.2, -.1, .85)]
    for m in methods:
        for i, (lim, cl) in enumerate(s2 if m in ('BS5', 'CFMR7osc') else s1):
            # vary end, direction and controller over the scripts (all combinations are visited by the random ones)
            tb, d = ends[i % 5] if i % 3 else (1e9, 1)
            J.append((m, cl, lim, tb, d, scs[(i//7) % 5], i % 11 == 0))
    return J


def check(c, clauses, nrandom=1500, scripts_on=True, sig=None, implicit=None):
    if implicit:
        esdcommon.check(c, implicit, 400)
    if THOROUGH:
        c.mc('MCController', 'MCController_rk_t.cfg')
        c.mc('MCController', 'MCController_esdirk_t.cfg')
    S = scen.explicit_core() + scen.explicit_random(nrandom*(8 if THOROUGH else 1), c.prop)
    T = pmap(job, S, chunksize=8)
    c.validate('StepControl', T, S, clauses, sig=sig)
    if scripts_on:
        S = margin.scenarios(rec.EMBEDDED + rec.NYSTROM, 8 if THOROUGH else 2)
        T = pmap(margin.traces, S, chunksize=2)
        c.validate('StepControl', [t for x in T for t in x], [s for s, x in zip(S, T) for t in x], clauses, sig=sig)
        J = script_jobs(c, rec.EMBEDDED + rec.NYSTROM)
        T = pmap(sjob, J, chunksize=50)
        N = [dict(method=j[0], script=''.join(j[1]), limited=j[2], tb=j[3], direction=j[4], sc=j[5], cplx=j[6]) for j in J]
        c.validate('StepControl', T, N, clauses, sig=sig)
    c.extra['scripts_replayed'] = c.extra.get('scripts_replayed', 0) + (len(J) if scripts_on else 0)
    c.need(*['StepControl.' + t for t in ('acc.first', 'acc.second', 'acc.tiny', 'acc.afterrej', 'rej.full', 'rej.pre',
                                          'rej.nan', 'rej.minfactor', 'rej.again', 'at.max', 'lookahead', 'last',
                                          'reduced', 'unreduced', 'fail.over')])
    c.assumptions += ['reference coefficients (vf/golden.json) are those of the publications',
                      'quantities are compared as fixed-point base-2 logarithms with interval rounding (2^-14 octave)']
