"""C16, C17 (and C05, C06 for the implicit methods): the step loop of the ESDIRK methods, decided by TraceEsdirk.tla"""
from .. import scen, scripts, escripts, esd, rec, margin
from ..base import pmap, THOROUGH

SMOOTH = ('decay', 'osc', 'vdp', 'lotka', 'brus', 'five', 'one', 'stiff1', 'prot', 'heat', 'adr', 'vdp30', 'rob', 'poly', 'riccati')
ROUGH = ('nan_t', 'inf_t', 'nan_y', 'blowup')
KINDS = ('func', 'numeric', 'array', 'each')


def job(s):
    r = scen.record(s, max_steps=60)
    return None if r.trunc or r.hang else esd.project(r, smooth=s['problem'] in SMOOTH)


def sjob(a):
    r = escripts.run_script(*a)
    return None if r.init_exc is not None or r.hang else esd.project(r, smooth=False)


def script_jobs(lines):
    J = []
    for i, (lim, cl) in enumerate(scripts.parse(lines)):
        for k, m in enumerate(rec.ESDIRK):
            x = i + 5*k
            J.append((m, cl, lim, KINDS[x % 4], (.05, .3, .01)[(x//4) % 3], (None, False, True)[(x//12) % 3],
                      (1e9, 3., 1.7, 1e9, 11.)[x % 5], 1 if x % 3 else -1,
                      (None, 'S', 'G', 'standard', (.6, -.2, -.1, .85))[(x//7) % 5]))
    return J


def check(c, clauses, n=1200, need=()):
    L = c.mc('Esdirk', 'Esdirk4.cfg' if THOROUGH else 'Esdirk.cfg')
    if THOROUGH:
        c.mc('Esdirk', 'Esdirk_t.cfg')
    S = [s for s in scen.any_random(int(n*(8 if THOROUGH else 1)/.75), c.prop, methods=rec.ESDIRK, sparse=.2)
         if s['problem'] in SMOOTH + ROUGH]
    c.validate('TraceEsdirk', pmap(job, S, chunksize=4), S, clauses)
    S = margin.scenarios(rec.ESDIRK, 8 if THOROUGH else 2)
    T = pmap(margin.traces, S, chunksize=2)
    c.validate('TraceEsdirk', [t for x in T for t in x], [s for s, x in zip(S, T) for t in x], clauses)
    J = script_jobs(L.lines)
    N = [dict(method=j[0], script=''.join(j[1]), limited=j[2], jac=j[3], g=j[4], late=j[5], tb=j[6], direction=j[7], sc=j[8])
         for j in J]
    c.validate('TraceEsdirk', pmap(sjob, J, chunksize=30), N, clauses)
    c.extra['scripts_replayed'] = len(J)
    c.need(*['TraceEsdirk.' + t for t in need])
    c.assumptions += ['reference coefficients and constants of the methods (vf/golden.json) are those of the documentation',
                      'problems with jumps are not used: their Newton iterations can be read in more than one way']
