"""C11, C12: several solvers at once; the behaviours of Isolation.tla are replayed"""
import re
from .. import iso, rec
from ..base import pmap, THOROUGH, rng, NPROC


def fresh(f, xs):
    """each job in a process in which no solver has been created before"""
    import multiprocessing as mp
    from ..base import _init_worker
    with mp.get_context('fork').Pool(NPROC, _init_worker, maxtasksperchild=1) as p:
        return p.map(f, xs, 1)


def check(c, clauses):
    r = c.mc('Isolation', 'Isolation_t.cfg' if THOROUGH else 'Isolation.cfg')
    two = iso.parse(r.lines)
    three = iso.parse(c.mc('Isolation', 'Isolation3.cfg').lines)
    # behaviours in which something can influence something else
    two = [s for s in two if len({i for _, i in s}) == 2]
    three = [s for s in three if len({i for _, i in s}) == 3]
    slots = iso.slots()
    refs = {}
    keys = [(k, w) for k in range(len(slots)) for w in (1, 4)]
    for k, x in zip(keys, fresh(iso.alone, [(slots[k], w, 3) for k, w in keys])):
        if x is not None:
            refs[k] = x
    jobs, names = [], []
    g = rng('iso')
    n = (900 if THOROUGH else 330)
    good = sorted({k for k, w in refs if w == 1})
    bym = {}
    for k in good:
        bym.setdefault(slots[k]['method'], []).append(k)
    for q in range(n):
        w = g.choice([1, 1, 4])
        ks = []
        if q % 3 == 0:                       # two of the same class
            m = sorted(bym)[(q//3) % len(bym)]
            ks = g.sample(bym[m], 2) if len(bym[m]) > 1 else bym[m]*2
        else:
            ks = [g.choice(good), g.choice(good)]
        k3 = q % 6 == 5
        if k3:
            ks.append(g.choice(good))
        if any((k, w) not in refs for k in ks):
            w = 1
        sc = g.sample(three if k3 else two, 24)
        jobs.append(([slots[k] for k in ks], [refs[k, w] for k in ks], w, sc))
    T, names = [], []
    for j, out in zip(jobs, fresh(iso.replay, jobs)):
        for sc, t in zip(j[3], out):
            T.append(t)
            names.append(dict(method='+'.join(s['method'] for s in j[0]), slots=j[0], stride=j[2], script=[list(x) for x in sc]))
    c.validate('TraceIsolation', T, names, clauses,
               sig=lambda x, n, t, e: f'TraceIsolation/{x}/{n["slots"][t["ev"][e]["i"] - 1]["method"]}')
    c.extra['interleavings'] = len(two) + len(three)
    c.need(*['TraceIsolation.' + x for x in ('again', 'switch.step', 'switch.dense', 'switch.eval', 'rejected',
                                             'reset.nonzero', 'sameclass')])
