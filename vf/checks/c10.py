"""C10: observing a solution never changes it"""
import numpy as np
from .. import scen, rec, dense, lock
from ..base import pmap, THOROUGH
from . import c09


class Nosy:
    """evaluates what it gets and spoils the results and everything public that can be read"""
    def __init__(self, how):
        self.how, self.kept = how, []

    def __call__(self, s, st, i):
        if st.status == 'failed':
            return
        n = {'once': 1, 'twice': 2, 'odd': i % 2, 'late': i > 4}[self.how[0]]
        for _ in range(n):
            d = s.dense_output()
            self.kept.append(d)
            for q in self.kept[-3:]:
                v = q(np.linspace(q.t_min, q.t_max, 5))
                v[...] = np.nan
                v = q(.5*(q.t_min + q.t_max))
                v[...] = np.nan
        if self.how[1]:
            s.step_size, s.t_old, s.direction, s.nfev, s.status
            getattr(s, 'h_previous', None), getattr(s, 'h_abs', None)


def job(s):
    p, o = scen.build(s)
    kw = dict(max_steps=60)
    a = rec.run(s['method'], p, o, **kw)
    b = rec.run(s['method'], p, o, on_step=Nosy(s['how']), **kw)
    t = lock.compare(a, b, lock.Twin(p, o), 'observed', dict(lock.EXACT, cn=False))
    # the observed run may spend evaluations on the interpolants, but none in the steps
    for e, q, w in zip(t['ev'][1:], a.steps, b.steps):
        if e['k'] == 'step':
            e['dn'] = q.nfev - w.nfev + len(q.calls) - len(w.calls)
    t['cfg']['cn'] = True
    return t


def check(c):
    c09.run(c, 1500, 2400, r'(frozen|observer|again|ivp\.(steps|teval|times)).*')
    S = [dict(s, how=[('once', 'twice', 'odd', 'late')[i//21 % 4], i % 2], dense=None)
         for i, s in enumerate(scen.any_random(2000*(8 if THOROUGH else 1), 'C10o'))
         if not (s['method'] == 'Fi5N' and s['opts'].get('interpolant') == 1)]
    c.validate('Lockstep', pmap(job, S, chunksize=8), S)
    c.need('Lockstep.observed', 'Lockstep.observed.rejected', 'Lockstep.observed.failed', 'Lockstep.observed.identical')
