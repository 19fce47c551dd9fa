"""C01-C04: the life of an integration, every solver, decided by StepLife.tla / TraceLife.tla"""
import numpy as np
from .. import scen, rec, life
from ..base import pmap, THOROUGH, rng


def job(s):
    kw = {}
    if s.get('fault'):
        return fault_job(s)
    p, o = scen.build(s)
    r = rec.run(s['method'], p, o, dense=scen.dense_of(s), max_steps=s.get('max_steps', 200), after_end=True)
    complete = bool(r.steps) and r.steps[-1].status != 'running'
    return life.project(r, solvable=s['problem'] in scen.SOLVABLE and solvable(s),
                        nonfin=s['problem'] in scen.NONFIN and not s.get('span'))


def solvable(s):
    m, pn, o = s['method'], s['problem'], s['opts']
    # deliberate limits of the methods: an overflow in a (too large first) attempt is final; zero atol with zero solution components; the power method of
    # SSV2stab needs a real dominant eigenvalue; tolerances near rounding
    if o.get('atol') == 0. or o.get('rtol', 1e-3) < 1e-8 or (m == 'SSV2stab') or \
            o.get('first_step', 0.) > scen.base_span(pn)*s.get('span', 1.)/50:
        return False
    return True


VAL = dict(nan=np.nan, inf=np.inf, ninf=-np.inf, big=1e6, huge=1e300)


class Faulty:
    """right-hand side that misbehaves from call k of step j on, for a number of calls"""
    def __init__(self, f, kind, j, k, dur, so):
        self.f, self.kind, self.j, self.k, self.dur, self.so = f, kind, j, k, dur, so
        self.on, self.step, self.n, self.left = False, 0, 0, -1

    def start(self, s):
        self.on, self.step, self.n = True, 0, 0

    def after(self, s, st, i):
        self.step, self.n = i + 1, 0

    def __call__(self, t, y):
        f = np.array(self.f(t, y))
        if self.on:
            self.n += 1
            if self.step == self.j and self.n == self.k and self.left < 0:
                self.left = self.dur
            if self.left > 0:
                self.left -= 1
                h = f.size//2 if self.so else 0
                if self.kind == 'big':
                    f[h:] += VAL['big']*(1 if self.n % 2 else -1)
                elif self.kind == 'huge':
                    f[h:] = VAL['huge']
                else:
                    f[h:] = VAL[self.kind]
        return f


def fault_job(s):
    p, o = scen.build(s)
    kind, j, k, dur = s['fault']
    f = Faulty(p['fun'], kind, j, k, dur, p['so'])
    p['fun'] = f
    r = rec.run(s['method'], p, o, max_steps=60, on_init=f.start, on_step=f.after, after_end=True)
    if s['method'] == 'SSV2stab' and kind in ('big', 'huge'):
        r.hang = False             # an enormous spectral radius asks for hundreds of thousands of stages
    # a right-hand side that stays non-finite must not finish (unless the fault came after its last call)
    return life.project(r, nonfin=kind in ('nan', 'inf', 'ninf') and dur > 10**6 and f.left >= 0 and
                        f.left < dur - 60 and False)


def faults(n):
    out = []
    i = 0
    for m in rec.ALL:
        for kind in VAL:
            for j in (0, 1, 3):
                for k in (1, 2, 3, 5, 8, 13):
                    for dur in (1, 2, 7, 10**7):
                        out.append(dict(method=m, problem='so_duff' if m in rec.NYSTROM else 'lotka',
                                        opts=dict(rtol=1e-4, **({'rho_jac': True} if m == 'SSV2stab' and k % 2 else {})),
                                        mirror=(k + j) % 2 == 1, fault=[kind, j, k, dur]))
                        if m in rec.ESDIRK:
                            out.append(dict(method=m, problem='decay', mirror=(k + j) % 2 == 1, fault=[kind, j, k, dur],
                                            opts=dict(rtol=1e-4, jac=('array', 'fun')[k % 2], jac_each_step=j > 0)))
    if n < len(out):
        g = rng('faults')
        g.shuffle(out)
        out = out[:n]
    return out


def core():
    out = []
    for m in rec.ALL:
        for i, pn in enumerate(scen.probs_for(m)):
            sp = scen.base_span(pn)
            for k, o in enumerate(({}, dict(max_step=sp/7.3, first_step=sp/100), dict(rtol=1e-5, first_step=sp, max_step=sp))):
                out.append(dict(method=m, problem=pn, opts=o, mirror=(i + k) % 2 == 0,
                                **({'shift': [0., -sp, 7.5][k]} if i % 2 else {})))
            out.append(dict(method=m, problem=pn, opts={}, mirror=i % 2 == 0, span=1e-9))
    return out


def ladder():
    """intervals a little longer than a whole number of the largest steps"""
    out = []
    for m in rec.ALL:
        for i, x in enumerate((1.004, 1.03, 1.07, 1.095, 1.15, 1.6)):
            for n in (1, 2, 5, 8):
                pn = 'so_osc' if m in rec.NYSTROM else ('decay', 'osc' if m != 'SSV2stab' else 'decay')[n % 2]
                sp = scen.base_span(pn)*.2
                out.append(dict(method=m, problem=pn, span=.2, mirror=(i + n) % 2 == 0,
                                opts=dict(max_step=sp/(n - 1 + x), rtol=1e-2, atol=1e-2,
                                          **({'first_step': sp/(n - 1 + x)} if i % 2 else {}))))
    return out


def landing(n):
    """few steps between endpoints of any size and sign: t + (t_bound - t) is often not t_bound"""
    out = []
    for m in rec.ALL:
        for i in range(n):
            g = rng('landing', m, i)
            a, b = (g.choice([-1, 1])*10.**g.uniform(-3, 3) for _ in range(2))
            if g.random() < .3:
                a = g.choice([.1, .3, -.7, 1/3])
            sp = abs(b - a)
            o = g.choice([{}, dict(first_step=sp), dict(first_step=sp*g.uniform(.3, .99)), dict(max_step=sp*g.uniform(.3, .99))])
            out.append(dict(method=m, problem='so_const' if m in rec.NYSTROM else 'const', interval=[a, b], opts=o, cplx=False))
    return out


def check(c, clauses, nrandom=1200, nfault=1500, extra=()):
    c.mc('StepLife', 'StepLife_t.cfg' if THOROUGH else 'StepLife.cfg')
    k = 8 if THOROUGH else 1
    S = core() + ladder() + landing(40*k) + scen.any_random(nrandom*k, c.prop, sparse=.2) + list(extra) + faults(nfault*k if not THOROUGH else 10**9)
    T = pmap(job, S, chunksize=8)
    c.validate('TraceLife', T, S, clauses)
    c.need(*['TraceLife.' + x for x in ('finished', 'failed', 'running', 'onestep', 'survived', 'nf.failed', 'rejected',
                                        'end')])
    return S, T
