"""C27: the automatic first step, decided by MCHStart.tla / TraceHStart.tla"""
from .. import hst, rec
from ..base import pmap, THOROUGH, rng

FAMS = ['zero', 'const', 'ramp', 'linear', 'rest', 'generic']


def scenario(m, fam, k):
    g = rng('C27', m, fam, k)
    rtol = 10.**-g.choice([3, 4, 6, 8, 10])
    s = dict(name=m, fam=fam, seed=[m, fam, k], n=g.choice([1, 1, 2, 3]), rtol=rtol, atol=rtol*g.choice([1., 1e-3]), ly=g.choice([0, 0, 10, -10, 30]),
             lt=g.choice([0, 0, 5, -5, 20, -20]), a=g.choice([0., 0., 1., -3., 100.]), len=g.choice([1., 8., 100.]), back=g.random() < .4, fast=1.,
             cplx=g.random() < .3, vec=g.random() < .2, maxs=g.choice([None, None, .25, 3.]), M=g.random() < .3, dae=g.random() < .3, pairs=True)
    if fam == 'generic':
        s.update(ly=g.choice([0, 0, 6, -6]), len=g.choice([8., 100.]), dae=False, a=g.choice([0., 0., 1., -3.]))
    if m == 'SSV2stab':
        s['vec'] = False
    if s['dae'] and m in rec.ESDIRK:
        s['n'] = 1
    return s


def check(c):
    c.mc('MCHStart')
    n = 8*(8 if THOROUGH else 1)
    S = [scenario(m, f, k) for m in rec.ALL for f in FAMS for k in range(n if f != 'generic' else 2*n) if f == 'generic' or m not in rec.NYSTROM]
    S += [dict(scenario(m, 'linear', 0), cplx=False, vec=False, M=False, dae=False, n=1, lt=0, ly=0, a=0., maxs=None, coupled=100., pairs=False, len=10., rtol=1e-6, atol=1e-9, back=False)
          for m in rec.ESDIRK]
    T = pmap(hst.project, S, chunksize=8)
    c.validate('TraceHStart', T, S, sig=lambda x, n, t, e: f'{x}/{"coupled" if "coupled" in n else n["fam"]}/{n["name"]}')
    c.need(*[f'TraceHStart.{m}.{f}' for m in rec.ALL for f in FAMS if f == 'generic' or m not in rec.NYSTROM], 'TraceHStart.capped', 'TraceHStart.inside',
           *[f'TraceHStart.pair.{w}.{m}' for m in rec.ALL for w in 'repeat mirror timescale tighter longer faster'.split() if w not in ('faster', 'timescale') or m not in rec.NYSTROM])
