"""C24: sensitivities, decided by MCSens.tla (duality of forward and adjoint recursions, course of a call) and TraceSens.tla"""
import re
from .. import sens, rec
from ..base import pmap, THOROUGH, rng

METHODS = [m for m in rec.ALL if m not in rec.NYSTROM and m != 'MR6NN'] + sens.SCIPY


def scenario(m, fn, w, given, inject, k):
    g = rng('C24', m, fn, w, given, inject, k)
    rtol = 10.**-g.choice([3, 4, 5, 6] if m in ('TRBDF2', 'TRX2', 'HS2I', 'HS2Ia', 'SSV2stab', 'KC3I', 'Kv3I') else [3, 4, 6, 8])
    return dict(name=m, fn=fn, w=w, given=given, inject=inject, seed=[m, fn, w, given, inject, k], rtol=rtol, atol=rtol*g.choice([1., .1]),
                ny=g.choice([1, 2, 3, 4]), np=g.choice([1, 1, 2, 3]), back=g.random() < .4, pz=g.random() < .3, nfail=g.choice([1, 2, 3]),
                atolform=g.choice(['float', 'array', 'list', 'tuple', 'float']), lists=g.choice([0, 0, 1, 2]), approx=g.random() < .25,
                dense=g.random() < .4, te=g.choice([0, 0, 1, 2]))


def check(c):
    R = set()
    for l in c.mc('MCSens').lines:
        x = re.search(r'ROW (\w+) (\w+) (TRUE|FALSE)', l)
        if x:
            R.add((x[1], x[2], x[3] == 'TRUE'))
    c.mc('MCSens', 'MCSens_2.cfg')
    if THOROUGH:
        c.mc('MCSens', 'MCSens_5.cfg')
        c.mc('MCSens', 'MCSens_t.cfg')
    n = 6 if THOROUGH else 1
    S = []
    for fn, w, given in sorted(R):
        for m in METHODS:
            if w == 'none':
                S += [scenario(m, fn, w, given, 'none', k) for k in range((3 if given else 5)*n)]
            elif rng('C24f', m, fn, w, given).random() < .12*n or m in ('BS5', 'Radau'):
                S.append(scenario(m, fn, w, given, 'none', 0))
            if w == 'none' and m not in sens.SCIPY:
                S += [scenario(m, fn, w, given, i, k) for i in ('fw', 'bw') for k in range(n) if not (i == 'fw' and given or i == 'bw' and fn == 'forward')]
            if w == 'none' and not given and m not in ('SSV2stab', 'LSODA'):
                S += [scenario(m, fn, w, given, 'blowup', 0)]
    T = pmap(sens.project, S, chunksize=4)
    S = [s for s, t in zip(S, T) if t]
    T = [t for t in T if t]
    c.validate('TraceSens', T, S, sig=lambda x, n, t, e: f'{x}:{n["fn"]}:{n["name"]}')
    c.need(*['TraceSens.method.' + m for m in METHODS], *[f'TraceSens.{x}.{fn}' for x in 'result back np1 ny1 zero history'.split() for fn in
           ('forward', 'end', 'int')], 'TraceSens.given.end', 'TraceSens.given.int', 'TraceSens.failed.forward.fw', 'TraceSens.failed.end.fw',
           'TraceSens.failed.end.bw', 'TraceSens.failed.int.bw', 'TraceSens.failed.end.blowup', 'TraceSens.failed.forward.blowup',
           *[f'TraceSens.atol.{fn}.{x}' for fn in ('forward', 'end', 'int') for x in 'float array list tuple'.split()],
           *sorted({f'TraceSens.refused.{fn}.{w}' for fn, w, _ in R if w != 'none'}))
