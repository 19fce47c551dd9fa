"""C19: which problems the Nystrom methods take, and that they solve them, decided by MCNystrom.tla / TraceNystrom.tla"""
import re
from .. import nys, rec
from ..base import pmap, THOROUGH, rng


def rows(c):
    R = []
    for x in [l for l in c.mc('MCNystrom').lines if l.startswith('ROW')]:
        d = {k: v.strip('"') for k, v in re.findall(r'(\w+) \|-> ("\w+"|TRUE|FALSE)', x)}
        d['odd'] = d['odd'] == 'TRUE'
        R.append((x.split()[1], d))
    return sorted(R, key=repr)


def scenario(m, q, k):
    g = rng('C19', m, repr(q), k)
    rtol = 10.**-g.choice([2, 3, 4, 6, 8])
    s = dict(method=m, p=q, seed=[m, repr(q), k], n=g.choice([1, 1, 2, 3]), rtol=rtol, atol=rtol*g.choice([1e-3, 1e-1, 1.]),
             mirror=g.random() < .4, t0=g.choice([0., 0., 1., -2.]))
    if m == 'Fi5N':
        s['interpolant'] = g.choice([0, 1, 2, 3])
    if m == 'Mu5Nmb' and g.random() < .5:
        s['interpolant'] = 'free'
    if g.random() < .2:
        s['first_step'] = .01
    return s


def check(c):
    S = [scenario(m, q, k) for m, q in rows(c) for k in range(4*(8 if THOROUGH else 1))]
    T = pmap(nys.project, S, chunksize=8)
    c.validate('TraceNystrom', T, S)
    c.need(*[f'TraceNystrom.{m}.{x}' for m in rec.NYSTROM for x in 'accepted refused first.v first.x first.twice first.plus first.last first.swapped'.split()],
           *['TraceNystrom.' + x for x in 'odd compared accel.pos accel.vlin accel.vquad accel.const start.generic start.equal start.zeros start.rest '
             'start.origin form.array form.list form.tuple form.vectorized form.complex form.ints'.split()])
