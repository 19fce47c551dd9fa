"""C18: mass matrices and DAEs, decided by MCDae.tla / MCDaeAlgebra.tla / TraceDae.tla, and by Lockstep.tla for the ways to write the same
problem"""
import re
import numpy as np
from .. import dae, rec, lock
from ..base import pmap, THOROUGH, rng

ROUND = dict(lock.ROUND, tt=-9, ty=-7, td=-3)


def rows(c):
    R = []
    for x in [l for l in c.mc('MCDae').lines if l.startswith('ROW')]:
        d = dict((k, v.strip('"')) for k, v in re.findall(r'(\w+) \|-> ("\w+"|\d+)', x))
        R.append(dict(form=d['form'], nae=int(d['nae']), index=int(d['index']), start=d['start'], units=d['units']))
    return sorted(R, key=repr)


def scenario(q, k, nonlinear=False):
    """a scenario for the problem class q of Dae.tla"""
    g = rng('C18', repr(q), k)
    nae, form = q['nae'], q['form']
    if q['index'] == 2:
        kind = 'index2'
    elif q['start'] == 'hopeless':
        kind = 'hopeless'
    else:
        kind = g.choice(['linear', 'linear', 'cubic', 'cubic'] + ['kaps']*2*(nae == 1) + ['robertson']*(nae == 1 and q['units'] == 'one'))
    if nonlinear:
        # (linear problems are solved by one iteration, what remains of them is rounding)
        kind = g.choice(['cubic', 'cubic'] + ['kaps']*(nae == 1))
    # units of the algebraic equations can only be told apart from those of the others if the rows of M are not mixed
    if q['units'] != 'one' and form not in ('vec', 'list', 'mat2'):
        return None
    nu = {'kaps': 1, 'robertson': 2}.get(kind) or g.choice([1, 2, 3])
    if nae == 0 and form.startswith('short'):
        nu = 2
    rtol = 10.**-g.choice([2, 3, 4, 5, 6] + [8]*(k % 3 == 0))
    s = dict(method=g.choice(rec.ESDIRK), kind=kind, nu=nu, seed=[repr(q), k], p=q, rtol=rtol, atol=rtol*g.choice([1e-3, 1e-2, 1.]),
             off=g.choice([1e-3, .03, .2] if q['start'] == 'near' else [5, 30, 300, 3000.] + [1e5]*(kind == 'linear')),
             cplx=kind in ('linear', 'cubic') and g.random() < .25, cM=g.random() < .5, mirror=g.random() < .4, ref=True, vatol=g.random() < .3,
             jac=g.choice(['fun', 'sparse'] if kind == 'robertson' else [None, 'sparsity', 'fun', 'sparse'] + ['array', 'sparsearray']*(kind == 'linear')))
    if kind == 'index2' and form not in ('vec', 'list', 'mat2') and s['jac'] in (None, 'sparsity'):
        s['jac'] = 'fun'            # (the index cannot be told from a difference approximation that mixes the equations)
    if s['method'] in ('KC3I', 'KC4I', 'KC4Ia', 'Kv3I') and g.random() < .3:
        s['interpolant'] = 'C1'
    if g.random() < .2:
        s['jac_each_step'] = True
    if g.random() < .2:
        s['first_step'] = 10.**-g.choice([2, 3, 4])
    if g.random() < .2:
        s['max_step'] = .3
    if kind == 'linear' and g.random() < .15:
        s['span'] = .02
    return s


def job(s):
    return dae.project(s)


def twin(s):
    """the same problem written in another way"""
    s = dict(s)
    p = dae.build(s)
    o = dae.options(s, p)
    p['dydt'] = lambda t, y, q=p: dae.slope(q, t, y)
    g = rng('C18t', repr(s['seed']))
    n = p['y0'].size
    k = s['twin']
    if k == 'form':                 # M given in another form; the arithmetic is the same
        import scipy.sparse as sp
        M = p['M']
        o['M'] = M
        alt = [list(map(list, M)), sp.csr_array(M), sp.coo_matrix(M), sp.csc_array(M)] + ([np.diagonal(M).copy()]*2 if not np.any(M - np.diag(np.diagonal(M))) else [])
        return lock.pair(s['method'], p, o, lock.Twin(dict(p), dict(o, M=g.choice(alt))), 'dae.form', ROUND, dense=lambda i: 1, max_steps=12 if s['method'] == 'KC4Ia' else 40)
    if k == 'identity':
        o.pop('M', None)
        return lock.pair(s['method'], p, o, lock.Twin(dict(p), dict(o, M=g.choice([np.eye(n), np.ones(n), [1]*n]))), 'dae.identity', ROUND, dense=lambda i: 1)
    D = np.array([2.**g.choice([-9, -2, -1, 0, 0, 3, 8]) for _ in range(n)])         # rows in other units
    if p['nv'] == 0:
        D = np.array([2.**g.choice([-12, -3, 0, 2, 9]) for _ in range(n)])
    f, j = p['fun'], p['jac']
    p2 = dict(p, fun=lambda t, y: D*f(t, y), jac=lambda t, y: D[:, None]*j(t, y))
    M = np.asarray(p['M'])
    o['M'] = M
    o['jac'] = j
    o.setdefault('first_step', 2.**-10)
    o2 = dict(o, M=D[:, None]*M, jac=p2['jac'])
    return lock.pair(s['method'], p, o, lock.Twin(p2, o2), 'dae.rows', ROUND, dense=lambda i: 1, max_steps=12 if s['method'] == 'KC4Ia' else 40)


def twins():
    S = []
    for i in range(700*(8 if THOROUGH else 1)):
        g = rng('C18p', i)
        k = g.choice(['form', 'identity', 'rows', 'rows'])
        nae = 0 if k == 'identity' else g.choice([0, 1, 2])
        form = 'none' if k == 'identity' else g.choice(['vec', 'mat2'] + ['mat']*(k == 'form' or nae == 0))
        q = dict(form=form, nae=nae, index=1, start='exact', units='one')
        s = scenario(q, 1000 + i, k == 'rows')
        s.pop('max_step', None)
        if k == 'rows':
            s['cplx'] = False
        S.append(dict(s, twin=k, jac='fun' if s['jac'] == 'sparse' else s['jac'], rtol=max(s['rtol'], 1e-6), ref=False))
    return S


def check(c):
    c.mc('MCDaeAlgebra', 'MCDaeAlgebra_7.cfg' if THOROUGH else 'MCDaeAlgebra.cfg', **(dict(timeout=1500) if THOROUGH else {}))
    R = rows(c)
    S = [s for s in (scenario(q, k) for q in R for k in range(5*(8 if THOROUGH else 1))) if s]
    T = pmap(job, S, chunksize=8)
    c.validate('TraceDae', T, S)
    S = twins()
    c.validate('Lockstep', pmap(twin, S, chunksize=8), S, sig=lambda x, n, t, e: f'Lockstep/{x}/{n["twin"]}/{n["method"]}')
    c.need(*['TraceDae.' + x for x in 'form.none form.vec form.list form.mat form.mat2 form.csr form.csc form.coo start.exact start.near start.off '
             'start.hopeless units.small units.large nae0 nae1 nae2 index2 refused slope compared dense'.split()],
           'Lockstep.dae.form', 'Lockstep.dae.identity', 'Lockstep.dae.rows', 'Lockstep.dae.rows.rejected')
