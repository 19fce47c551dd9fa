"""C14: the representation of a problem does not matter"""
import numpy as np
from scipy.sparse import csr_array, csc_array, csr_matrix
from .. import scen, lock, rec
from ..base import pmap, THOROUGH, rng

PHASE = ['decay', 'osc', 'prot', 'heat', 'zero', 'so_osc', 'so_kepler', 'so_zero']
SMOOTH = ['decay', 'osc', 'vdp', 'lotka', 'brus', 'five', 'heat', 'adr', 'so_osc', 'so_duff', 'so_kepler', 'so_one',
          'so_damp', 'so_vdp']


def div(m):
    """a start whose error is above rounding level"""
    return 8 if m in ('Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'MR6NN', 'CKdisc') else 25


def job(s):
    m, k = s['method'], s['transform']
    lim = lock.EXACT
    ms = 60
    es = m in rec.ESDIRK
    if es and 'jac' not in s['opts'] and (k != 'form' or s['form2'] == 'vectorized'):
        s = dict(s, opts=dict(s['opts'], jac='fun'))
    if m == 'SSV2stab' and k == 'permute':
        s = dict(s, opts=dict(s['opts'], rho_jac=True))
    if k == 'form':
        p, o, tw = lock.form(s, s['form2'])
    elif k == 'complex':
        p, o, tw = lock.complexify(s)
        lim = lock.ROUND
    elif k == 'phase':
        p, o, tw = lock.complexify(s, np.exp(1j*s['phase']))
        if isinstance(o.get('atol', 0.), np.ndarray):
            o['atol'] = tw.o['atol'] = 1e-6
        lim = lock.ROUND
    elif k == 'atol':
        p, o, tw = lock.atol_vector(s)
    elif k == 'permute':
        p, o, tw = lock.permute(s, s['seed'])
        lim = lock.ROUND
    elif k == 'sparse':
        p, o = scen.build(s)
        f = {'csr': csr_array, 'csc': csc_array, 'csrm': csr_matrix}[s['fmt']]
        j = o['jac']
        o2 = dict(o, jac=(lambda t, y: f(j(t, y))) if callable(j) else f(j))
        tw = lock.Twin(p, o2)
        lim = lock.ROUND
    if k in ('complex', 'phase', 'permute', 'sparse') and 'first_step' not in o:
        f0 = np.asarray(p['fun'](p['t0'], p['y0']))
        if k != 'sparse' and (np.any(f0 == 0) or k == 'phase'):
            # the estimate of the first step perturbs null components / uses signs of components
            o['first_step'] = tw.o['first_step'] = min(abs(p['tb'] - p['t0'])/div(m), o.get('max_step', np.inf))
    if es and lim is lock.ROUND:
        lim = dict(lim, cn=False)       # the number of iterations may depend on rounding
    return lock.pair(m, p, o, tw, k, lim, dense=scen.dense_of(s), max_steps=ms)


def check(c):
    S = []
    n = 3000*(8 if THOROUGH else 1)
    for i, s in enumerate(scen.any_random(n, 'C14', cplx=0., forms=0.)):
        g = rng('C14t', i)
        m, pn = s['method'], s['problem']
        ks = ['form', 'form', 'atol', 'permute']
        if m not in rec.REAL_ONLY:
            ks += ['complex']
            if pn in PHASE:
                ks += ['phase']*4
        if m in rec.ESDIRK and 'jac' in s['opts']:
            ks += ['sparse']*3
        k = g.choice(ks)
        s = dict(s, transform=k)
        if k == 'form':
            s['form2'] = g.choice(['list', 'tuple', 'vectorized'])
        if k == 'phase':
            s['phase'] = g.choice([np.pi/2, -np.pi/2, np.pi, 1., 2.2])
        if k == 'sparse':
            s['fmt'] = g.choice(['csr', 'csc', 'csrm'])
        if k == 'permute':
            s['seed'] = g.randrange(1000)
        # rounding differences must not be amplified: smooth problems, no noise-level errors
        if k in ('complex', 'phase', 'permute', 'sparse'):
            o = dict(s['opts'])
            if pn not in SMOOTH or m in rec.ESDIRK and pn not in ('vdp', 'lotka', 'brus') or k == 'phase' and pn == 'heat':
                so = m in rec.NYSTROM
                pn = g.choice((['so_osc', 'so_kepler'] if so else ['decay', 'osc']) if k == 'phase' else
                              ['so_osc', 'so_duff', 'so_kepler'] if so else
                              ['lotka', 'brus', 'vdp'] if m in rec.ESDIRK else
                              ['lotka', 'brus', 'adr'] if m == 'SSV2stab' else
                              ['decay', 'lotka', 'brus', 'vdp', 'five', 'osc'])
                for q in ('first_step', 'max_step', 'const_jac'):
                    o.pop(q, None)
                if o.get('jac') == 'array':
                    o['jac'] = 'fun'
                s.pop('span', None)
                s.pop('shift', None)
            sp = scen.base_span(pn)
            if o.get('first_step', sp) < sp/div(m):
                o['first_step'] = sp/div(m)
            o['rtol'] = min(max(o.get('rtol', 1e-3), 1e-6), 1e-3)
            if not isinstance(o.get('atol', 1e-6), str):
                o['atol'] = max(o.get('atol', 1e-6), 1e-8)
            if s.get('span', 1) < 1e-2:
                s.pop('span')
                for q in ('first_step', 'max_step'):
                    o.pop(q, None)
            if s.get('shift') == 1000.:
                s.pop('shift')
            if m in rec.ESDIRK and k == 'phase':
                o['jac'] = 'array'          # linear problems: no iterations that depend on rounding
                o.pop('jac_each_step', None)
            s = dict(s, problem=pn, opts=o)
        S.append(s)
    T = pmap(job, S, chunksize=8)
    c.validate('Lockstep', T, S, sig=lambda x, n, t, e: f'Lockstep/{x}/{n["transform"]}/{n["method"]}')
    c.need(*['Lockstep.' + k for k in ('form', 'complex', 'phase', 'atol', 'permute', 'sparse')])
