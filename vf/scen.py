"""Scenarios: JSON-able descriptions of runs, random but reproducible, and their execution."""
import numpy as np
from scipy.sparse import csc_array
from . import rec, problems
from .base import rng

# cost classes: problems that make order-4 methods take very many steps are kept short by max_steps


def explicit_core(methods=None):
    """deterministic scenarios every explicit method goes through"""
    out = []
    for m in methods or rec.EMBEDDED + rec.NYSTROM:
        for i, pn in enumerate(so_problems(m) if m in rec.NYSTROM else problems.FIRST):
            for k, o in enumerate(({}, {'rtol': 1e-6, 'atol': 1e-9, 'first_step': 1e-4},
                                   {'max_step': .05, 'sc_params': 'S'})):
                out.append(dict(method=m, problem=pn, opts=o, mirror=(i + k) % 2 == 1))
    return out


def so_problems(m):
    return problems.SECOND_NV + (problems.SECOND_V if m != 'MR6NN' else [])


def tol_opts(g):
    o = {}
    if g.random() < .8:
        o['rtol'] = 10.**g.uniform(-9, -2)
    u = g.random()
    if u < .5:
        o['atol'] = 10.**g.uniform(-11, -3)
    elif u < .6:
        o['atol'] = 0.
    elif u < .75:
        o['atol'] = 'vec'        # replaced by build()
    return o


def step_opts(g, span):
    o = {}
    u = g.random()
    if u < .3:
        o['first_step'] = min(span, span*10.**g.uniform(-7, 0))
    elif u < .35:
        o['first_step'] = span
    u = g.random()
    if u < .3:
        o['max_step'] = span*10.**g.uniform(-1.6, .3)
    return o


def sc_opts(g):
    u = g.random()
    if u < .35:
        return {}
    if u < .75:
        return {'sc_params': g.choice(['G', 'S', 'standard'])}
    return {'sc_params': [round(g.uniform(.5, 1.), 2), round(g.uniform(-.5, .2), 2), round(g.choice([0, 0, -.1, -.3]), 2),
                          round(g.uniform(.7, .95), 2)]}


def explicit_random(n, key, methods=None):
    out = []
    ms = methods or rec.EMBEDDED + rec.NYSTROM
    for i in range(n):
        g = rng('explicit', key, i)
        m = ms[i % len(ms)]
        pn = g.choice(so_problems(m) if m in rec.NYSTROM else problems.FIRST + ['vdp', 'five', 'brus', 'lotka'])
        sp = base_span(pn)
        o = dict(tol_opts(g), **step_opts(g, sp), **sc_opts(g))
        u = g.random()
        if u < .3:
            o['nfev_stiff_detect'] = g.choice([0, 1, 7, 20, 50, 100, 1000])
        if m == 'BS5' and g.random() < .7:
            o['interpolant'] = g.choice(['best', 'low', 'free'])
        if m == 'Fi5N' and g.random() < .7:
            o['interpolant'] = g.choice([0, 1, 2, 3])
        if m == 'Mu5Nmb' and g.random() < .5:
            o['interpolant'] = g.choice(['better', 'free'])
        if m == 'Mu5Nmb' and g.random() < .4:
            o['scale_embedded'] = g.choice([True, False])
        s = dict(method=m, problem=pn, opts=o, mirror=g.random() < .5)
        if g.random() < .3:
            s['shift'] = g.choice([-3., 7.5, 1000., -sp/2])
        if g.random() < .25:
            s['cplx'] = True
        if g.random() < .4:
            s['dense'] = g.choice([1, 2, 3])
        if g.random() < .2:
            s['form'] = g.choice(['list', 'tuple', 'vectorized'])
        out.append(s)
    return out


_span = {}


def base_span(pn):
    if pn not in _span:
        p = problems.make(pn)
        _span[pn] = abs(p['tb'] - p['t0'])
    return _span[pn]


def build(s):
    p = problems.make(s['problem'], mirror=s.get('mirror', False), shift=s.get('shift', 0.),
                      cplx=s.get('cplx', False), span=s.get('span', 1.))
    if s.get('interval'):          # (autonomous problems)
        p['t0'], p['tb'] = s['interval']
    o = dict(s.get('opts', {}))
    if o.get('atol') == 'vec':
        o['atol'] = np.array([10.**(-4 - (3*i) % 7) for i in range(p['y0'].size)])
    if isinstance(o.get('sc_params'), list):
        o['sc_params'] = tuple(o['sc_params'])
    if o.get('jac') == 'fun':
        o['jac'] = p['jac']
    elif o.get('jac') == 'array':
        o['jac'] = p['jac'](p['t0'], p['y0'])
    if s.get('sparse') and o.get('jac') is not None:
        j1 = o['jac']
        o['jac'] = (lambda t, y: csc_array(j1(t, y))) if callable(j1) else csc_array(j1)
    if o.get('rho_jac'):
        j0 = p['jac']
        o['rho_jac'] = lambda t, y: float(max(1e-6, 1.02*np.max(np.abs(np.linalg.eigvals(np.nan_to_num(j0(t, y)))))))
    else:
        o.pop('rho_jac', None)
    f0 = p['fun']
    form = s.get('form')
    if form == 'list':
        p['fun'] = lambda t, y: list(f0(t, y))
    elif form == 'tuple':
        p['fun'] = lambda t, y: tuple(f0(t, y))
    elif form == 'vectorized':
        def fv(t, y):
            if y.ndim == 1:
                return f0(t, y)
            return np.stack([f0(t, c) for c in y.T], axis=1)
        p['fun'] = fv
        o['vectorized'] = True
    return p, o


def dense_of(s):
    d = s.get('dense')
    if not d:
        return None
    return {1: lambda i: 1, 2: lambda i: i % 2, 3: lambda i: 2 if i % 3 == 0 else 0}[d]


def record(s, **kw):
    p, o = build(s)
    kw.setdefault('max_steps', s.get('max_steps', 150))
    return rec.run(s['method'], p, o, dense=dense_of(s), **kw)


def probs_for(m, kind='any'):
    if m in rec.NYSTROM:
        return so_problems(m)
    if m in rec.ESDIRK:
        return problems.FIRST + ['prot', 'vdp30', 'heat', 'adr', 'rob']
    if m == 'SSV2stab':
        return ['decay', 'lotka', 'brus', 'poly', 'zero', 'const', 'stiff1', 'prot', 'heat', 'adr', 'one', 'step',
                'saw', 'jump', 'pulse', 'nan_t', 'inf_t', 'blowup', 'riccati']
    return problems.FIRST


SOLVABLE = ['decay', 'osc', 'vdp', 'lotka', 'brus', 'poly', 'riccati', 'zero', 'const', 'stiff1', 'prot', 'heat',
            'adr', 'one', 'five', 'rob', 'vdp30', 'units', 'so_osc', 'so_duff', 'so_kepler', 'so_one', 'so_zero',
            'so_const', 'so_damp', 'so_vdp']
NONFIN = ['nan_t', 'inf_t', 'so_nan_t', 'blowup']


def method_opts(g, m, pn):
    """options special to a method"""
    o = {}
    if m in rec.EMBEDDED and g.random() < .3:
        o['nfev_stiff_detect'] = g.choice([0, 1, 7, 20, 50, 100, 1000])
    if m in ('Fi4N', 'MR6NN') and g.random() < .2:
        o['nfev_stiff_detect'] = g.choice([0, 1, 7, 20, 50])
    if m in rec.EMBEDDED + rec.NYSTROM + rec.ESDIRK:
        o.update(sc_opts(g))
        if m in rec.ESDIRK and isinstance(o.get('sc_params'), list):
            o['sc_params'] = [g.choice([1., 1.1, 1.5, 2.]), g.choice([0., -.5, -1.]), g.choice([0., -.5, -1.]), .8]
    if m == 'BS5' and g.random() < .7:
        o['interpolant'] = g.choice(['best', 'low', 'free'])
    if m == 'Fi5N' and g.random() < .7:
        o['interpolant'] = g.choice([0, 1, 2, 3])
    if m == 'Mu5Nmb' and g.random() < .5:
        o['interpolant'] = g.choice(['better', 'free'])
    if m == 'Mu5Nmb' and g.random() < .4:
        o['scale_embedded'] = g.choice([True, False])
    if m in ('KC3I', 'KC4I', 'KC4Ia', 'Kv3I') and g.random() < .7:
        o['interpolant'] = g.choice(['C0', 'C1'])
    if m in rec.ESDIRK:
        u = g.random()
        if u < .5:
            o['jac'] = 'fun'
        elif u < .7 and pn in LINEAR:
            o['jac'] = 'array'
        if g.random() < .25 and o.get('jac') != 'array':
            o['jac_each_step'] = True
    if m == 'SWAG' and g.random() < .4:
        o['k_max'] = g.choice([1, 2, 3, 4, 6, 8, 11, 12])
    if m == 'SSV2stab':
        if g.random() < .4:
            o['rho_jac'] = True
        if g.random() < .3 and pn in LINEAR:
            o['const_jac'] = True
    return o


LINEAR = ['decay', 'osc', 'prot', 'heat', 'stiff1', 'units', 'one', 'zero', 'const', 'poly', 'nan_t', 'inf_t', 'step', 'saw',
          'jump', 'pulse']


def any_random(n, key, methods=None, pick=None, cplx=.2, forms=.15, sparse=0.):
    out = []
    ms = methods or rec.ALL
    for i in range(n):
        g = rng('any', key, i)
        m = ms[i % len(ms)]
        pn = g.choice([q for q in probs_for(m) if pick is None or q in pick])
        sp = base_span(pn)
        o = dict(tol_opts(g), **step_opts(g, sp), **method_opts(g, m, pn))
        if m in rec.ESDIRK + ['SSV2stab'] and 'rtol' in o:
            o['rtol'] = max(o['rtol'], 1e-7)
        if m in rec.ESDIRK + ['SSV2stab'] and o.get('atol') == 0.:
            o['atol'] = 1e-8
        s = dict(method=m, problem=pn, opts=o, mirror=g.random() < .5)
        if g.random() < .3:
            s['shift'] = g.choice([-3., 7.5, 1000., -sp/2, -sp, -.8*sp, -.37*sp])
        if m != 'SSV2stab' and g.random() < cplx:
            s['cplx'] = True
        if g.random() < .4:
            s['dense'] = g.choice([1, 2, 3])
        if g.random() < forms:
            s['form'] = g.choice(['list', 'tuple', 'vectorized'])
        if sparse and m in rec.ESDIRK and g.random() < sparse:
            s['sparse'] = True
        if g.random() < .15:
            s['span'] = g.choice([.37, 1e-3, 1e-9])
            for k in ('first_step', 'max_step'):
                if k in o:
                    o[k] *= s['span']
        out.append(s)
    return out
