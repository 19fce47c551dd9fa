"""C23: stiffness detection, decided by Stiffness.tla / MCStiff.tla / TraceStiff.tla"""
from .. import scen, stiff, rec, problems
from ..base import pmap, THOROUGH, rng


def scenarios(n):
    g = rng('C23')
    S = []
    fo = ['real', 'real3', 'tworeal', 'pair', 'pair3', 'axis', 'mild', 'unstable', 'slow', 'three', 'near2', 'osc', 'vdpol', 'cubic', 'scalar', 'cscalar', 'origin']
    so = ['so_real', 'so_pairre', 'so_mid', 'so_osc', 'so_slow', 'so_stiffosc']
    for i in range(n):
        m = stiff.WITH[i % len(stiff.WITH)]
        st = rec.cls(m).n_stages
        k = g.choice(so if m in stiff.RKN else fo)
        o = dict(rtol=10.**-g.choice([2, 3, 4, 6]), atol=10.**-g.choice([3, 5, 7]))
        if g.random() < .15:
            o['sc_params'] = g.choice(['G', 'S', 'standard'])
        nd = g.choice([1, st - 1, st, 2*st, 5*st + 1, 12*st, 25*st, 39*st, 5000, 0])
        s = dict(method=m, kind=k, opts=o, nd=nd, u=10.**g.choice([0, 0, 0, -3, 4]), back=g.random() < .3, cplx=g.random() < .15)
        if g.random() < .35 and k not in ('vdpol', 'cubic', 'origin', 'scalar', 'cscalar', 'osc'):
            s.update(force=g.choice([.5, 5., 50.]), w=g.choice([1., 3., 10.]))
        if k == 'cscalar':
            s['z'] = complex(-60., g.choice([0., 10., 60., 200.]))
        if k in stiff.NONSTIFF or k in ('mild', 'slow'):
            s['tb'] = 500.
        if k == 'near2':
            s['tb'] = 6.
        S.append(s)
    # stiff problems solved to the end: the user is warned
    for m in stiff.WITH:
        for k in (['so_real'] if m in stiff.RKN else ['real', 'real3', 'pair', 'cubic']):
            for q in (3, 5):
                S.append(dict(method=m, kind=k, opts=dict(rtol=10.**-q, atol=10.**-q), nd=20*rec.cls(m).n_stages, max_steps=400, back=q == 5, tb=1000., need=True))
    # many rejections, and dominant roots of equal size: nothing is found
    for m in stiff.WITH:
        for k in (['so_osc', 'so_stiffosc'] if m in stiff.RKN else ['three', 'axis', 'pair', 'six']):
            for fo in (50., 1000.):
                S.append(dict(method=m, kind=k, opts=dict(rtol=1e-2, atol=1e-3), nd=10**6, force=fo, w=15., tb=1e6, max_steps=250))
    for s in scen.any_random(n//3, 'C23', methods=stiff.WITH):
        s = dict(s, nd=g.choice([1, 7, 20, 60, 200]))
        s['opts'] = {k: v for k, v in s['opts'].items() if k != 'nfev_stiff_detect'}
        S.append(s)
    # methods without detection: nothing happens, whatever the setting
    for s in scen.any_random(n//8, 'C23n', methods=['MR6NN']):
        s = dict(s, nd=g.choice([0, 5000]))
        s['opts'] = {k: v for k, v in s['opts'].items() if k != 'nfev_stiff_detect'}
        S.append(s)
    return S


def check(c):
    c.mc('MCStiff', 'MCStiff_t.cfg' if THOROUGH else 'MCStiff.cfg')
    S = scenarios(1000*(6 if THOROUGH else 1))
    T = pmap(stiff.job, S, chunksize=8)
    c.validate('TraceStiff', T, S)
    c.need(*['TraceStiff.' + x for x in 'off skipped lots assess.rk assess.rkn notconverged one said.real said.pair said.osc complex rkn.said tries notconverged.lots'.split()])
