"""C09: dense output joins the steps continuously"""
from .. import scen, rec, dense
from ..base import pmap, THOROUGH


def scenarios(c, n):
    return scen.any_random(n*(8 if THOROUGH else 1), c.prop)


def run(c, n, ni, clauses):
    c.mc('Dense')
    c.mc('Dense', 'Dense_r.cfg')
    S = scenarios(c, n)
    c.validate('TraceDense', pmap(dense.observe, S, chunksize=8), S, clauses)
    S = scen.any_random(ni*(8 if THOROUGH else 1), c.prop + 'ivp')
    c.validate('TraceDense', pmap(dense.ivp, S, chunksize=4), S, clauses)
    c.need(*['TraceDense.' + x for x in ('twice', 'backward', 'ivp', 'ivp.events', 'ivp.backward', 'ivp.teval')])
    c.need(*['TraceDense.' + x + '.joined' for x in ('BS5.best', 'BS5.low', 'BS5.free', 'Fi5N.0', 'Fi5N.1', 'Fi5N.2', 'Fi5N.3',
             'Mu5Nmb.free', 'Mu5Nmb.better', 'KC3I.C0', 'KC3I.C1', 'KC4I.C0', 'KC4I.C1', 'KC4Ia.C0', 'KC4Ia.C1', 'Kv3I.C0',
             'Kv3I.C1', 'TRBDF2', 'TRX2', 'SWAG', 'SSV2stab', 'CKdisc', 'Ts5', 'CK5', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc', 'Me4',
             'Fi4N', 'MR6NN')])


def check(c):
    run(c, 2400, 1200, r'(range|ends|join|slope|forms|raised|again|ivp\.(raised|ends|jump|events)).*')
