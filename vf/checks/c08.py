"""C08: evaluation counts"""
from .. import scen, rec, account
from ..base import pmap, THOROUGH
from .lifecommon import core


def job(s):
    r = scen.record(s, max_steps=120)
    if r.trunc:
        return None
    return account.project(r)


def scenarios(c, n=2400):
    k = 8 if THOROUGH else 1
    S = [dict(s, dense=1 + i % 3) for i, s in enumerate(core()) if not s.get('span')]
    return S + scen.any_random(n*k, c.prop, sparse=.3)


def check(c):
    c.mc('Account')
    S = scenarios(c)
    T = pmap(job, S, chunksize=8)
    c.validate('TraceAccount', T, S, r'(nfev|njev|cost|dense|start)\..*')
    c.need(*['TraceAccount.' + x for x in ('init.user', 'init.num', 'init.const', 'init.none', 'rk.rejected', 'esdirk.rejected',
             'swag.rejected', 'dense.extra', 'dense.twice', 'pre', 'differences', 'nonfsal.rejected', 'nan', 'stiff.extra', 'jac')])
