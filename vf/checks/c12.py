"""C12: the failure counters"""
from ..base import pmap
from . import isocommon, c08


def check(c):
    isocommon.check(c, r'count\..*')
    S = c08.scenarios(c, 1500)
    T = pmap(c08.job, S, chunksize=8)
    c.validate('TraceAccount', T, S, r'nfs\..*')
    c.need(*['TraceAccount.' + x for x in ('rk.rejected', 'esdirk.rejected', 'swag.rejected', 'pre', 'nan')])
