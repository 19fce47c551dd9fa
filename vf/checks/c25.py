"""C25: the decision table of the constructors (Validate.tla), every row and pair of rows replayed"""
from .. import valid
from ..base import pmap, THOROUGH, rng


def check(c):
    rows = valid.parse(c.mc('MCValidate').lines)
    if THOROUGH:
        c.mc('MCValidate', 'MCValidate_3.cfg', timeout=3000)
        g = rng('C25')
        two = {}
        for m, o in rows:
            if len(o) == 2:
                two.setdefault(m, []).append(o)
        for m, L in two.items():        # random triples and more, by joining pairs
            for _ in range(6000):
                o = dict(map(tuple, sum(g.sample(L, 2), [])))
                rows.append((m, [list(x) for x in o.items()]))
    J = {}
    for m, o in rows:
        J.setdefault(m, []).append(o)
    J = [(m, L[i:i + 150], 1 - 2*(i//150 % 2)) for m, L in J.items() for i in range(0, len(L), 150)]
    T = pmap(valid.chunk, J, chunksize=2)
    c.validate('TraceValidate', T, [dict(method=j[0], direction=j[2], rows=len(j[1])) for j in J])
    c.extra['rows_replayed'] = len(rows)
