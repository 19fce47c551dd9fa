"""Replay of the interleavings generated by Isolation.tla with real solvers."""
import re, zlib, warnings
import numpy as np
from . import rec, scen, problems
from .base import alarm, rng
X = rec.X

TH = (.13, .5, .88)


def parse(lines):
    out = set()
    for l in lines:
        if l.startswith('SCRIPT '):
            out.add(tuple((a, int(b)) for a, b in re.findall(r'<<"(\w+)", (\d+)>>', l)))
    return sorted(out)


def fp(*a):
    h = 0
    for x in a:
        h = zlib.crc32(np.ascontiguousarray(x).tobytes() if isinstance(x, np.ndarray) else repr(x).encode(), h)
    return h & 0x3fffffff


class Slot:
    """one solver, with the user's arrays under watch"""
    def __init__(self, s):
        self.s = s
        self.dead = False
        p, o = scen.build(s)
        self.keep = []
        f0 = p['fun']

        def watch(f):
            def w(t, y):
                r = f(t, y)
                if isinstance(r, np.ndarray):
                    self.keep.append((r, r.copy()))
                    if len(self.keep) > 40:
                        del self.keep[:20]
                return r
            return w
        for k in ('jac',):
            if callable(o.get(k)):
                o[k] = watch(o[k])
        self.y0 = p['y0']
        if s.get('M') is not None:
            o['M'] = np.array(s['M'])
        self.arr = [(a, a.copy()) for a in [self.y0] + [v for v in o.values() if isinstance(v, np.ndarray)]]
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            self.x = rec.cls(s['method'])(watch(f0), p['t0'], self.y0, p['tb'], **o)
        self.sols = []
        self.last = None

    def intact(self):
        for a, b in self.arr + self.keep:
            if not np.array_equal(a, b, equal_nan=True):
                return False
        return True

    def state(self, n0=(0, 0, 0)):
        x = self.x
        return fp(x.t, x.y, x.status, x.nfev - n0[0], x.njev - n0[1], x.nlu - n0[2])

    def step(self, w):
        x = self.x
        n0 = (x.nfev, x.njev, x.nlu)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            for _ in range(w):
                if x.status == 'running':
                    x.step()
        return self.state(n0)

    def dense(self):
        d = self.x.dense_output()
        a, b = self.x.t_old, self.x.t
        self.sols.append((d, [a + q*(b - a) for q in TH]))
        return self.value(len(self.sols) - 1)

    def value(self, k):
        d, T = self.sols[k]
        v = d(np.array(T))
        h = fp(v)
        v[...] = np.nan                       # what the user does with the result must not matter
        return h


def counters():
    return int(X.NFS[()]), int(X.NFI[()]), int(X.NLS[()])


def alone(a):
    """reference: the solver alone, w real steps per step; None if it cannot take three steps"""
    s, w, n = a
    with alarm(60):
        try:
            q = Slot(s)
            own, den, c = [q.state()], [], [counters()]
            for k in range(n):
                own.append(q.step(w))
                if q.x.status == 'failed':
                    return None
                den.append(q.dense() if q.x.status != 'failed' else 0)
                c.append(counters())
        except Exception as e:
            return None
    d = [[y - x for x, y in zip(p, q)] for p, q in zip(c, c[1:])]
    return dict(own=own, den=den, rej=[x[0] for x in d], it=[x[1] for x in d], ls=[x[2] for x in d], name=s['method'],
                imp=s['method'] in rec.ESDIRK, init=list(c[0]), running=q.x.status == 'running')


def replay(a):
    """slots (scenarios), references, stride, scripts -> traces"""
    S, R, w, scripts = a
    out = []
    for sc in scripts:
        live = {}
        for z in (X.NFS, X.NFI, X.NLS):
            z[()] = 0
        ev = []
        with alarm(60):
            for op, i in sc:
                e = dict(op=op, i=i)
                if op == 'new':
                    live[i] = Slot(S[i - 1])
                    e['h'] = live[i].state()
                elif op == 'step':
                    e['h'] = live[i].step(w)
                elif op == 'dense':
                    e['h'] = live[i].dense()
                else:
                    e['h'] = live[i].value(0)
                e['nfs'], e['nfi'], e['nls'] = counters()
                e['user'] = all(q.intact() for q in live.values())
                ev.append(e)
        out.append(dict(cfg=dict(own=[r['own'] for r in R], den=[r['den'] for r in R], rej=[r['rej'] for r in R],
                                 it=[r['it'] for r in R], ls=[r['ls'] for r in R], names=[r['name'] for r in R],
                                 imp=[r['imp'] for r in R], use=[True for r in R],
                                 start=[r['init'] for r in R]), ev=ev))
    return out


def slots():
    """solver configurations that share classes, base classes and modules"""
    out = []

    def add(m, pn, o=None, **kw):
        out.append(dict(method=m, problem=pn, opts=dict(rtol=1e-5, atol=1e-8, **(o or {})), **kw))
    for m in rec.EMBEDDED + ['CKdisc', 'SWAG']:
        add(m, 'lotka')
        add(m, 'vdp', mirror=True)
        add(m, 'five', dict(rtol=1e-3) if False else {}, cplx=m != 'SWAG' or True)
        add(m, 'jump', dict(first_step=.1))
    for q in ('best', 'low', 'free'):
        add('BS5', 'brus', dict(interpolant=q))
    for k in (1, 3, 6, 12):
        add('SWAG', 'brus', dict(k_max=k))
    for m in rec.NYSTROM:
        add(m, 'so_kepler')
        add(m, 'so_duff', mirror=True)
        add(m, 'so_jump', dict(first_step=.1))
        add(m, 'so_osc', cplx=True)
    for q in (0, 2, 3):
        add('Fi5N', 'so_duff', dict(interpolant=q))
    for q in ('better', 'free'):
        add('Mu5Nmb', 'so_damp', dict(interpolant=q))
        add('Mu5Nmb', 'so_damp', dict(interpolant=q, scale_embedded=False))
    for m in rec.ESDIRK:
        add(m, 'lotka')
        add(m, 'vdp', dict(jac='fun'), mirror=True)
        add(m, 'adr', dict(jac='fun', jac_each_step=True))
        add(m, 'prot', dict(jac='array'))
        add(m, 'jump', dict(first_step=.1))
        add(m, 'five', cplx=True)
        if m not in ('TRBDF2', 'TRX2'):
            for q in ('C0', 'C1'):
                add(m, 'brus', dict(interpolant=q, jac='fun'))
        add(m, 'decay', dict(jac='fun'), M=[[2., 0.], [0., 1.]])
    add('SSV2stab', 'heat')
    add('SSV2stab', 'adr', dict(rho_jac=True), mirror=False)
    add('SSV2stab', 'heat', dict(const_jac=True))
    add('SSV2stab', 'lotka', dict(rho_jac=True))
    for s in out:
        if s['opts'].get('atol') and len(out) and hash(s['problem']) is None:
            pass
    for i, s in enumerate(out):
        if i % 5 == 2:
            s['opts']['atol'] = 'vec'
        if i % 7 == 3:
            s['opts']['sc_params'] = 'G' if s['method'] in rec.EMBEDDED + rec.NYSTROM + rec.ESDIRK else None
            if s['opts']['sc_params'] is None:
                del s['opts']['sc_params']
    return out
