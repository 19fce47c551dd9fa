"""Replay of model-generated scripts on the real explicit solvers: the right-hand side is zero except for an impulse in
one stage of each attempt, sized so that the error estimate of the attempt falls in the class the script demands."""
import re, math
import numpy as np
from .tab import Tab, GOLD
from . import rec

LOGE = dict(T=-519., S=-23.19, M=-3.322, N=-.322, R=.585, L=6.644, H=29.9, P=2., X=0.)


def parse(lines):
    """SCRIPT lines printed by TLC -> sorted list of (limited, classes)"""
    out = set()
    for l in lines:
        m = re.match(r'SCRIPT (TRUE|FALSE) (.*)', l)
        if m:
            out.add((m.group(1) == 'TRUE', tuple(re.findall(r'"(\w)"', m.group(2)))))
    return sorted(out)


class Impulse:
    def __init__(self, method, script, sign=1, cplx=False):
        self.tab = tab = Tab(method, {}, 2 if method in rec.NYSTROM else 1)
        self.script, self.ny, self.cplx = script, tab.ny, cplx
        E = tab.E
        hi = len(tab.nodes)
        cand = [j for j in range(1, min(tab.s, hi + 1)) if E[j] != 0 and tab.C[j] != 0]
        self.j = 6 if method == 'BS5' else max(cand, key=lambda j: abs(E[j]))
        self.jp = max([j for j in range(1, tab.pre[0]) if tab.pre[2][j] != 0 and tab.C[j] != 0],
                      key=lambda j: abs(tab.pre[2][j])) if tab.pre else None
        self.full = hi
        self.cut = tab.pre[0] - 1 if tab.pre else None
        self.m = method
        self.on = False
        self.idx = 0

    def start(self, s):
        self.on, self.t, self.pos = True, s.t, 0

    def after(self, s, st, i):
        self.t, self.pos = s.t, 0

    def __call__(self, t, y):
        d = 0.
        if self.on and self.idx < len(self.script):
            self.pos += 1
            c = self.script[self.idx]
            pre = self.tab.pre is not None and (c == 'P' or (self.m == 'CFMR7osc' and c in 'RLHX'))
            j = self.jp if c == 'P' else self.j
            if self.pos == j:
                h = (t - self.t)/self.tab.C[j]
                if self.ny:
                    a = abs(h*h*self.tab.E[j])
                    b = abs(h*self.tab.Ep[j])
                    w = math.sqrt((a*a + b*b)/2)
                else:
                    E = self.tab.pre[2] if c == 'P' else self.tab.E
                    w = abs(h*E[j])
                d = math.nan if c == 'X' else 2.**LOGE[c]/max(w, 1e-300)
            if self.pos == (self.cut if pre and c != 'X' else self.full):
                self.idx += 1
                self.pos = 0
        elif self.on:
            pass
        r = np.array([y[1], d]) if self.ny else np.array([d])
        return r.astype(complex)*(1j if 0 else 1) if self.cplx else r


def run_script(method, script, limited, tb=1e9, direction=1, sc=None, cplx=False):
    f = Impulse(method, script, cplx=cplx)
    n = 2 if f.ny else 1
    y0 = np.zeros(n, complex if cplx else float)
    y0[0] = 1.
    p = dict(name='script', fun=f, jac=None, y0=y0, t0=0., tb=direction*tb, so=f.ny, vel=False)
    o = dict(atol=1., rtol=1e-14, first_step=min(1., tb), nfev_stiff_detect=0)
    if limited:
        o['max_step'] = 2.
    if sc:
        o['sc_params'] = sc
    return rec.run(method, p, o, max_steps=len(script) + 3, on_init=f.start, on_step=f.after)
