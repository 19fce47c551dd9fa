"""Replay of scripts generated by Esdirk.tla on the real implicit solvers: the right-hand side does not depend on the state
and is zero except for an impulse in one stage of each attempt, sized so that the error estimate falls in the class the
script demands (N: not a number in that stage).  The Jacobian handed over is deliberately wrong by a factor, which makes
the Newton iterations converge at a known rate and makes it visible which factorization is in use."""
import math
import numpy as np
from . import rec, esd

LOGE = dict(T=-519., M=-3.322, A=-.322, R=.585, H=7.)


class Impulse:
    def __init__(self, m, script, g, late):
        self.T = T = esd.Es(m, {}, 1)
        self.script, self.g = script, g
        S, C = T.S, T.C
        c = [j for j in range(1, S - 1) if T.E[j] != 0 and C[j] != C[j + 1] and C[j] != C[j - 1]]
        self.j = (max if late else min)(c) if late is not None else max(c, key=lambda j: abs(T.E[j]))
        self.on, self.idx, self.h = False, 0, 1.

    def start(self, s):
        self.on, self.t, self.ts = True, s.t, None

    def after(self, s, st, i):
        self.t, self.ts = s.t, None
        self.idx += self.begun
        self.begun = 0

    begun = 0

    def jac(self, t, y):
        return np.full((1, 1), -self.g/self.h)

    def __call__(self, t, y):
        if not self.on or t == self.t:
            return np.zeros(1)
        T = self.T
        # a new attempt begins where the time falls back to (or stays at) the first stage
        if self.ts is None or (t - self.t)/self.ts < T.C[1]*(1 - 1e-12):
            if self.ts is not None:
                self.idx += self.begun
            self.h = (t - self.t)/T.C[1]
            self.ts = self.h
            self.begun = 1
        d = 0.
        if self.idx < len(self.script) and abs((t - self.t)/self.h - T.C[self.j]) < 1e-9:
            c = self.script[self.idx]
            if c == 'N':
                self.idx += 1
                self.begun, self.ts = 0, None
                return np.full(1, math.nan)
            d = 2.**LOGE[c]/max(abs(self.h*T.E[self.j]), 1e-300)
        return np.array([d])


def run_script(m, script, limited, kind, g=.05, late=None, tb=1e9, direction=1, sc=None):
    f = Impulse(m, script, g, late)
    p = dict(name='script', fun=f, jac=f.jac, y0=np.array([1.]), t0=0., tb=direction*tb, so=False, vel=False)
    o = dict(atol=1., rtol=1e-14, first_step=min(1., tb))
    if kind != 'numeric':
        o['jac'] = np.full((1, 1), -g*direction) if kind == 'array' else f.jac
    if kind == 'each':
        o['jac_each_step'] = True
    if limited:
        o['max_step'] = 2.
    if sc:
        o['sc_params'] = sc
    return rec.run(m, p, o, max_steps=len(script) + 3, on_init=f.start, on_step=f.after)
