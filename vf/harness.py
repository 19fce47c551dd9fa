"""A check run: bookkeeping, verdict, replay files, evidence."""
import os, re, sys, json, time
from .base import VERIF, EVID, SEED, TIER, THOROUGH
from . import tlc


def load_known():
    """known_findings.txt: 'finding: property=<id> sig=<signature> :: text' suppress; 'fixed: ...' lines do not."""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) sig=(\S+) :: (.*)', l)
            if m:
                out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def js(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [js(v) for v in x]
    if isinstance(x, np.ndarray):
        return js(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol = []           # (signature, detail)
        self.states = self.trans = self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.parts = []
        self.notes = []
        self.assumptions = []
        self.evals = 0
        self.extra = {}

    # --- model checking of the design
    def mc(self, module, cfg=None, **kw):
        r = tlc.run(module, cfg, **kw)
        if r.violated:
            raise tlc.TLCError(f'the design {module}/{cfg} violates {r.violated}\n{r.out[-3000:]}')
        self.states += r.distinct
        self.trans += r.states
        self.parts.append(dict(model=module, cfg=cfg or module + '.cfg', states=r.distinct, transitions=r.states,
                               depth=r.depth, wall=round(r.wall, 2)))
        return r

    # --- conformance of recorded traces
    def validate(self, module, traces, names, clauses=None, chunk=4000, sig=None, timeout=600):
        """names[i] describes how traces[i] was made (replayable); clauses: regular expression of the clauses this
        property is concerned with (None: all)."""
        keep = [(t, n) for t, n in zip(traces, names) if t is not None]
        cov = {}
        nb = 0
        wall = 0
        for i in range(0, len(keep), chunk):
            part = keep[i:i + chunk]
            r, bad, c = tlc.check_traces(module, [t for t, _ in part], timeout=timeout)
            wall += r.wall
            self.states += r.distinct
            self.trans += r.states
            self.traces += len(part)
            self.events += sum(len(t['ev']) for t, _ in part)
            for k, v in c.items():
                cov[k] = cov.get(k, 0) + v
            for ti, ei, cl in bad:
                hit = [x for x in cl if clauses is None or re.fullmatch(clauses, x)]
                if not hit:
                    continue
                nb += 1
                t, n = part[ti]
                m = n.get('method', '') if isinstance(n, dict) else str(n[0])
                for x in hit:
                    s = sig(x, n, t, ei) if sig else f'{module}/{x}/{m}'
                    self.violation(s, dict(spec=module, clause=x, scenario=n, event_index=ei,
                                           event=t['ev'][ei], previous=t['ev'][ei - 1] if ei else None,
                                           cfg=t['cfg']))
        for k, v in cov.items():
            self.cov[f'{module}.{k}'] = self.cov.get(f'{module}.{k}', 0) + v
        self.parts.append(dict(trace_spec=module, traces=len(keep), violations=nb, wall=round(wall, 2)))
        if keep and len(self.samples) < 6:
            t, n = keep[len(keep)//2]
            self.samples.append(dict(scenario=js(n), events=len(t['ev']), first_event=js(t['ev'][0]) if t['ev'] else None))
        return cov

    def violation(self, sig, detail):
        self.viol.append((sig, detail))

    def need(self, *tags):
        """situations that must occur (reported, against vacuity)"""
        for t in tags:
            if not self.cov.get(t):
                self.notes.append(f'situation not exercised in this run: {t}')

    # --- verdict
    def finish(self):
        known = [(s, txt) for p, s, txt in load_known() if p == self.prop]
        seen, new = set(), {}
        for s, d in self.viol:
            k = [x for x in known if x[0] == s]
            if k:
                seen.add(k[0])
            else:
                new.setdefault(s, []).append(d)
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   trace_events=self.events, samples=self.samples or [dict(none=True)],
                   situations={k: self.cov[k] for k in sorted(self.cov)}, parts=self.parts, notes=self.notes)
        if self.evals:
            cov['evaluations'] = self.evals
        cov.update(self.extra)
        ev = dict(property=self.prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level,
                  coverage=js(cov), assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for s, txt in known:
            print(f'KNOWN-FINDING: property={self.prop} {s}: {txt}' + ('' if (s, txt) in seen else ' (not met in this run)'))
        for n in self.notes:
            print('note:', n)
        print(f'{self.prop}: {self.traces} traces, {self.events} events, {self.states} states, '
              f'{len(self.viol)} clause violations, {time.time()-self.t0:.1f}s')
        if new:
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, self.prop + '.json')
            with open(f, 'w') as fh:
                json.dump({s: js(v[:5]) for s, v in new.items()}, fh, indent=1)
            for s, v in sorted(new.items())[:12]:
                print(f'  {s}: {len(v)} occurrences, e.g. {json.dumps(js(v[0]))[:330]}')
            print(f'VIOLATION property={self.prop} replay={f}')
            return 1
        return 0


def main(argv):
    import importlib
    prop = argv[0]
    mod = importlib.import_module('vf.checks.' + prop.lower())
    c = Check(prop, getattr(mod, 'LEVEL', 'model_checking'))
    mod.check(c)
    return c.finish()
