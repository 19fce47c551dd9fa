"""Constructor calls for the rows of Validate.tla"""
import re
import warnings
import numpy as np
from scipy.sparse import csc_array
from . import rec
from .tab import TINY

A = np.array([[-1., .5, 0., 0.], [.3, -2., 0., .1], [0., 0., -.5, 0.], [0., .2, 0., -3.]])
SO = np.block([[np.zeros((2, 2)), np.eye(2)], [np.array([[-2., .5], [.5, -1.]]), np.zeros((2, 2))]])
Y0 = [1., .5, -.3, 2.]
NY = ('Fi4N', 'Fi5N', 'Mu5Nmb', 'MR6NN')
EPSN = np.finfo(float).epsneg
BIG = np.eye(5)


def value(m, o, v, B):
    n = 4
    D = dict(
        y0=dict(list=list(Y0), tuple=tuple(Y0), ints=[1, 2, 0, 3], float32=np.array(Y0, np.float32), complex=[1. + 1j, .5, -.3j, 2.],
                nan=[1., np.nan, 0., 1.], inf=[1., np.inf, 0., 1.], **{'2d': np.ones((4, 1))}),
        max_step=dict(positive=.11, infinite=np.inf, integer=1, minute=1e-4, zero=0., negative=-.1, minusinf=-np.inf, string='a'),
        first_step=dict(positive=.01, exact=2., integer=1, zero=0., negative=-.01, toolong=2.0001, string='b'),
        rtol=dict(normal=1e-5, zero=0., tiny=1e-20, big=.5, lower=10*EPSN, upper=.1, npfloat=np.float64(1e-4), negative=-1e-3, negtiny=-1e-30,
                  integer=1, string='c', array=np.full(4, 1e-3)),
        atol=dict(scalar=1e-5, array=np.full(4, 1e-5), list=[1e-5, 1e-4, 1e-5, 1e-6], tuple=(1e-5, 1e-4, 1e-5, 1e-6), zero=0., zerocomp=[1e-5, 0., 1e-5, 1e-4],
                  allzero=np.zeros(4), integer=1, negative=-1e-6, negcomp=[1e-5, 1e-5, 1e-5, -1e-9], short=[1e-5]*3, long=[1e-5]*5, **{'2d': np.full((4, 1), 1e-5)}),
        extra=dict(unknown=3), vectorized=dict(true=True),
        sc_params=dict(G='G', S='S', standard='standard', tuple4=(.6, -.2, 0, .9), none=None, unknown='X', tuple3=(.6, -.2, .9), tuple5=(.6, -.2, 0, .9, 1),
                       list4=[.6, -.2, 0, .9], number=.7),
        nfev_stiff_detect=dict(zero=0, one=1, default=5000, large=100000, negative=-1, float=10., string='a'),
        interpolant={'best': 'best', 'low': 'low', 'free': 'free', 'better': 'better', '0': 0, '1': 1, '2': 2, '3': 3, '4': 4, '-1': -1, 'C0': 'C0', 'C1': 'C1',
                     'C2': 'C2', 'unknown': 'abc', 'case': 'FREE' if m in ('BS5', 'Mu5Nmb') else 'c0'},
        scale_embedded=dict(true=True, false=False),
        k_max={'1': 1, '4': 4, '12': 12, '0': 0, '-1': -1, '13': 13, 'float': 5., 'string': '5'},
        const_jac=dict(true=True, false=False, string='yes', one=1),
        rho_jac=dict(none=None, function=lambda t, y: 3.3, number=3.3, integer=lambda t, y: 3, negative=lambda t, y: -3.3, zero=lambda t, y: 0.,
                     array=lambda t, y: np.array([3.3, 1.])),
        jac=dict(none=None, function=lambda t, y: B, array=B, list=B.tolist(), sparse=csc_array(B), sparsefunction=lambda t, y: csc_array(B), short=B[:3, :3],
                 long=BIG, row=B[0], shortfunction=lambda t, y: B[:3, :3], vectorfunction=lambda t, y: B[0], shortsparse=csc_array(B[:3, :3]),
                 shortsparsefunction=lambda t, y: csc_array(B[:3, :3])),
        jac_sparsity=dict(none=None, dense=(np.abs(B) + np.eye(4) > 0).astype(float), sparse=csc_array((np.abs(B) + np.eye(4) > 0).astype(float))),
        M=dict(none=None, diagonal=np.array([1., 2., .5, 1.]), list=[1., 2., .5, 1.], full=np.eye(4) + .1*A, diagonal2d=np.diag([1., 2., .5, 1.]),
               sparse=csc_array(np.diag([1., 2., .5, 1.])), short1d=np.ones(3), long1d=np.ones(5), short2d=np.eye(3), oblong=np.ones((4, 3)),
               number=2., shortsparse=csc_array(np.eye(3)), **{'3d': np.ones((4, 4, 4))}),
        jac_each_step=dict(true=True, false=False))
    return D[o][v]


def parse(lines):
    R = []
    for l in lines:
        if l.startswith('ROW '):
            _, m, rest = l.split(' ', 2)
            R.append((m, [list(x) for x in re.findall(r'(\w+) \|-> "([^"]*)"', rest)]))
    return R


def row(m, opts, direction=1):
    B = SO if m in NY else A
    od = dict(opts)
    kw = {}
    y0 = Y0
    for o, v in opts:
        x = value(m, o, v, B)
        if o == 'y0':
            y0 = x
        elif o == 'extra':
            kw['no_such_option'] = x
        else:
            kw[o] = x
    fun = (lambda t, y: B @ y) if direction > 0 else (lambda t, y: B @ y)
    tb = 3. if direction > 0 else -1.
    t0 = 1.
    e = dict(k='row', opts=opts, exc='', rt='', at='', warned=False, step='skip', slow=False)
    with warnings.catch_warnings(record=True) as W, np.errstate(all='ignore'):
        warnings.simplefilter('always')
        try:
            s = rec.cls(m)(fun, t0, y0, tb, **kw)
        except Exception as x:
            e['exc'] = type(x).__name__
            if isinstance(x, ValueError):
                e['exc'] = 'ValueError'
            return e
        e['warned'] = any('no effect' in str(w.message) or 'does nothing' in str(w.message) for w in W)
        rt = kw.get('rtol', 1e-3)
        at = np.asarray(kw.get('atol', 1e-6), float)
        e['rt'] = 'as' if s.rtol == rt else 'lo' if s.rtol == 10*EPSN else 'hi' if s.rtol == .1 else 'bad'
        sa = np.asarray(s.atol)
        lo = np.sqrt(TINY)
        e['at'] = 'as' if np.all(sa == at) and sa.shape == at.shape else 'min' if np.all(sa == lo) else \
            'part' if np.all(sa == np.maximum(at, lo)) and np.any(sa == lo) else 'bad'
        if od.get('rtol') in ('zero', 'tiny', 'lower') and od.get('atol') in ('zero', 'allzero', 'zerocomp'):
            return e          # the required accuracy may be out of reach
        try:
            r = s.step()
            e['step'] = 'failed' if s.status == 'failed' else 'ok'
            e['slow'] = bool(abs(s.t - t0) > 1.0001*min(kw.get('max_step', np.inf), 2.) or (s.t - t0)*direction <= 0)
            if s.status == 'failed' and (od.get('rtol') in ('zero', 'tiny', 'lower') or od.get('max_step') == 'minute'):
                e['step'] = 'skip'
        except Exception as x:
            e['step'] = 'raised'
    return e


def chunk(a):
    m, rows, d = a
    return dict(cfg=dict(name=m), ev=[row(m, o, d) for o in rows])
