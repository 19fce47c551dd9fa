"""Test problems.  make(name, **mods) -> dict(fun, t0, tb, y0, jac (or None), so (second order form), pure)
mods: mirror (integrate the time-mirrored problem), shift (add to time), cplx (pose with complex state)."""
import numpy as np
from math import sin, cos, pi


def _lin(A):
    A = np.asarray(A, float)
    return (lambda t, y: A @ y), (lambda t, y: A.copy())


def base(name):
    """-> fun, jac, y0, t0, tb"""
    s2 = np.sqrt(2.)
    if name == 'decay':
        f, j = _lin([[-1.3, .4], [.2, -.6]])
        return f, j, [1., 2.], 0., 3.
    if name == 'osc':
        f, j = _lin([[0, 1.], [-4., 0]])
        return f, j, [1., .5], 0., 4.
    if name == 'vdp':
        m = 3.
        return (lambda t, y: np.array([y[1], m*(1 - y[0]**2)*y[1] - y[0]]),
                lambda t, y: np.array([[0, 1.], [-2*m*y[0]*y[1] - 1, m*(1 - y[0]**2)]]),
                [2., 0.1], 0., 6.)
    if name == 'vdp30':
        m = 30.
        return (lambda t, y: np.array([y[1], m*(1 - y[0]**2)*y[1] - y[0]]),
                lambda t, y: np.array([[0, 1.], [-2*m*y[0]*y[1] - 1, m*(1 - y[0]**2)]]),
                [2., 0.], 0., 40.)
    if name == 'lotka':
        return (lambda t, y: np.array([y[0]*(1.5 - y[1]), y[1]*(y[0] - 3.)]),
                lambda t, y: np.array([[1.5 - y[1], -y[0]], [y[1], y[0] - 3.]]),
                [4., 1.], 0., 5.)
    if name == 'brus':
        return (lambda t, y: np.array([1 + y[0]**2*y[1] - 4*y[0], 3*y[0] - y[0]**2*y[1]]),
                lambda t, y: np.array([[2*y[0]*y[1] - 4, y[0]**2], [3 - 2*y[0]*y[1], -y[0]**2]]),
                [1.5, 3.], 0., 8.)
    if name == 'poly':
        return (lambda t, y: np.array([1 + t - t**3, 3*t*t - 1.])), (lambda t, y: np.zeros((2, 2))), [1., -1.], 0., 2.
    if name == 'riccati':
        return (lambda t, y: 1 + y*y), (lambda t, y: np.diag(2*y)), [0., .1], 0., 1.4
    if name == 'blowup':
        return (lambda t, y: y*y), (lambda t, y: np.diag(2*y)), [1., .5], 0., 2.
    if name == 'step':
        return (lambda t, y: np.array([1. if sin(5*t) >= 0 else -1., -y[1]])), \
            (lambda t, y: np.diag([0., -1.])), [0.2, 1.], 0., 2.5
    if name == 'saw':
        return (lambda t, y: -y + np.floor(3*t)), (lambda t, y: -np.eye(2)), [1., .3], 0., 2.
    if name == 'jump':           # a single large jump: many rejections in one step
        return (lambda t, y: np.array([-y[0] + (300. if t > .73 else 0.), y[0]])), \
            (lambda t, y: np.array([[-1., 0], [1., 0]])), [1., 0.], 0., 1.5
    if name == 'pulse':
        return (lambda t, y: np.array([200*np.exp(-((t-1)/.01)**2) - y[0], y[0] - .5*y[1]])), \
            (lambda t, y: np.array([[-1., 0], [1., -.5]])), [1., 1.], 0., 2.
    if name == 'nan_t':
        return (lambda t, y: -y if t < .63 else np.full_like(y, np.nan)), (lambda t, y: -np.eye(2)), [1., .5], 0., 1.
    if name == 'inf_t':
        return (lambda t, y: -y if t < .63 else np.full_like(y, np.inf)), (lambda t, y: -np.eye(2)), [1., .5], 0., 1.
    if name == 'nan_y':
        def f(t, y):
            with np.errstate(all='ignore'):
                return np.sqrt(y.real - .5) * np.ones_like(y) - 1.5
        return f, (lambda t, y: np.diag(.5/np.sqrt(np.abs(y.real - .5) + 1e-3)).astype(y.dtype)), [1., 1.2], 0., 3.
    if name == 'zero':
        return (lambda t, y: 0*y), (lambda t, y: np.zeros((2, 2))), [1., 0.], 0., 2.
    if name == 'const':
        return (lambda t, y: np.ones_like(y)), (lambda t, y: np.zeros((2, 2))), [0., 0.], 0., 2.
    if name == 'stiff1':
        return (lambda t, y: np.array([-200*(y[0] - cos(t)), -y[1]])), (lambda t, y: np.diag([-200., -1.])), \
            [0., 1.], 0., 2.
    if name == 'prot':
        f, j = _lin([[-50., 49.], [49., -50.]])
        return f, j, [2., 1.], 0., 1.
    if name == 'units':          # badly scaled components
        f, j = _lin([[-1., 1e-8], [-1e8, -.1]])
        return f, j, [1e-3, 1e5], 0., 3.
    if name == 'one':
        return (lambda t, y: -y + cos(2*t)), (lambda t, y: np.array([[-1.]])), [1.], 0., 3.
    if name == 'five':
        A = np.array([[-1, 2, 0, .1, 0], [-2, -1, .3, 0, 0], [0, -.3, -.5, 4, 0], [.1, 0, -4, -.5, .2],
                      [0, 0, 0, -.2, -3.]])
        return (lambda t, y: A @ y + np.sin(y)), (lambda t, y: A + np.diag(np.cos(y))), [1., .5, -.3, .2, 2.], 0., 3.
    if name == 'rob':
        return (lambda t, y: np.array([-.04*y[0] + 1e4*y[1]*y[2], .04*y[0] - 1e4*y[1]*y[2] - 3e7*y[1]**2,
                                       3e7*y[1]**2])), \
            (lambda t, y: np.array([[-.04, 1e4*y[2], 1e4*y[1]], [.04, -1e4*y[2] - 6e7*y[1], -1e4*y[1]],
                                    [0, 6e7*y[1], 0]])), [1., 0, 0], 0., 40.
    if name == 'heat':
        n = 12
        A = (np.diag(-2*np.ones(n)) + np.diag(np.ones(n-1), 1) + np.diag(np.ones(n-1), -1))*(n+1)**2
        x = np.arange(1, n+1)/(n+1)
        return (lambda t, y: A @ y + np.sin(t)*x), (lambda t, y: A.copy()), list(np.sin(pi*x) + .5*np.sin(3*pi*x)), \
            0., .5
    if name == 'adr':             # nonlinear diffusion-reaction, negative real spectrum changing in time
        n = 10
        A = (np.diag(-2*np.ones(n)) + np.diag(np.ones(n-1), 1) + np.diag(np.ones(n-1), -1))*(n+1)**2
        x = np.arange(1, n+1)/(n+1)

        def f(t, y):
            return (.2 + .15*np.sin(3*t))*(A @ y) + y*(1 - y)
        return f, (lambda t, y: (.2 + .15*np.sin(3*t))*A + np.diag(1 - 2*y)), list(x*(1-x)*4), 0., 2.
    raise KeyError(name)


def base2(name):
    """second order problems y = [x, v] -> acc(t, x, v), x0, v0, t0, tb, velocity dependent"""
    if name == 'so_osc':
        return (lambda t, x, v: -4*x), [1., .3], [.5, -.2], 0., 4., False
    if name == 'so_duff':
        return (lambda t, x, v: -x - x**3 + .3*cos(t)), [1., .5], [0., .1], 0., 5., False
    if name == 'so_kepler':
        return (lambda t, x, v: -x/(x @ x.conj()).real**1.5), [.5, 0.], [0., np.sqrt(3.)], 0., 4., False
    if name == 'so_damp':
        return (lambda t, x, v: -4*x - .6*v + sin(2*t)), [1., .2], [.5, 1.], 0., 4., True
    if name == 'so_vdp':
        return (lambda t, x, v: 3.*(1 - x**2)*v - x), [2., 1.], [.1, .2], 0., 5., True
    if name == 'so_step':
        return (lambda t, x, v: -x + (1. if sin(4*t) >= 0 else -1.)), [.3, .1], [0., .5], 0., 3., False
    if name == 'so_jump':
        return (lambda t, x, v: -x + (500. if t > .73 else 0.)), [1., .3], [0., .2], 0., 1.5, False
    if name == 'so_zero':
        return (lambda t, x, v: 0*x), [1., 0.], [0., 0.], 0., 2., False
    if name == 'so_const':
        return (lambda t, x, v: np.ones_like(x)), [0., 0.], [0., 1.], 0., 2., False
    if name == 'so_nan_t':
        return (lambda t, x, v: -x if t < .63 else np.full_like(x, np.nan)), [1., .5], [0., .2], 0., 1., False
    if name == 'so_one':
        return (lambda t, x, v: -x*(1 + .5*x*x)), [1.], [0.2], 0., 4., False
    if name == 'so_stiff':
        return (lambda t, x, v: -300*v - 50*x), [1.], [0.], 0., 2., True
    raise KeyError(name)


FIRST = ['decay', 'osc', 'vdp', 'lotka', 'brus', 'poly', 'riccati', 'blowup', 'step', 'saw', 'jump', 'pulse',
         'nan_t', 'inf_t', 'nan_y', 'zero', 'const', 'stiff1', 'units', 'one', 'five']
SMOOTH = ['decay', 'osc', 'vdp', 'lotka', 'brus', 'five', 'one', 'riccati', 'poly']
STIFF = ['stiff1', 'prot', 'vdp30', 'rob', 'heat', 'adr']
SECOND_NV = ['so_osc', 'so_duff', 'so_kepler', 'so_step', 'so_jump', 'so_zero', 'so_const', 'so_nan_t', 'so_one']
SECOND_V = ['so_damp', 'so_vdp', 'so_stiff']
SO_SMOOTH = ['so_osc', 'so_duff', 'so_kepler', 'so_one']


def make(name, mirror=False, shift=0., cplx=False, span=1.):
    so = name.startswith('so_')
    if so:
        acc, x0, v0, t0, tb, vel = base2(name)
        n = len(x0)

        def fun(t, y):
            return np.concatenate((y[n:], acc(t, y[:n], y[n:])))
        y0 = np.array(x0 + v0)
        jac = None
        if mirror:
            # tau = -t:  x' = v  becomes  x_tau = w, w = -v, w_tau = acc(-tau, x, -w)
            acc0 = acc

            def acc(t, x, v):
                return acc0(-t, x, -v)
            y0[n:] = -y0[n:]
            t0, tb = -t0, -tb
    else:
        fun, jac, y0, t0, tb = base(name)
        y0 = np.array(y0)
        vel = None
        if mirror:
            fun0, jac0 = fun, jac

            def fun(t, y):
                return -fun0(-t, y)

            def jac(t, y):
                return -jac0(-t, y)
            t0, tb = -t0, -tb
    tb = t0 + (tb - t0)*span
    if shift:
        fun1, jac1 = fun, jac

        def fun(t, y):
            return fun1(t - shift, y)
        if jac1 is not None:
            def jac(t, y):
                return jac1(t - shift, y)
        t0, tb = t0 + shift, tb + shift
    if cplx:
        y0 = y0.astype(complex)
        fun2 = fun

        def fun(t, y):
            return np.asarray(fun2(t, y)).astype(complex)
        if jac is not None:
            jac2 = jac

            def jac(t, y):
                return np.asarray(jac2(t, y)).astype(complex)
    return dict(name=name, fun=fun, jac=jac, y0=y0, t0=float(t0), tb=float(tb), so=so, vel=vel)
