"""Ordinary differential equations with known solutions, for C05 and C06."""
import numpy as np

from props import common as cm

KINDS = ['lin', 'lin', 'poly', 'bern', 'logi', 'osc', 'tan', 'zero', 'bell', 'kerr', 'decay']


LINEAR = ['lin', 'osc', 'decay', 'zero', 'bell', 'poly']
# each component has its own equation
ALONE = ['osc', 'decay', 'zero', 'bell', 'poly']


def gen_ode(rng, small=False, tight=False, grids=None):
    k = rng.choice(KINDS)
    n = rng.choice([1, 2, 3] if small else [1, 2, 3, 5, 8, 16])
    d = {'p': k, 'seed': rng.randrange(1 << 20), 'n': n, 'cplx': rng.random() < 0.5,
         'rtol': 10.0 ** -rng.choice([3, 5, 6, 8, 9, 10] if not tight else [6, 8, 9, 10, 11]),
         'hmin': 0.0}
    d['atol'] = d['rtol'] * rng.choice([1.0, 0.1, 1e-3])
    if k == 'bern':
        d['x1'], d['x2'], d['cplx'] = 1.0, round(1 + rng.uniform(0.05, 3), 4), False
    elif k in ('logi', 'tan', 'bell'):
        d['cplx'] = False
        d['x1'] = round(rng.uniform(-1, 1), 4)
        d['x2'] = round(d['x1'] + rng.uniform(0.05, 1.0 if k == 'tan' else 3.0), 4)
    elif k in ('osc', 'kerr'):
        d['cplx'] = True
        d['w'] = round(cm.loguniform(rng, 0.5, 8 if small else 40), 4)
        d['x1'] = round(rng.uniform(-2, 2), 4)
        d['x2'] = round(d['x1'] + rng.uniform(0.05, 2), 4)
    else:
        d['x1'] = rng.choice([0.0, 0.0, round(rng.uniform(-3, 3), 4)])
        d['x2'] = round(d['x1'] + rng.uniform(0.02, 3), 4)
    if k in ('lin', 'poly', 'osc', 'kerr', 'zero', 'bell') and rng.random() < 0.3:
        d['x1'], d['x2'] = d['x2'], d['x1']
    # the first step is the caller's: not beyond where error estimates mean something
    d['h1'] = abs(d['x2'] - d['x1']) * cm.loguniform(rng, 1e-4, 0.2 if k in ('bern', 'kerr', 'tan', 'logi') else 2.0)
    if k in ('osc', 'decay', 'zero', 'poly') and rng.random() < 0.05:
        d['n'] = n = rng.choice([40, 200, 1000])
    if k in ('lin', 'osc', 'decay', 'zero', 'kerr') and rng.random() < 0.08:      # far from the origin
        o = round(rng.choice([-1, 1]) * cm.loguniform(rng, 3, 1000), 3)
        d['x1'] += o
        d['x2'] += o
    elif k == 'osc' and not small and rng.random() < 0.06:        # hundreds of steps
        d['x2'] = d['x1'] + (d['x2'] - d['x1']) * rng.choice([10, 40])
        d['rtol'] = min(d['rtol'], 1e-6)
    # positions in other units, and quantities of other sizes
    if k != 'bern' and rng.random() < 0.35:
        d['sx'] = rng.choice([1e-6, 1e-3, 1e-2, 1e3, 1e6])
        for j in ('x1', 'x2', 'h1'):
            d[j] *= d['sx']
    if k in LINEAR and rng.random() < 0.35:
        d['sy'] = rng.choice([1e-8, 1e-3, 1e5, 1e9])
        d['atol'] *= d['sy']
    if k in ALONE and 1 < n < 40 and rng.random() < 0.4:
        d['spread'] = rng.choice([0.5, 1.0, 3.0])
        d['atol'] *= 10 ** (-d['spread'] * (n - 1))
    if small:
        d['rtol'] = max(d['rtol'], 1e-8)
        d['atol'] = max(d['atol'], 1e-9 * d.get('sy', 1.0))
    d['nsave'] = rng.choice(grids or [None, 0, 1, 2, 3, 7, 20])
    d['dense'] = d['nsave'] not in (None, 0)
    if d['dense'] and rng.random() < 0.2:
        d['dense'] = False
    return d


def size(d):
    return d.get('sy', 1.0) * 10.0 ** (-d.get('spread', 0.0) * np.arange(d['n']))


def start(d):
    r = np.random.RandomState(d['seed'])
    n = d['n']
    k = d['p']
    if k == 'bern':
        y = np.full(n, 2.0)
    elif k == 'logi':
        y = r.uniform(0.1, 0.9, n)
    elif k == 'tan':
        y = r.uniform(-1.0, 0.2, n)
    else:
        y = r.uniform(0.3, 2.0, n) * r.choice([-1.0, 1.0], n)
        if d['cplx']:
            y = y * np.exp(1j * r.uniform(0, 6.28, n))
    y = y * size(d)
    return y.astype(np.complex128 if d['cplx'] else np.double)


def plain(d):
    """The same in units in which it is of order one."""
    d = dict(d)
    sx = d.pop('sx', 1.0)
    for j in ('x1', 'x2', 'h1', 'hmin'):
        d[j] = d[j] / sx
    return d


def par(d):
    r = np.random.RandomState(d['seed'] + 1)
    n = d['n']
    k = d['p']
    if k == 'lin':
        a = r.standard_normal((n, n)) / np.sqrt(n)
        if d['cplx']:
            a = a + 1j * r.standard_normal((n, n)) / np.sqrt(n)
        return a
    if k == 'poly':
        return r.standard_normal((n, 6)) * size(d)[:, None]
    if k in ('osc', 'kerr'):
        return d['w'] * r.uniform(0.5, 1.0, n)
    if k == 'decay':
        return r.uniform(0.2, 4.0, n)
    return r.uniform(0.5, 1.5, n)


def rhs(d):
    """f(x, y) of the equation"""
    if 'sx' in d:
        sx, f = d['sx'], rhs(plain(d))
        return lambda x, y: f(x / sx, y) / sx
    k, a = d['p'], par(d)
    if k == 'lin':
        return lambda x, y: np.array([sum(a[i, j] * y[j] for j in range(len(y))) for i in range(len(y))])
    if k == 'poly':
        return lambda x, y: np.array([sum(c * x ** m for m, c in enumerate(row)) for row in a])
    if k == 'bern':
        return lambda x, y: (-6.0 * y + 3 * x * np.power(y, 4. / 3.)) / x
    if k == 'logi':
        return lambda x, y: a * y * (1 - y)
    if k == 'osc':
        return lambda x, y: 1j * a * y
    if k == 'tan':
        return lambda x, y: 0.5 * (1 + y * y)
    if k == 'zero':
        return lambda x, y: 0.0 * y
    if k == 'bell':
        return lambda x, y: -2 * x * y
    if k == 'kerr':
        return lambda x, y: 1j * a * (y.real ** 2 + y.imag ** 2) * y
    if k == 'decay':
        return lambda x, y: -a * y
    raise KeyError(k)


def exact(d, x):
    """The true solution at x."""
    if 'sx' in d:
        return exact(plain(d), x / d['sx'])
    k, a, y = d['p'], par(d), start(d)
    u = x - d['x1']
    if k == 'lin':
        from scipy.linalg import expm
        return expm(a * u).dot(y)
    if k == 'poly':
        m = np.arange(a.shape[1])
        return y + (a * (x ** (m + 1) - d['x1'] ** (m + 1)) / (m + 1)).sum(axis=1)
    if k == 'bern':
        return np.full(d['n'], (x + x ** 2 * (0.5 * 2 ** (2. / 3.) - 1)) ** -3)
    if k == 'logi':
        e = np.exp(a * u)
        return y * e / (1 + y * (e - 1))
    if k == 'osc':
        return y * np.exp(1j * a * u)
    if k == 'tan':
        return np.tan(np.arctan(y) + 0.5 * u)
    if k == 'zero':
        return y
    if k == 'bell':
        return y * np.exp(-(x ** 2 - d['x1'] ** 2))
    if k == 'kerr':
        return y * np.exp(1j * a * np.abs(y) ** 2 * u)
    return y * np.exp(-a * u)


def growth(d):
    """Bound on how much an error can grow over the range."""
    d = plain(d)
    k, a = d['p'], par(d)
    u = abs(d['x2'] - d['x1'])
    if k == 'lin':
        return float(np.exp(np.linalg.norm(a, 2) * u))
    if k == 'bell':
        return float(np.exp(max(d['x1'] ** 2, d['x2'] ** 2)))
    if k == 'logi':
        return float(np.exp(np.max(a) * u))
    if k == 'tan':
        return float((1 + np.max(np.abs(exact(d, d['x2']))) ** 2) * 2)
    if k == 'kerr':
        return float(1 + 3 * np.max(a * np.abs(start(d)) ** 2) * u)
    return 1.0


def output(d):
    from pynlo.util import ode_solve
    return ode_solve.Output(d['nsave'])


def integrator(d, y, rhs_object, out=None):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    if out is None:
        out = output(d)
    return ode_solve.ODEint(y, d['x1'], d['x2'], d['atol'], d['rtol'], d['h1'], d['hmin'], out,
                            dopr853.StepperDopr853, rhs_object, dense=d['dense'])


def outcome(ode, y):
    """Everything an integration hands back, copied."""
    o = ode.out
    return {'y': np.array(y), 'count': int(o.count),
            'x': None if o.xsave is None else np.array(o.xsave[:o.count]),
            'ys': None if o.ysave is None else np.array(o.ysave[:o.count]),
            'nok': int(ode.nok), 'nbad': int(ode.nbad)}
