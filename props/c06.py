"""C06: ODE integration is accurate, lands on its output grid, and ends."""
import contextlib

import numpy as np

from sim import engine, seams
from props import common as cm
from props import odes

ID = 'C06'
QUICK = 2400
THOROUGH = 80000
MAX_STEPS = 40_000_000
ORACLE = 'closed-form solutions of the equations'
RULE = ('Seeded integrations of eleven equations with known solutions, with the step-size control driven through '
        'random extra rejections and step changes, right-hand sides that fail or return NaN or infinity, small step '
        'budgets, minimum steps, interrupts, and uninitialised memory of every kind.')
COMPONENTS = {'real': ['ODEint, Output, StepperDopr853, Controller (its decisions are perturbed on the safe side)'],
              'stub': ['right-hand sides (harness)', 'memory contents (simulated)']}
ASSUMPTIONS = ['an error estimate may be larger than computed and a next step may be anything: both are legal moves '
               'of an adaptive control']
GRIDS = [None, 0, 1, 2, 3, 5, 7, 10, 33, 100, 600]
PATTERNS = ['none', 'nan', 'huge', 'inf', 7]


def generate(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        d = odes.gen_ode(rng, tight=rng.random() < 0.6, grids=GRIDS)
        op = {'ode': d, 'mem': rng.choice(PATTERNS)}
        if rng.random() < 0.7:
            op['ctl'] = {'seed': rng.randrange(1 << 30), 'reject': rng.choice([0, 0.1, 0.3, 0.6]),
                         'scale': rng.choice([0, 0.2, 0.5]),
                         'lo': rng.choice([0.05, 0.3, 0.9]), 'hi': rng.choice([1.0, 2.0, 3.0])}
            if d['dense']:      # the interpolation is not error-controlled: no over-long steps
                op['ctl']['hi'] = 1.0
        u = rng.random()
        if u < 0.1:
            d['hmin'] = cm.loguniform(rng, 1e-6, 1.0) * d.get('sx', 1.0)
        elif u < 0.2:
            op['budget'] = int(cm.loguniform(rng, 1, 30))
        elif u < 0.4:
            op['fault'] = {'kind': rng.choice(['nan', 'inf', 'nan-from', 'inf-from', 'callback', 'rough-from']),
                           'at': int(cm.loguniform(rng, 1, 200)), 'part': rng.random() < 0.5}
            if d['x1'] * d['x2'] <= 0 and op['fault']['kind'] == 'rough-from':
                op['fault']['kind'] = 'nan'
        elif u < 0.5:
            op['fault'] = cm.async_fault(rng, 1, 1500)
        elif u < 0.55:
            op['y0'] = rng.choice(['nan', 'inf'])
        if ops and rng.random() < 0.3:      # the output object of the one before
            op['reuse'] = True
            d['nsave'], d['dense'] = ops[-1]['ode']['nsave'], ops[-1]['ode']['dense']
            if d['dense'] and 'ctl' in op:
                op['ctl']['hi'] = 1.0
        ops.append(op)
    if rng.random() < 0.0008:       # a step size that stays tiny
        d = dict(odes.gen_ode(rng, small=True), p='decay', nsave=rng.choice([None, 0]), dense=False, n=1, cplx=False)
        d.pop('spread', None)
        ops = [{'ode': d, 'mem': 'none', 'crawl': True}]
    return {'tasks': [ops]}


class RHS:
    def __init__(self, sim, d, op):
        self.sim, self.f, self.fault, self.calls = sim, odes.rhs(d), op.get('fault') or {}, 0

    def deriv(self, x, y, dydx):
        self.calls += 1
        self.sim.yield_point('rhs')
        k, at = self.fault.get('kind'), self.fault.get('at')
        dydx[:] = self.f(x, y)
        if k == 'callback' and self.calls == at:
            self.sim.fault_fired('callback')
            raise engine.CallbackFault('right-hand side failed')
        if k == 'rough-from' and self.calls >= at:
            self.sim.fault_fired('rhs-rough')
            dydx[:] = 1e40 * (-1.3) ** (self.calls % 7)
        if k in ('nan', 'inf') and self.calls == at or k in ('nan-from', 'inf-from') and self.calls >= at:
            self.sim.fault_fired('rhs-' + k)
            v = np.nan if k.startswith('nan') else np.inf
            if self.fault['part']:
                dydx[-1] = v
            else:
                dydx[:] = v


@contextlib.contextmanager
def unruly_control(sim, c, span):
    """Step control with extra rejections and other next steps."""
    from pynlo.util.ode_solve.dopr853_controller import Controller
    if not c:
        yield
        return
    if c == 'crawl':
        def tiny(real):
            def success(self, err, h):
                res = real(self, err, h)
                self.hnext = np.sign(h) * 1e-9 * span
                return res
            return success
        sim.fault_fired('tiny-steps')
        with seams.patched(Controller, 'success', tiny):
            yield
        return
    r = np.random.RandomState(c['seed'] & 0x7fffffff)
    state = {'row': 0}

    def make(real):
        def success(self, err, h):
            if state['row'] < 5 and abs(h) > 3e-3 * span and r.uniform() < c['reject']:
                state['row'] += 1
                sim.fault_fired('reject')
                return real(self, max(float(np.real(err)), float(np.exp(r.uniform(0.01, 12)))), h)
            state['row'] = 0
            res = real(self, err, h)
            if res[0] and r.uniform() < c['scale']:
                f = np.exp(r.uniform(np.log(c['lo']), np.log(c['hi'])))
                if abs(self.hnext) < 1e-2 * span:
                    f = max(f, 1.0)
                self.hnext = self.hnext * f
                sim.fault_fired('next-step')
            return res
        return success
    with seams.patched(Controller, 'success', make) as there:
        if not there:
            sim.probe('absent: Controller.success')
        yield


def run(sim, op, last):
    from pynlo.util.ode_solve import steppers, dopr853
    d = op['ode']
    y = odes.start(d)
    if 'y0' in op:
        y[0] = float(op['y0'])
        sim.fault_fired('start-' + op['y0'])
    r = RHS(sim, d, op)
    with contextlib.ExitStack() as st:
        for mod in (steppers, dopr853):
            st.enter_context(seams.patched(mod, 'np', lambda real: seams.Poison(real, op['mem'])))
        if op['mem'] != 'none':
            sim.fault_fired('memory-' + (op['mem'] if isinstance(op['mem'], str) else 'random'))
        st.enter_context(unruly_control(sim, 'crawl' if op.get('crawl') else op.get('ctl'), abs(d['x2'] - d['x1'])))
        ode = odes.integrator(d, y, r, last[1] if op.get('reuse') and last[0] == d['nsave'] else None)
        last[:] = d['nsave'], ode.out
        if 'budget' in op:
            ode.MAXSTP = op['budget']
            sim.fault_fired('step-budget')
        ode.integrate()
    return ode, y, r


def execute(sc, sim):
    out = []
    last = [None, None]
    for op in sc['tasks'][0]:
        f0 = dict(sim.faults)
        kind, v = sim.call(run, sim, op, last, fault=op.get('fault'))
        fired = {k for k in sim.faults if sim.faults[k] != f0.get(k, 0)}
        if kind == 'exc':
            if isinstance(v, engine.INJECTED):
                continue
            # an over-long step can overflow a nonlinear equation
            c = op.get('ctl') or {}
            d = op['ode']
            steep = d['p'] in ('kerr', 'bern', 'tan', 'logi') and \
                (d['h1'] > 0.02 * abs(d['x2'] - d['x1']) or c.get('scale', 0) and c['hi'] > 1)
            hard = steep or op['ode']['hmin'] > 0 or 'budget' in op or op.get('crawl') or 'y0' in op or any(k.startswith('rhs-') for k in fired)
            if not hard:
                raise engine.Violation('failed', '%s: %s: %s' % (op, type(v).__name__, v))
            sim.probe('ended-with-error')
            continue
        ode, y, r = v
        sim.probe('results')
        sim.simtime += abs(op['ode']['x2'] - op['ode']['x1'])
        judge(sim, op, ode, y)
        out.append(dict(odes.outcome(ode, y), calls=r.calls))
    return out


def judge(sim, op, ode, y):
    d = op['ode']
    fault = op.get('fault') or {}
    sick = fault.get('kind') in ('nan', 'inf', 'nan-from', 'inf-from', 'rough-from') and ode.RHS_class.calls >= fault['at']
    if 'y0' in op:
        if np.isfinite(y[0]):
            raise engine.Violation('silent-nonsense', '%s: returned %s' % (op, y[:3]))
        return
    if not (np.all(np.isfinite(y)) or sick):
        raise engine.Violation('silent-nonsense', '%s: returned %s without an error' % (op, y[:3]))
    if sick and fault['kind'].endswith('from') and ode.RHS_class.calls > fault['at'] + 40:
        raise engine.Violation('silent-nonsense', '%s: reached the end with a right-hand side that is not finite' % op)
    if sick and fault['kind'] == 'rough-from':
        return      # only the last evaluations were
    x1, x2 = d['x1'], d['x2']
    span = abs(x2 - x1)
    big = max(abs(x1), abs(x2), span)
    xe = 1e-13 * big * (10 + (d['nsave'] or 0))
    alone = d['p'] in odes.ALONE
    size = np.abs(odes.start(d))
    size = size if alone else size.max()
    uspan = span / d.get('sx', 1.0)

    def right(x, v, what):
        if sick and not np.all(np.isfinite(v)):
            return              # garbage in, and it shows
        e = odes.exact(d, x)
        s = np.maximum(size, np.abs(e) if alone else np.abs(e).max())
        if d['p'] == 'poly':
            s = s + np.abs(odes.par(d)).sum(axis=1) * umax ** 6
        tol = 40 * grow * (d['atol'] + d['rtol'] * s) * (1 + uspan) + 1e-11 * s * grow
        err = np.abs(v - e)
        if not np.all(err <= tol):
            k = int(np.argmax(err / tol))
            raise engine.Violation('inaccurate', '%s: component %d of %s at x=%r is off by %.3g (allowed %.3g)' % (
                op, k, what, x, err[k], tol[k] if np.ndim(tol) else tol))
    grow, umax = odes.growth(d), max(abs(x1), abs(x2)) / d.get('sx', 1.0)
    right(x2, y, 'result')
    o = ode.out
    if d['nsave'] is None:
        return
    n = o.count
    xs, ys = np.array(o.xsave[:n]), np.array(o.ysave[:n])
    if np.abs(np.imag(xs)).max() > 0:
        raise engine.Violation('misplaced', 'complex positions')
    xs = np.real(xs)
    if d['dense']:
        exp = [x1 + k * (x2 - x1) / d['nsave'] for k in range(d['nsave'])] + [x2]
        got = list(xs)
        if len(got) == len(exp) + 1 and abs(got[-1] - got[-2]) <= xe:
            got.pop()       # rounding put a grid point right before the end point
        if len(got) != len(exp):
            raise engine.Violation('misplaced', '%s: %d output points, expected %d' % (op, len(got), len(exp)))
        k = int(np.argmax(np.abs(np.array(got) - exp)))
        if abs(got[k] - exp[k]) > xe:
            raise engine.Violation('misplaced', '%s: output point %d is at %r, expected %r' % (op, k, got[k], exp[k]))
    else:
        s = np.sign(x2 - x1)
        if n < 2 or xs[0] != x1 or abs(xs[-1] - x2) > xe or np.any(np.diff(xs[:n - 1]) * s <= 0):
            raise engine.Violation('misplaced', '%s: step positions %s' % (op, xs[:10]))
    if not cm.same(ys[0], odes.start(d)):
        raise engine.Violation('inaccurate', '%s: first saved point is not the start' % op)
    if not sick and cm.bad(ys[-1], y, 1e-10 * (1 + big / span), np.maximum(size, np.abs(y)).max()):
        raise engine.Violation('inaccurate', '%s: last saved point differs from the result' % op)
    for i in range(n):
        right(xs[i], ys[i], 'saved point %d' % i)
