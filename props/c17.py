"""C17: DFG fields at every plane are those of the coupled-wave equations."""
import numpy as np

from sim import engine
from props import common as cm
from props import c12, twm

ID = 'C17'
QUICK = 300
THOROUGH = 40000
MAX_STEPS = 60_000_000
SIMTIME = 'metres of crystal'
ORACLE = 'an independent integration of the coupled-wave equations, poling domain by poling domain'
RULE = ('Seeded difference-frequency problems, guided and free-space (with and without Gouy phase), quasi-phase-matched '
        '(single domain, periodic, chirped) and birefringent, over random pulses, strengths, output requests and '
        'tolerances, with the step control driven through random rejections and step changes, integrations interrupted '
        'and repeated on the same problem, partial distances, and sample positions visited out of order. Every plane '
        'is compared with an independent solution.')
COMPONENTS = {'real': ['dfg_problem, dfg_results_interface, fftcomputer', 'ODEint, StepperDopr853, Output, Controller (its '
                       'decisions are perturbed on the safe side)', 'crystals, beams, Pulse', 'pyFFTW'],
              'stub': ['FFTW planner (estimate mode, one thread)']}
ASSUMPTIONS = ['an error estimate may be larger than computed and a next step may be anything',
               'refractive indices are taken from the library (C04 covers their history)', 'the chi-3 option is off']


def generate(rng, tier):
    ds, ops = [], []
    for _ in range(rng.choice([1, 1, 2])):
        d = twm.gen_problem(rng)
        d['linear'] = False
        ds.append(d)
    for _ in range(rng.choice([1, 2, 2])):
        k = rng.randrange(len(ds))
        r = twm.gen_run(rng, ds[k], rtols=(1e-5, 1e-6, 1e-7, 1e-8))
        op = {'d': k, 'r': r, 'ctl': c12.gen_ctl(rng, r['dense'])}
        if rng.random() < 0.2:
            op['fault'] = cm.async_fault(rng, 1, 4000)
        # positions at which a caller evaluates the problem first, in any order
        if rng.random() < 0.3:
            op['visit'] = [round(rng.uniform(0, 1), 6) for _ in range(rng.choice([1, 3]))]
        ops.append(op)
    return {'problems': ds, 'tasks': [ops]}


def visit(sim, d, op, problem):
    y = np.array(problem.ystart)
    dy = np.empty_like(y)
    for f in op['visit']:
        problem.deriv(f * d['xtal']['length'], y, dy)


def execute(sc, sim):
    ds, problems, out = sc['problems'], {}, []
    for op in sc['tasks'][0]:
        d = ds[op['d']]
        if op['d'] not in problems:
            problems[op['d']] = c12.build(d)
        if op.get('visit'):
            sim.call(visit, sim, d, op, problems[op['d']])
        kind, v = sim.call(c12.run, sim, d, op, problems[op['d']], fault=op.get('fault'))
        if kind == 'exc':
            if isinstance(v, engine.Violation):
                raise v
            if isinstance(v, engine.INJECTED):
                sim.probe('abandoned')
                continue
            if op['ctl'] and op['ctl']['hi'] > 1:
                sim.probe('ended-with-error')
                continue
            raise engine.Violation('failed', '%s: %s: %s' % (op, type(v).__name__, v))
        L = d['xtal']['length'] * op['r']['frac']
        if abs(v['x'][-1] - L) > 1e-12 * L or v['x'][0] != 0:
            raise engine.Violation('misplaced', 'planes at %s for a length of %r' % (v['x'][[0, -1]], L))
        sim.simtime += L
        sim.probe('results')
        sim.probe('planes', len(v['x']))
        out.append(dict(v, op=op))
    return out


def check(sc, hist, ref, violate):
    for h in hist:
        op, d = h['op'], sc['problems'][h['op']['d']]
        exp = ref(solve, d, h['x'])
        s = np.abs(exp[0]).max()
        # how much an error can grow: exponential gain below depletion
        # a step across a domain wall can escape the error estimate
        walls = 2 * h['x'][-1] / d['xtal']['pp'][1] if d['xtal']['kind'] == 'PPLN' else 0
        steps = (h['steps'] + 4 + 6 * walls) * (1 + d['kappa'] * d['xtal']['length'])
        eps = BOUND * op['r']['rtol'] * steps + 1e-9
        off = np.abs(h['ys'] - exp).max(1) / s
        i = int(np.argmax(off))
        RATIO.append(off[i] / op['r']['rtol'] / steps)
        if not off[i] <= eps:
            violate('wrong-field', 'plane %d of %d at z=%r is off by %.3g of the largest amplitude (allowed %.3g): %s %s' % (
                i, len(off), h['x'][i], off[i], eps, op, d))
            return


def solve(d, xs):
    m = twm.Model(d)
    ys = m.states(np.asarray(xs))
    return np.array([m.lab(z, y) for z, y in zip(xs, ys)])


BOUND = 25.
RATIO = []
