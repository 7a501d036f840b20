"""C12: three-wave mixing conserves energy and photon balance at every plane."""
import numpy as np

from sim import engine
from props import common as cm
from props import twm
from props.c06 import unruly_control

ID = 'C12'
QUICK = 350
THOROUGH = 40000
MAX_STEPS = 60_000_000
SIMTIME = 'metres of crystal'
ORACLE = 'the conserved quantities of the coupled-wave equations (Manley-Rowe, energy) at every saved plane'
RULE = ('Seeded difference-frequency problems, in waveguides and with free beams, over random pulses, poling patterns (single domain, periodic, '
        'chirped), temperatures, areas, strengths, output requests and tolerances, and crystals with the nonlinearity '
        'switched off, with the step control driven through random rejections and step changes, integrations '
        'interrupted and repeated on the same problem, and partial distances.')
COMPONENTS = {'real': ['dfg_problem, dfg_results_interface, fftcomputer', 'ODEint, StepperDopr853, Output, Controller (its '
                       'decisions are perturbed on the safe side)', 'crystals, beams, Pulse', 'pyFFTW'],
              'stub': ['FFTW planner (estimate mode, one thread)']}
ASSUMPTIONS = ['an error estimate may be larger than computed and a next step may be anything',
               'with free-space (Gaussian) beams the balance is that of the energy and photons per beam area, bin by bin']


def gen_ctl(rng, dense):
    if rng.random() < 0.35:
        return None
    return {'seed': rng.randrange(1 << 30), 'reject': rng.choice([0, 0.1, 0.3]), 'scale': rng.choice([0, 0.2, 0.5]),
            'lo': rng.choice([0.3, 0.9]), 'hi': 1.0 if dense else rng.choice([1.0, 2.0, 4.0])}


def generate(rng, tier):
    ds, ops = [], []
    for _ in range(rng.choice([1, 1, 2])):
        linear = rng.random() < 0.2
        d = twm.gen_problem(rng, wg=None if linear or rng.random() < 0.35 else True)
        d['linear'] = linear
        ds.append(d)
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.randrange(len(ds))
        r = twm.gen_run(rng, ds[k])
        op = {'d': k, 'r': r, 'ctl': gen_ctl(rng, r['dense'])}
        if rng.random() < 0.2:
            op['fault'] = cm.async_fault(rng, 1, 4000)
        ops.append(op)
    return {'problems': ds, 'tasks': [ops]}


def build(d):
    x = twm.make_crystal(d['xtal'], d['pump'], d['sgnl'])
    if d.get('linear'):
        x.deff = 0.0
    return twm.make_problem(d, xtal=x)


def read(results, i, which):
    p = getattr(results, 'get_' + which)(i)
    return np.concatenate([p.AW, [p.center_wavelength_nm, p.time_window_ps, p.frep_MHz], p.wl_nm])


def run(sim, d, op, problem):
    with unruly_control(sim, op['ctl'], d['xtal']['length']):
        ode = twm.integrate(d, op['r'], problem)
    res = problem.process_stepper_output(ode.out)
    n = res.n_saves
    got = [[read(res, i, w) for w in ('pump', 'sgnl', 'idlr')] for i in range(n)]
    k = d['pump']['n']
    out = {'x': np.array([res.get_z(i) for i in range(n)], dtype=complex).real,
           'raw': np.array(ode.out.ysave[:ode.out.count]), 'steps': ode.nok + ode.nbad,
           'ys': np.array([np.concatenate([v[:k] for v in row]) for row in got])}
    for i, row in enumerate(got):
        for v, f, name in zip(row, freqs(d), ('pump', 'signal', 'idler')):
            lam = 2 * np.pi * cm.C_MKS / f * 1e9
            r = cm.bad(v[k:], np.concatenate([[lam[k // 2], d['pump']['T'], d['pump']['frep']], lam]), 1e-9, 1.0)
            if r:
                raise engine.Violation('misread', '%s at plane %d is not on its grid (centre, window, repetition rate, '
                                       'wavelengths): %s' % (name, i, r))
    return out


def execute(sc, sim):
    ds, problems, out = sc['problems'], {}, []
    for op in sc['tasks'][0]:
        d = ds[op['d']]
        if op['d'] not in problems:
            problems[op['d']] = build(d)
        kind, v = sim.call(run, sim, d, op, problems[op['d']], fault=op.get('fault'))
        if kind == 'exc':
            if isinstance(v, engine.Violation):
                raise v
            if isinstance(v, engine.INJECTED):
                sim.probe('abandoned')
                continue
            if op['ctl'] and op['ctl']['hi'] > 1:
                sim.probe('ended-with-error')
                continue
            raise engine.Violation('failed', '%s: %s: %s' % (op, type(v).__name__, v))
        sim.simtime += d['xtal']['length'] * op['r']['frac']
        sim.probe('results')
        out.append(dict(v, op=op))
        judge(sim, d, op, v)
    return out


def freqs(d):
    n = d['pump']['n']
    f = [cm.C_MKS / (d['pump']['wl'] * 1e-9), cm.C_MKS / (d['sgnl']['wl'] * 1e-9)]
    f.append(f[0] - f[1])
    v = (np.arange(n) - n // 2) / (d['pump']['T'] * 1e-12)
    return [2 * np.pi * (c + v) for c in f]


def areas(d):
    x = twm.make_crystal(dict(d['xtal'], cache=False), d['pump'], d['sgnl'])
    lam = 2 * np.pi * cm.C_MKS / freqs(d)[0]
    n = np.asarray(x.n(lam * 1e9, 'mix') if d['xtal']['kind'] == 'AgGaSe2' else x.n(lam * 1e9), float)
    a = lam / n
    return a / a[len(a) // 2]


def judge(sim, d, op, v):
    L = d['xtal']['length'] * op['r']['frac']
    if abs(v['x'][-1] - L) > 1e-12 * L or v['x'][0] != 0:
        raise engine.Violation('misplaced', 'planes at %s for a length of %r' % (v['x'][[0, -1]], L))
    r = cm.bad(np.abs(v['ys']), np.abs(v['raw']), 1e-9)
    if r:
        raise engine.Violation('misread', 'the results do not have the spectra of the solution: ' + r)
    P, S, I = twm.waves(np.abs(v['ys']) ** 2)
    if d['linear']:
        for a, name in ((P, 'pump'), (S, 'signal'), (I, 'idler')):
            r = cm.bad(a, np.broadcast_to(a[0], a.shape), 1e-9, max(P[0].max(), S[0].max()))
            if r:
                raise engine.Violation('linear', '%s spectrum changes without a nonlinearity: %s' % (name, r))
        return
    Wp, Ws, Wi = freqs(d)
    if not d['wg']:
        # The beam of each bin has an area of its own.  The equations balance what is
        # carried per area, with bins numbered from the centres of the grids; all areas
        # grow by the same factor away from the focus.
        a = areas(d)
        P, S, I = P / a, S / a, I / a
        sim.probe('free-space')
    np_, ns, ni = (P / Wp).sum(1), (S / Ws).sum(1), (I / Wi).sum(1)
    e = (P.sum(1) + S.sum(1) + I.sum(1))
    total = np_[0] + ns[0] + ni[0]
    eps = op['r']['rtol'] * (v['steps'] + 4) * BOUND + 1e-10
    if len(P) > 1 and abs(ni[-1] - ni[0]) > 100 * eps * total:
        sim.probe('converted')
    for q, name, size in ((np_ + ns, 'pump + signal photons', total), (np_ + ni, 'pump + idler photons', total),
                          (ns - ni, 'signal - idler photons', total), (e, 'energy', e[0])):
        off = np.abs(q - q[0]) / size
        i = int(np.argmax(off))
        sim.probe('planes', len(off))
        RATIO.append(off[i] / op['r']['rtol'] / (v['steps'] + 4))
        if not off[i] <= eps:
            raise engine.Violation('balance', '%s off by %.3g (allowed %.3g) at plane %d of %d, z=%r: %s' % (
                name, off[i], eps, i, len(off), v['x'][i], d))


BOUND = 15.
RATIO = []
