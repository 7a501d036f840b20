"""C15: propagating to a gain goal meets the goal or reports failure."""
import contextlib
import math

import numpy as np

from sim import engine, seams
from props import common as cm
from props import fwm
from props.c07 import Faults, fibre_diff, fibre_state, gen_family, gen_settings

ID = 'C15'
QUICK = 1200
THOROUGH = 30000
MAX_STEPS = 60_000_000
SWITCH_P = [0.002, 0.01]
OPCODE_P = 0.03
SIMTIME = 'metres of fibre'
ORACLE = ('the requested power; a plain propagation at the reported gain, and the same search, by new solvers in a pristine '
          'process')
RULE = ('Seeded histories of gain searches and plain propagations on 1-2 solvers in 1-2 threads over shared pulses and '
        'amplifier fibres (gain spectra, flat gain, no gain, parameters that change along the fibre), with goals that the '
        'guess meets, goals in and out of reach and meaningless ones, any starting guess and tolerance, interrupts, failed '
        'allocations, failing transform planners and fibre functions at any trial.')
COMPONENTS = {'real': ['SSFM.propagate_to_gain_goal, FiberInstance.get_gain', 'SSFM, Pulse', 'pyFFTW',
                       'scipy.optimize'],
              'stub': ['FFTW planner (estimate mode, one thread; made to fail on demand)', 'thread scheduler (simulated)']}
ASSUMPTIONS = ['one solver is used by one thread at a time']
MAX_TRIALS = 200


def gen_spectrum(rng, lo, hi):
    """Gain per metre over the whole grid of the pulses, in units of 1 / m at unit scale."""
    c = rng.uniform(lo, hi)
    w = rng.uniform(60, 200)
    x = np.linspace(0.4 * lo, 2.5 * hi, 60)
    y = np.exp(-((x - c) / w) ** 2)
    return {'x': [round(float(v), 4) for v in x], 'y': [float('%.6g' % v) for v in y]}


def generate(rng, tier):
    ps, fs = gen_family(rng)
    for p in ps:
        p['n'] = min(p['n'], 64)
    lo, hi = min(p['wl'] for p in ps), max(p['wl'] for p in ps)
    for f in fs:
        f.pop('spectrum', None)
        if rng.random() < 0.8:
            s = f['spectrum'] = gen_spectrum(rng, lo, hi)
            k = float('%.4g' % (cm.loguniform(rng, 0.2, 3) / f['length']))
            s['y'] = [float('%.6g' % (v * k)) for v in s['y']]
            f['gain'] = 1.0
        if rng.random() < 0.35:
            f['gamma'] = 0
    nt = rng.choice([1, 1, 1, 2])
    solvers, tasks = [], []
    for t in range(nt):
        s = gen_settings(rng)
        solvers.append({'s': s, 'dz': float('%.6g' % (s['dz_frac'] * rng.choice(fs)['length']))})
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            p, f = rng.randrange(len(ps)), rng.randrange(len(fs))
            op = {'solver': t, 'p': p, 'f': f, 'n': rng.choice([1, 1, 2, 3])}
            if rng.random() < 0.2:
                op.update(op='go', power=gen_goal(rng, ps[p], (0.5, 3)))
            else:
                u = rng.random()
                op['op'] = 'goal'
                if rng.random() < 0.6:
                    op['tol'] = rng.choice([0.5, 0.2, 0.05, 0.02, 0.01, 0.001, 1e-5])
                if rng.random() < 0.6:
                    op['guess'] = float('%.4g' % cm.loguniform(rng, 0.5, 2))
                if u < 0.3:
                    op['known'] = True      # a goal that the guess meets, found by a plain propagation
                    op['guess'] = float('%.4g' % cm.loguniform(rng, 0.5, 2))
                    op['target'] = gen_goal(rng, ps[p], (0.7, 2.5))
                elif u < 0.75:
                    op['power'] = gen_goal(rng, ps[p], (0.7, 3))
                elif u < 0.92:
                    op['power'] = gen_goal(rng, ps[p], (0.01, 1000))
                else:
                    op['power'] = rng.choice([0.0, 'nan', 'inf', -gen_goal(rng, ps[p], (0.5, 2))])
            if rng.random() < 0.3:
                op['fault'] = gen_fault(rng, fs[f])
            ops.append(op)
        tasks.append(ops)
    return {'pulses': ps, 'fibres': fs, 'solvers': solvers, 'tasks': tasks}


def gen_goal(rng, p, span):
    avg = (2 if p['kind'] == 'sech' else math.sqrt(math.pi / 2)) * p['power'] * p['T0'] * 1e-12 * p['frep'] * 1e6
    return float('%.5g' % (avg * cm.loguniform(rng, *span)))


def gen_fault(rng, f):
    u = rng.random()
    if u < 0.2:
        return {'kind': 'planner', 'at': rng.randrange(1, 20)}
    if u < 0.35:
        return {'kind': 'buffer', 'at': rng.randrange(1, 40)}
    if u < 0.5 and f.get('zdep'):
        return {'kind': 'fibre', 'at': rng.randrange(1, 20)}
    return cm.async_fault(rng, 1, 20000)


def number(x):
    return float(x) if isinstance(x, str) else x


def search(solver, pulse, fibre, op, goal):
    k = {}
    if 'tol' in op:
        k['powertol'] = op['tol']
    if 'guess' in op:
        k['scalefactor_guess'] = op['guess']
    return solver.propagate_to_gain_goal(pulse, fibre, op['n'], power_goal=goal, **k)


def media(fibre):
    """Length, dispersion and nonlinearity."""
    d = fibre_state(fibre)
    return {k: v for k, v in d.items() if 'gain' not in k}


class Trials:
    """Counts the propagations of a search and notes the step each starts from."""
    def __init__(self, sim):
        self.sim, self.by, self.specs, self.most = sim, {}, {}, np.inf

    @contextlib.contextmanager
    def counting(self):
        from pynlo.interactions.FourWaveMixing.SSFM import SSFM

        def make(real):
            def propagate(me, *a, **k):
                c = self.by.setdefault(id(me), [])
                c.append(float(me.dz))
                if len(c) > MAX_TRIALS:
                    raise engine.Violation('endless', 'more than %d trial propagations' % MAX_TRIALS)
                power = k.get('output_power', a[3] if len(a) > 3 else 0)
                fibre = k.get('fiber', a[1] if len(a) > 1 else None)
                if power and fibre is not None and fibre.gamma and 'spectrum' in self.specs.get(id(fibre), ()) and \
                        abs(power) > self.most:
                    # a trial at such a power can take millions of steps: give up on it
                    self.sim.probe('absurd-trial')
                    raise engine.CallbackFault('a caller loses patience')
                return real(me, *a, **k)
            return propagate
        with seams.patched(SSFM, 'propagate', make) as there:
            if not there:
                self.sim.probe('absent: propagate')
            yield


def execute(sc, sim):
    ps = [fwm.make_pulse(p) for p in sc['pulses']]
    fl, tr = Faults(sim), Trials(sim)
    fs = []
    for f in sc['fibres']:
        x = fwm.make_fibre(f, sc['pulses'][0]['wl'])
        fl.wrap_fibre(x)
        fs.append(x)
    ss = [fwm.make_solver(s['s'], s['dz']) for s in sc['solvers']]
    tr.specs = {id(x): f for x, f in zip(fs, sc['fibres'])}
    tr.most = 1e5 * min(float(p.calc_epp() * p.frep_mks) for p in ps)
    p_before = [cm.pulse_state(p) for p in ps]
    f_before = [media(f) for f in fs]
    hist = []

    def one(op):
        solver, pulse, fibre = ss[op['solver']], ps[op['p']], fs[op['f']]
        f = sc['fibres'][op['f']]
        if op['op'] == 'go':
            ent = {'op': op, 'dz': float(solver.dz), 'power': op['power']}
            fl.set(op.get('fault'))
            kind, v = sim.call(fwm.propagate, solver, pulse, fibre, op['n'], False, op['power'], fault=op.get('fault'))
            fl.clear()
            if kind == 'ok':
                sim.simtime += f['length']
                sim.probe('propagations')
                hist.append(dict(ent, res=fwm.pack(v)))
            elif not isinstance(v, engine.INJECTED):
                raise engine.Violation('failed', 'propagate raised %s: %s' % (type(v).__name__, v))
            return
        goal = number(op.get('power'))
        if op.get('known'):
            probe = fwm.make_solver(sc['solvers'][op['solver']]['s'], float(solver.dz))
            kind, v = sim.call(fwm.propagate, probe, pulse, fibre, 1, False, op['target'])
            out = cm.require(sim, (kind, v), 'propagate')[3]
            goal = float(out.calc_epp() * out.frep_mks)
            op = dict(op, guess=op['target'] / goal)
        trials = tr.by[id(solver)] = []
        ent = {'op': op, 'dz': float(solver.dz), 'goal': goal}
        fl.set(op.get('fault'))
        kind, v = sim.call(search, solver, pulse, fibre, op, goal, fault=op.get('fault'))
        fl.clear()
        trials = list(trials)
        if kind == 'exc' and isinstance(v, engine.Violation):
            raise v
        sim.simtime += f['length'] * len(trials)
        tol = op.get('tol', 0.05)
        if kind == 'exc':
            if isinstance(v, engine.INJECTED):
                sim.probe('abandoned')
                return
            sim.probe('missed')
            if op.get('known'):
                raise engine.Violation('missed', 'the first guess meets the goal of %r W, and yet %s: %s' % (goal, v, op))
            if reachable(op, f, pulse, fibre, goal, tol):
                raise engine.Violation('missed', 'goal %r W can be reached in a linear amplifier, and yet %s: %s' % (
                    goal, v, op))
            hist.append(dict(ent, missed=True))
            return
        res, scale = v
        ent['res'], ent['scale'] = fwm.pack(res), float(np.real(scale))
        out = res[3]
        power = float(out.calc_epp() * out.frep_mks)
        sim.probe('met')
        if len(trials) > 2:
            sim.probe('met-after-several-trials')
        # with several steps the final propagation differs from the trials by its error
        slack = 1e-9
        if f['gamma'] or f.get('zdep'):
            slack += BOUND * sc['solvers'][op['solver']]['s']['local_error'] * (1 + goal / float(pulse.calc_epp() * pulse.frep_mks))
        off = abs(power - goal) - tol * abs(goal)
        RATIO.append(off / abs(goal) / sc['solvers'][op['solver']]['s']['local_error'] if goal else 0)
        if not off <= slack * abs(goal):
            raise engine.Violation('off-goal', 'reported success at %r W for a goal of %r W within %r: %s' % (
                power, goal, tol, op))
        ent['last'] = trials[-1] if trials else None
        hist.append(ent)

    with fl.seams(), tr.counting():
        sim.run_tasks([(lambda ops=ops: [one(op) for op in ops]) for ops in sc['tasks']])
    for i, p in enumerate(ps):
        r = cm.state_diff(cm.pulse_state(p), p_before[i])
        if r:
            raise engine.Violation('input-changed', 'input pulse %d: %s' % (i, r))
    for i, x in enumerate(fs):
        r = fibre_diff(f_before[i], media(x))
        if r:
            raise engine.Violation('input-changed', 'fibre %d: %s' % (i, r))
    return hist


BOUND = 1.
RATIO = []


def reachable(op, f, pulse, fibre, goal, tol):
    """Surely: a linear amplifier that amplifies all of the light, a goal near the input
    power and a guess that is not far off."""
    if f['gamma'] != 0 or 'spectrum' not in f or not np.isfinite(goal) or tol < 0.01:
        return False
    E = np.abs(np.array(pulse.AW)) ** 2
    s = f['spectrum']
    wl = 2.99792458e17 / np.maximum(np.array(pulse.F_THz) * 1e12, 1e9)      # nm
    g = np.interp(wl, s['x'], s['y'], left=0, right=0) / max(s['y'])
    P = float(pulse.calc_epp() * pulse.frep_mks)
    return (E * g).sum() / E.sum() > 0.5 and 0.9 * P < goal < 2 * P and 0.8 < op.get('guess', 1) < 1.25


def solo(sc, e, what):
    op = e['op']
    pulse = fwm.make_pulse(sc['pulses'][op['p']])
    fibre = fwm.make_fibre(sc['fibres'][op['f']], sc['pulses'][0]['wl'])
    solver = fwm.make_solver(sc['solvers'][op['solver']]['s'], e['last'] if what == 'last' else e['dz'])
    if what == 'search':
        try:
            res, scale = search(solver, pulse, fibre, op, e['goal'])
        except Exception:
            return None
        return fwm.pack(res), float(np.real(scale))
    power = e['power'] if what == 'plain' else e['goal'] * e['scale']
    return fwm.pack(fwm.propagate(solver, pulse, fibre, op['n'], False, power))


def check(sc, hist, ref, violate):
    for i, e in enumerate(hist):
        if e['op']['op'] == 'go':
            r = fwm.result_diff(e['res'], ref(solo, sc, e, 'plain'))
            if r:
                violate('not-isolated', 'propagation %d differs from a new solver: %s' % (i, r))
                return
            continue
        x = ref(solo, sc, e, 'search')
        if (x is None) != ('missed' in e):
            violate('not-isolated', 'search %d %s, and on a new solver %s: %s' % (
                i, 'missed' if 'missed' in e else 'met its goal', 'missed' if x is None else 'met its goal', e['op']))
            return
        if x is None:
            continue
        r = cm.bad(e['scale'], x[1], 1e-9) or fwm.result_diff(e['res'], x[0])
        if r:
            violate('not-isolated', 'search %d differs from a new solver: %s: %s' % (i, r, e['op']))
            return
        if e['last'] is None:
            continue
        r = fwm.result_diff(e['res'], ref(solo, sc, e, 'last'))
        if r:
            violate('not-plain', 'search %d (%s) differs from a propagation at the reported gain: %s' % (i, e['op'], r))
            return


