"""C07: a split-step solver can be reused, abandoned and shared out safely."""
import contextlib
import copy

import numpy as np

from sim import engine, seams
from props import common as cm
from props import fwm

ID = 'C07'
QUICK = 1500
THOROUGH = 40000
MAX_STEPS = 40_000_000
SWITCH_P = [0.002, 0.01, 0.05]
OPCODE_P = 0.05
SIMTIME = 'metres of fibre'
ORACLE = 'the same propagation by a new solver in a pristine process'
RULE = ('Seeded histories of propagations, settings changes, coherence runs and gain searches on 1-3 solvers in 1-3 '
        'threads over shared pulses and fibres of different grids, with interrupts, failed allocations, failing '
        'transform planners and failing fibre functions; callers overwrite returned arrays. Each propagation is '
        'compared with the same one by a new solver in a pristine process.')
COMPONENTS = {'real': ['SSFM', 'FiberInstance', 'Pulse', 'pyFFTW'],
              'stub': ['FFTW planner (estimate mode, one thread; made to fail on demand)',
                       'thread scheduler (simulated)']}
ASSUMPTIONS = ['one solver is used by one thread at a time', 'pulses and fibres are not changed while threads use them']


def gen_family(rng):
    """Pulses of different grids that all suit the same fibres."""
    base = fwm.gen_pulse(rng, ns=(32, 64, 64, 128))
    ps = [base]
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = dict(base)
        what = rng.randrange(5)
        if what == 0:
            p['n'] = rng.choice([32, 64, 128])
            p['T'] = round(max(1.01, base['T'] * rng.choice([0.8, 1.0, 1.3])), 5)
        elif what == 1:
            p['T'] = round(max(1.01, base['T'] * rng.uniform(0.8, 1.4)), 5)
        elif what == 2:
            p['wl'] = round(base['wl'] + rng.uniform(-60, 60), 3)
        elif what == 3:     # all but the same
            p[rng.choice(['T', 'wl'])] *= 1 + rng.choice([-1, 1]) * rng.choice([1e-5, 1e-4, 1e-3, 1e-2])
            p['T'] = max(1.01, p['T'])
        else:
            p['power'] = round(base['power'] * rng.uniform(0.3, 1), 4)
            p['kind'] = rng.choice(['sech', 'gauss'])
        ps.append(p)
    fs = []
    for _ in range(rng.choice([1, 2, 3])):
        f = fwm.gen_fibre(rng, base, phi=(0.1, 2.0))
        if fs and rng.random() < 0.35:      # like the one before but for one thing
            k = rng.choice(['length', 'gamma', 'betas', 'gain'])
            g = {j: fs[-1][j] for j in ('length', 'betas', 'gamma', 'gain')}
            g[k] = f[k] if k != 'length' else fs[-1]['length'] * rng.choice([0.5, 0.9, 1.001])
            if k == 'betas':
                g[k] = [b * rng.choice([0.7, 1.01]) for b in fs[-1]['betas']]
            elif k == 'gamma':
                g[k] = fs[-1]['gamma'] * rng.choice([0.5, 0.99])
            elif k == 'gain':
                g[k] = fs[-1]['gain'] * 0.9 or float('%.5g' % (0.1 / fs[-1]['length']))
            f = g
        if rng.random() < 0.35:
            f['zdep'] = {k: round(rng.uniform(-0.9, 1.5), 3) for k in ('beta', 'gamma') if rng.random() < 0.7}
        elif rng.random() < 0.25 and f['length'] < 6:
            lo, hi = min(p['wl'] for p in ps), max(p['wl'] for p in ps)
            f['spectrum'] = gen_spectrum(rng, lo, hi)
        fs.append(f)
    return ps, fs


def gen_spectrum(rng, lo, hi):
    c = rng.uniform(lo - 20, hi + 20)
    w = rng.uniform(30, 120)
    x = np.linspace(0.5 * lo, 1.6 * hi, 40)
    y = np.exp(-((x - c) / w) ** 2)
    return {'x': [round(float(v), 4) for v in x], 'y': [float('%.6g' % v) for v in y]}


def gen_settings(rng):
    s = fwm.gen_solver(rng, errors=(1e-2, 1e-3, 1e-3, 1e-4))
    s['dz_frac'] = cm.loguniform(rng, 0.01, 3)
    return s


def generate(rng, tier):
    ps, fs = gen_family(rng)
    nt = rng.choice([1, 1, 1, 2, 2, 3])
    tasks, solvers = [], []
    for t in range(nt):
        mine = list(range(len(solvers), len(solvers) + (rng.choice([1, 2]) if nt == 1 else 1)))
        for _ in mine:
            f = rng.choice(fs)
            s = gen_settings(rng)
            solvers.append({'s': s, 'dz': float('%.6g' % (s['dz_frac'] * f['length']))})
        ops, done = [], 0
        for _ in range(rng.choice([2, 3, 4, 5])):
            u = rng.random()
            op = {'solver': rng.choice(mine)}
            if u < 0.66 or not done:
                op.update(op='go', p=rng.randrange(len(ps)), f=rng.randrange(len(fs)), n=rng.choice([1, 1, 2, 3]))
                if done and rng.random() < 0.15:
                    op['p'] = 'out%d' % rng.randrange(done)
                f = fs[op['f']]
                op['reload'] = bool(f.get('zdep')) and rng.random() < 0.8
                if 'spectrum' in f:
                    op['power'] = gen_power(rng, ps[op['p']] if not isinstance(op['p'], str) else ps[0])
                if rng.random() < 0.35:
                    op['fault'] = gen_fault(rng, f)
                done += 1
            elif u < 0.84:
                new = gen_settings(rng)
                keys = [k for k in ('local_error', 'raman', 'steep', 'simple') if rng.random() < 0.5]
                if 'f_R' in new and rng.random() < 0.5:
                    keys += ['f_R', 'tau_1', 'tau_2']
                s = {k: new[k] for k in keys}
                if rng.random() < 0.3:
                    s = {rng.choice(['raman', 'steep', 'simple', 'simple']): rng.random() < 0.5}
                elif rng.random() < 0.3:
                    s = {rng.choice(['f_R', 'tau_1', 'tau_2']): None}
                    for k, (a, b) in {'f_R': (0.1, 0.4), 'tau_1': (0.01, 0.02), 'tau_2': (0.025, 0.05)}.items():
                        if k in s:
                            s[k] = round(rng.uniform(a, b), 5)
                op.update(op='settings', s=s)
            elif u < 0.92:
                op.update(op='scribble', k=rng.randrange(8))
            elif u < 0.97:
                op.update(op='coherence', p=rng.randrange(len(ps)), f=rng.randrange(len(fs)),
                          seed=rng.randrange(1000), power=gen_power(rng, ps[0]))
                if rng.random() < 0.5:
                    op['fault'] = gen_fault(rng, fs[op['f']])
            else:
                op.update(op='goal', p=rng.randrange(len(ps)), f=rng.randrange(len(fs)),
                          power=gen_power(rng, ps[0]))
                if rng.random() < 0.5:
                    op['fault'] = gen_fault(rng, fs[op['f']])
            ops.append(op)
        tasks.append(ops)
    return {'pulses': ps, 'fibres': fs, 'solvers': solvers, 'tasks': tasks}


def gen_power(rng, p):
    avg = 2 * p['power'] * p['T0'] * 1e-12 * p['frep'] * 1e6
    return float('%.5g' % (avg * rng.uniform(0.7, 2)))


def gen_fault(rng, f):
    u = rng.random()
    if u < 0.2:
        return {'kind': 'planner', 'at': rng.randrange(1, 6)}
    if u < 0.35:
        return {'kind': 'buffer', 'at': rng.randrange(1, 12)}
    if u < 0.5 and f.get('zdep'):
        return {'kind': 'fibre', 'at': rng.randrange(1, 7)}
    return cm.async_fault(rng, 1, 8000)


class Faults:
    """Failing library calls, chosen per operation and counted on its own task."""
    def __init__(self, sim):
        self.sim = sim
        self.armed = {}     # task -> [kind, countdown]

    def set(self, fault):
        if fault and fault['kind'] in ('planner', 'buffer', 'fibre'):
            self.armed[self.sim.cur.tid] = [fault['kind'], fault['at']]

    def clear(self):
        self.armed.pop(self.sim.cur.tid, None)

    def hit(self, kind, exc):
        a = self.armed.get(self.sim.cur.tid)
        if a and a[0] == kind:
            a[1] -= 1
            if a[1] == 0:
                self.sim.fault_fired(kind)
                raise exc('injected')

    @contextlib.contextmanager
    def seams(self):
        import pynlo.interactions.FourWaveMixing.SSFM as mod
        if not getattr(mod, 'pyfftw', None):
            yield
            return

        def planner(real):
            def FFTW(*a, **k):
                self.hit('planner', engine.CallbackFault)
                return real(*a, **k)
            return FFTW

        def buffers(real):
            def empty_aligned(*a, **k):
                self.hit('buffer', engine.NoMemory)
                return real(*a, **k)
            return empty_aligned
        with seams.patched(mod.pyfftw, 'FFTW', planner), seams.patched(mod.pyfftw, 'empty_aligned', buffers):
            yield

    def wrap_fibre(self, x):
        for name in ('dispersion_function', 'gamma_function'):
            f = getattr(x, name, None)
            if f is not None:
                setattr(x, name, self.failing(f))

    def failing(self, f):
        def g(z):
            self.hit('fibre', engine.CallbackFault)
            self.sim.yield_point('fibre function', 0.1)
            return f(z)
        return g


def fibre_state(x):
    d = {k: copy.deepcopy(v) for k, v in vars(x).items() if not callable(v)}
    d.pop('gain_x_units', None)     # noted by get_gain from the specification
    if d.get('dispersion_changes_with_z'):
        for k in ('betas', 'x', 'y'):   # those of the last position asked for
            d.pop(k, None)
    return d


def fibre_diff(a, b, top=True):
    for k in sorted(set(a) | set(b)):
        if k.startswith('_') or k not in a and top:
            continue        # how it is kept, not what it is
        if (k in a) != (k in b):
            return '%s %s' % (k, 'lost' if k in a else 'appeared')
        x, y = a[k], b[k]
        if isinstance(x, dict):
            r = fibre_diff(x, y, False) if isinstance(y, dict) else 'replaced'
            if r:
                return '%s.%s' % (k, r)
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not cm.same(x, y):
                return k
        elif type(x).__module__ in ('builtins', 'numpy') and repr(x) != repr(y):
            return '%s: %r, was %r' % (k, y, x)
    return None


def execute(sc, sim):
    ps = [fwm.make_pulse(p) for p in sc['pulses']]
    fl = Faults(sim)
    fs = []
    for f in sc['fibres']:
        x = fwm.make_fibre(f, sc['pulses'][0]['wl'])
        fl.wrap_fibre(x)
        fs.append(x)
    ss = [fwm.make_solver(s['s'], s['dz']) for s in sc['solvers']]
    sets = [dict(s['s']) for s in sc['solvers']]
    p_before = [cm.pulse_state(p) for p in ps]
    f_before = [fibre_state(f) for f in fs]
    hist, kept = [], []

    def task(ops):
        def run():
            outs = []
            for op in ops:
                k = op['solver']
                solver = ss[k]
                if op['op'] == 'settings':
                    fwm.apply_settings(solver, op['s'])
                    sets[k].update(op['s'])
                    continue
                if op['op'] == 'scribble':
                    if outs:
                        scribble(outs.pop(op['k'] % len(outs)), kept)
                    continue
                src = None
                if isinstance(op['p'], str):
                    if int(op['p'][3:]) >= len(outs):
                        continue
                    pulse = outs[int(op['p'][3:])][3]
                    src = cm.pulse_state(pulse)
                else:
                    pulse = ps[op['p']]
                fibre = fs[op['f']]
                ent = {'p': src or p_before[op['p']], 'f': op['f'], 's': dict(sets[k]), 'dz': float(solver.dz),
                       'n': op.get('n'), 'reload': op.get('reload', False), 'power': op.get('power')}
                fl.set(op.get('fault'))
                if op['op'] == 'go':
                    kind, v = sim.call(fwm.propagate, solver, pulse, fibre, op['n'], op['reload'], op.get('power'),
                                       fault=op.get('fault'))
                elif op['op'] == 'coherence':
                    kind, v = sim.call(solver.calculate_coherence, pulse, fibre, num_trials=2,
                                       random_seed=op['seed'], n_steps=1, output_power=op['power'], fault=op.get('fault'))
                else:
                    kind, v = sim.call(solver.propagate_to_gain_goal, pulse, fibre, 1, power_goal=op['power'],
                                       fault=op.get('fault'))
                fl.clear()
                if src is not None:
                    r = cm.state_diff(cm.pulse_state(pulse), src)
                    if r:
                        raise engine.Violation('input-changed', 'propagating a pulse changed it: ' + r)
                if op['op'] != 'go':
                    sim.probe(op['op'])
                    if kind == 'exc' and not isinstance(v, engine.INJECTED) and op['op'] == 'coherence':
                        raise engine.Violation('failed', 'coherence raised %s: %s' % (type(v).__name__, v))
                    continue
                if kind == 'exc':
                    if isinstance(v, engine.INJECTED):
                        sim.probe('abandoned')
                        continue
                    raise engine.Violation('failed', 'propagate raised %s: %s' % (type(v).__name__, v))
                for a, want in settings_of(sets[k]).items():
                    if getattr(solver, a, want) != want:
                        raise engine.Violation('settings', 'propagating changed the solver\'s %s from %r to %r' % (
                            a, want, getattr(solver, a)))
                sim.simtime += sc['fibres'][op['f']]['length']
                sim.probe('propagations')
                ent['res'] = fwm.pack(v)
                outs.append(v)
                kept.append((v, ent['res']))
                hist.append(ent)
        return run
    with fl.seams():
        sim.run_tasks([task(t) for t in sc['tasks']])
    for i, p in enumerate(ps):
        r = cm.state_diff(cm.pulse_state(p), p_before[i])
        if r:
            raise engine.Violation('input-changed', 'propagating changed input pulse %d: %s' % (i, r))
    for i, f in enumerate(fs):
        r = fibre_diff(f_before[i], fibre_state(f))
        if r:
            raise engine.Violation('fibre-changed', 'propagating changed fibre %d: %s' % (i, r))
    for v, res in kept:
        now = fwm.pack(v)
        for q in ('z', 'AW', 'AT'):
            if not cm.same(now[q], res[q]):
                raise engine.Violation('changed-later', 'array %s of an earlier result was changed by later use' % q)
        r = cm.state_diff(now['out'], res['out'])
        if r:
            raise engine.Violation('changed-later', 'an output pulse was changed by later use: ' + r)
    return hist


def settings_of(s):
    d = {k: s[k] for k in ('local_error', 'f_R', 'tau_1', 'tau_2') if k in s}
    d.update(disable_Raman=not s['raman'], disable_self_steepening=not s['steep'], USE_SIMPLE_RAMAN=s['simple'])
    return d


def scribble(v, kept):
    """The caller overwrites what it was given."""
    z, AW, AT, p = v
    for i, (w, _) in enumerate(kept):
        if w is v:
            del kept[i]
            break
    z[:] = np.nan
    AW[:] = np.nan
    AT[:] = np.nan
    p.set_AW(np.full(p.NPTS, 1e3 + 1j))


def pulse_of(st):
    from pynlo.light.PulseBase import Pulse
    p = Pulse(frep_MHz=st['frep'], n=st['n'])
    p.set_center_wavelength_nm(st['wl'])
    p.set_time_window_ps(st['T'])
    p.set_AW(st['AW'])
    return p


def solo(sc, todo):
    out = []
    for e in todo:
        pulse = pulse_of(e['p'])
        fibre = fwm.make_fibre(sc['fibres'][e['f']], sc['pulses'][0]['wl'])
        solver = fwm.make_solver(e['s'], e['dz'])
        out.append(fwm.pack(fwm.propagate(solver, pulse, fibre, e['n'], e['reload'], e['power'])))
    return out


def check(sc, hist, ref, violate):
    if not hist:
        return
    exp = cm.references(ref, solo, hist, sc)
    for i, (e, x) in enumerate(zip(hist, exp)):
        r = fwm.result_diff(e['res'], x)
        if r:
            x = ref(solo, sc, [e])[0]
            r = fwm.result_diff(e['res'], x)
        if r:
            violate('not-isolated', 'propagation %d (fibre %d, n=%d, %s) differs from a new solver: %s' % (
                i, e['f'], e['n'], e['s'], r))
            return
