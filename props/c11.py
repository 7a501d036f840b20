"""C11: noise and coherence runs are reproducible and well formed."""
import numpy as np

from sim import engine
from props import common as cm
from props import fwm
from props.c07 import Faults, fibre_diff, fibre_state, gen_family, gen_fault, gen_power, gen_settings, pulse_of

ID = 'C11'
QUICK = 700
THOROUGH = 40000
MAX_STEPS = 40_000_000
SWITCH_P = [0.002, 0.02, 0.1]
OPCODE_P = 0.05
SIMTIME = 'metres of fibre'
ORACLE = ('the same calculation in a pristine process, a mirror of the global generator that only its own users advance, '
          'and the definitions of coherence and of the noise models')
RULE = ('Seeded histories of coherence calculations, noise additions with given and with the global generator, rejected '
        'noise types, and draws from and reseedings of the global generator, by 1-3 threads over shared pulses, fibres and '
        'solvers of every setting, with interrupts, failed allocations and failing transform planners.')
COMPONENTS = {'real': ['SSFM.calculate_coherence, Pulse.add_noise', 'SSFM, FiberInstance, Pulse', 'numpy.random'],
              'stub': ['FFTW planner (estimate mode, one thread; made to fail on demand)', 'thread scheduler (simulated)']}
ASSUMPTIONS = ['one solver and one generator is used by one thread at a time',
               'a global generator used by several threads at once is drawn from atomically']

TYPES = ('one_photon_freq', 'sqrt_N_freq')


def generate(rng, tier):
    ps, fs = gen_family(rng)
    if rng.random() < 0.4:      # each trial's noise can be told from the output of a linear fibre
        f = rng.choice(fs)
        if 'spectrum' not in f:
            f['gamma'] = 0
            f.get('zdep', {}).pop('gamma', None)
    nt = rng.choice([1, 1, 2, 2, 3])
    tasks, solvers = [], []
    seeds = [rng.choice([0, 0, 1, 2 ** 32 - 1, 2 ** 31, rng.randrange(1000), rng.randrange(1000), rng.randrange(1000)])
             for _ in range(2)]
    for t in range(nt):
        s = gen_settings(rng)
        solvers.append({'s': s, 'dz': float('%.6g' % (s['dz_frac'] * rng.choice(fs)['length']))})
        ops = []
        for _ in range(rng.choice([2, 3, 4, 5])):
            u = rng.random()
            if u < 0.4:
                f = rng.randrange(len(fs))
                op = {'op': 'coherence', 'solver': t, 'p': rng.randrange(len(ps)), 'f': f, 'seed': rng.choice(seeds),
                      'trials': rng.choice([2, 2, 3, 4]) if rng.random() < 0.95 else 7, 'type': rng.choice(TYPES), 'n': rng.choice([1, 2, 3]),
                      'reload': bool(fs[f].get('zdep')) and rng.random() < 0.7}
                if 'spectrum' in fs[f]:
                    op['power'] = gen_power(rng, ps[op['p']])
                if rng.random() < 0.04:
                    op['type'] = 'none'
                if nt == 1 and rng.random() < 0.1:
                    op['seed'] = None
                if rng.random() < 0.25:
                    op['fault'] = gen_fault(rng, fs[f])
            elif u < 0.65:
                op = {'op': 'noise', 'p': rng.randrange(len(ps)), 'seed': rng.choice(seeds), 'type': rng.choice(TYPES),
                      'times': rng.choice([1, 1, 2]), 'gap': rng.random() < 0.3}
                if nt == 1 and rng.random() < 0.3:
                    op['seed'] = None
                if rng.random() < 0.2:
                    op['many'] = 100
                    ops.append(op)
                    continue
                if rng.random() < 0.1:
                    op['type'] = 'sqrt'
                if rng.random() < 0.15:
                    op['fault'] = cm.async_fault(rng, 1, 60)
            elif u < 0.9:
                op = {'op': 'draw', 'what': rng.choice(['normal', 'uniform', 'randint', 'shuffle']), 'k': rng.randrange(1, 9)}
            else:
                op = {'op': 'seed', 'seed': rng.randrange(1000)}
            ops.append(op)
        tasks.append(ops)
    return {'pulses': ps, 'fibres': fs, 'solvers': solvers, 'tasks': tasks, 'seed0': rng.randrange(1000)}


def draw(g, op):
    if op['what'] == 'shuffle':
        x = np.arange(op['k'] + 2)
        g.shuffle(x)
        return x
    if op['what'] == 'randint':
        return g.randint(0, 1000, size=op['k'])
    return getattr(g, op['what'])(size=op['k'])


def state(g):
    s = g.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def pack(v):
    g, res = v
    return {'g': np.array(g), 'trials': [fwm.pack((r[0], r[1], r[2], r[4])) for r in res]}


def coherence(solver, pulse, fibre, op):
    return solver.calculate_coherence(pulse, fibre, num_trials=op['trials'], random_seed=op['seed'],
                                      noise_type=op['type'], n_steps=op['n'], output_power=op.get('power'),
                                      reload_fiber_each_step=op['reload'])


def gap(p, p_d):
    """A pulse with bins that carry no light."""
    n = p.NPTS
    AW = np.array(p.AW)
    AW[:n // 8] = 0
    AW[n // 3] = 0
    p.set_AW(AW)


def execute(sc, sim):
    ps = [fwm.make_pulse(p) for p in sc['pulses']]
    fl = Faults(sim)
    fs = []
    for f in sc['fibres']:
        x = fwm.make_fibre(f, sc['pulses'][0]['wl'])
        fl.wrap_fibre(x)
        fs.append(x)
    ss = [fwm.make_solver(s['s'], s['dz']) for s in sc['solvers']]
    p_before = [cm.pulse_state(p) for p in ps]
    f_before = [fibre_state(f) for f in fs]
    np.random.seed(sc['seed0'])
    mirror = np.random.RandomState(sc['seed0'])
    hist = []

    def untouched(what):
        if state(np.random) != state(mirror):
            raise engine.Violation('global-generator', what + ' changed the global random generator')

    def do_coherence(op, outs):
        solver, pulse, fibre = ss[op['solver']], ps[op['p']], fs[op['f']]
        ent = {'op': op, 'dz': float(solver.dz)}
        fl.set(op.get('fault'))
        kind, v = sim.call(coherence, solver, pulse, fibre, op, fault=op.get('fault'))
        fl.clear()
        if op['seed'] is None:
            mirror.set_state(np.random.get_state())
        untouched('a coherence calculation with a seed')
        if op['type'] not in TYPES:
            if kind == 'ok':
                raise engine.Violation('accepted', 'noise type %r was accepted' % op['type'])
            return
        if kind == 'exc':
            if isinstance(v, engine.INJECTED):
                sim.probe('abandoned')
                return
            raise engine.Violation('failed', 'coherence raised %s: %s' % (type(v).__name__, v))
        sim.simtime += op['trials'] * sc['fibres'][op['f']]['length']
        sim.probe('coherences')
        ent['res'] = pack(v)
        if op['seed'] is not None:
            hist.append(ent)
        judge(op, ent['res'], sc['pulses'][op['p']])
        outs.append((v, ent['res']))

    def do_noise(op):
        pulse = ps[op['p']].create_cloned_pulse()
        if op['gap']:
            gap(pulse, sc['pulses'][op['p']])
        g = None if op['seed'] is None else np.random.RandomState(op['seed'])
        for k in range(op['times']):
            before = cm.pulse_state(pulse)
            src = mirror if g is None else g
            g0 = src.get_state()
            kind, v = sim.call(pulse.add_noise, op['type'], fault=op.get('fault'), **({} if g is None else {'random_state': g}))
            after = cm.pulse_state(pulse)
            if g is None:
                if kind == 'ok' and state(np.random) == state(mirror):
                    raise engine.Violation('generator', 'noise did not come from the global generator')
                mirror.set_state(np.random.get_state())
            else:
                untouched('adding noise from a given generator')
            if kind == 'exc':
                if not isinstance(v, engine.INJECTED) and op['type'] in TYPES:
                    raise engine.Violation('failed', 'add_noise raised %s: %s' % (type(v).__name__, v))
                r = cm.state_diff(after, before)
                if r and op['type'] not in TYPES:
                    raise engine.Violation('rejected', 'a rejected noise type changed the pulse: ' + r)
                if r:       # then it was done already
                    hist.append({'noise': op['type'], 'before': before, 'g': g0, 'after': after['AW']})
                sim.probe('noise-abandoned')
                return
            if op['type'] not in TYPES:
                raise engine.Violation('accepted', 'noise type %r was accepted' % op['type'])
            if g is not None and repr(g.get_state()) == repr(g0):
                raise engine.Violation('generator', 'noise did not come from the given generator')
            for q in ('n', 'T', 'wl', 'frep'):
                if after[q] != before[q]:
                    raise engine.Violation('grid', 'adding noise changed %s: %r, was %r' % (q, after[q], before[q]))
            sim.probe('noises')
            sized(op, before, after)
            hist.append({'noise': op['type'], 'before': before, 'g': g0, 'after': after['AW']})

    def do_sizes(op):
        pulse = ps[op['p']]
        g = np.random.RandomState(op['seed'] or 0)
        before, q = cm.pulse_state(pulse), []
        for _ in range(op['many']):
            p = pulse.create_cloned_pulse()
            p.add_noise(op['type'], random_state=g)
            q.append(np.array(p.AW))
        untouched('adding noise from a given generator')
        sim.probe('noise-sizes')
        spread(op, before, np.array(q))

    def task(ops):
        def run():
            outs = []
            for op in ops:
                if 'many' in op:
                    do_sizes(op)
                elif op['op'] == 'coherence':
                    do_coherence(op, outs)
                elif op['op'] == 'noise':
                    do_noise(op)
                elif op['op'] == 'seed':
                    np.random.seed(op['seed'])
                    mirror.seed(op['seed'])
                else:
                    a, b = draw(np.random, op), draw(mirror, op)
                    if not cm.same(a, b):
                        raise engine.Violation('global-generator', 'the global generator gave %s instead of %s' % (a, b))
                    sim.yield_point('drawn', 0.3)
            for v, res in outs:
                now = pack(v)
                for i, (a, b) in enumerate(zip(now['trials'], res['trials'])):
                    r = fwm.result_diff(a, b, 0) if not cm.same(a['AW'], b['AW']) else None
                    if r:
                        raise engine.Violation('changed-later', 'trial %d of an earlier result changed: %s' % (i, r))
        return run
    with fl.seams():
        sim.run_tasks([task(t) for t in sc['tasks']])
    untouched('the run')
    for i, p in enumerate(ps):
        r = cm.state_diff(cm.pulse_state(p), p_before[i])
        if r:
            raise engine.Violation('input-changed', 'input pulse %d: %s' % (i, r))
    for i, f in enumerate(fs):
        r = fibre_diff(f_before[i], fibre_state(f))
        if r:
            raise engine.Violation('input-changed', 'fibre %d: %s' % (i, r))
    return hist


PLANCK = 6.62607015e-34


def photons(before):
    n, T = before['n'], before['T']
    dF = 1e12 / T
    hv = PLANCK * (cm.C_MKS / (before['wl'] * 1e-9) + (np.arange(n) - n // 2) * dF)
    A = np.abs(before['AW'])
    return n, A, A ** 2 / dF / hv, hv * dF


def spread(op, before, fields):
    """Many noises: of the right size in every part of the spectrum, of any phase."""
    n, A, N, unit = photons(before)
    noise = fields - before['AW']
    if op['type'] == 'sqrt_N_freq':
        unit = unit * np.sqrt(N)
    use = unit > 1e-12 * A
    if op['type'] == 'sqrt_N_freq':
        use &= N > 1e-6
    if use.sum() < 16:
        return
    q = noise[:, use] / unit[use]
    for i, part in enumerate(np.array_split(q, max(2, use.sum() // 8), axis=1)):
        # 800 or more standard normal draws
        rms = np.sqrt(np.mean(np.abs(part) ** 2))
        if not 0.8 < rms < 1.2:
            raise engine.Violation('noise-model', '%s noise in part %d of the spectrum has rms %.3g of its size' % (
                op['type'], i, rms))
        m = np.abs(np.mean(part ** 2)) / rms ** 2
        if m > 0.35:
            raise engine.Violation('noise-model', '%s noise in part %d of the spectrum favours a phase: %.3g' % (
                op['type'], i, m))


def sized(op, before, after):
    """The noise is as large as its model says, bin by bin."""
    n, A, N, unit = photons(before)
    noise = np.abs(after['AW'] - before['AW'])
    if op['type'] == 'sqrt_N_freq':
        if np.any(after['AW'][A == 0]):
            raise engine.Violation('noise-model', 'photon-number noise in bins without light')
        unit = unit * np.sqrt(N)
    use = unit > 1e-13 * A
    if op['type'] == 'sqrt_N_freq':
        use &= N > 1e-6
    if use.sum() < 16:
        return
    fine = use & (unit > 1e-7 * A)
    if fine.any() and (noise[fine] / unit[fine]).min() < 1e-8:
        k = int(np.argmin(np.where(fine, noise / np.where(fine, unit, 1), 1)))
        raise engine.Violation('noise-model', 'no %s noise in bin %d of %d, with %.3g photons' % (op['type'], k, n, N[k]))
    q = noise[use] / unit[use]
    rms = np.sqrt(np.mean(q ** 2))
    # 16 or more standard normal draws
    if not 0.25 < rms < 2.2 or q.max() > 7:
        raise engine.Violation('noise-model', '%s noise of %d bins has rms %.3g of its size, at most %.3g' % (
            op['type'], use.sum(), rms, q.max()))


def judge(op, res, p):
    g, trials = res['g'], res['trials']
    if len(trials) != op['trials'] or g.shape != (p['n'], op['n']):
        raise engine.Violation('shape', '%d trials, coherence of shape %s for %s' % (len(trials), g.shape, op))
    E = np.array([t['AW'] for t in trials]).astype(complex)
    for i in range(len(E)):
        for j in range(i):
            if cm.same(E[i], E[j]):
                raise engine.Violation('same-noise', 'trials %d and %d have the same noise' % (j, i))
    m = np.abs(E)
    bright = m.min(0) > 1e-9
    if not bright.any():
        return
    b = g[bright]
    if not (np.isfinite(b).all() and b.min() >= 0 and b.max() <= 1 + 1e-5):
        k = int(np.argmax(~((b >= 0) & (b <= 1 + 1e-5))))
        raise engine.Violation('range', 'coherence of %r' % b[k])
    ph = np.where(bright, E / np.where(m > 0, m, 1), 0)
    t = len(E)
    exp = np.abs(sum(np.conj(ph[i]) * ph[j] for i in range(t) for j in range(t) if i != j)) / (t * (t - 1))
    r = cm.bad(b, exp[bright], 1e-4, 1.0)
    if r:
        raise engine.Violation('definition', 'coherence is not that of the trials: ' + r)
    finite = g[np.isfinite(g)]
    if finite.size and finite.min() < 0:
        raise engine.Violation('range', 'negative coherence')


def solo(sc, e):
    if 'noise' in e:
        p = pulse_of(e['before'])
        g = np.random.RandomState()
        g.set_state(e['g'])
        p.add_noise(e['noise'], random_state=g)
        return np.array(p.AW)
    op = e['op']
    pulse = fwm.make_pulse(sc['pulses'][op['p']])
    fibre = fwm.make_fibre(sc['fibres'][op['f']], sc['pulses'][0]['wl'])
    solver = fwm.make_solver(sc['solvers'][op['solver']]['s'], e['dz'])
    return pack(coherence(solver, pulse, fibre, op))


def solos(sc, es):
    return [solo(sc, e) for e in es]


def clean(sc, e):
    """The same propagation without noise."""
    op = e['op']
    pulse = fwm.make_pulse(sc['pulses'][op['p']])
    fibre = fwm.make_fibre(sc['fibres'][op['f']], sc['pulses'][0]['wl'])
    solver = fwm.make_solver(sc['solvers'][op['solver']]['s'], e['dz'])
    return fwm.pack(fwm.propagate(solver, pulse, fibre, op['n'], op['reload']))


def independent(e, x):
    """In a linear fibre: the noise of each trial is its own, unrelated to that of the others."""
    noise = np.array([t['out']['AW'] - x['out']['AW'] for t in e['res']['trials']])
    use = np.abs(noise).min(0) > 1e-11 * np.abs(x['out']['AW']).max()
    if use.sum() < 48:
        return None
    q = noise[:, use]
    size = (np.abs(q) ** 2).mean(0)
    for i in range(len(q)):
        for j in range(i):
            c = abs(np.mean(np.conj(q[i]) * q[j] / size))
            if c > 0.48:        # seven standard deviations of 48 bins
                return 'the noises of trials %d and %d are correlated: %.3g' % (j, i, c)


def compare(e, x):
    if 'noise' in e:
        return cm.bad(e['after'], x, 1e-14)
    for i, (a, b) in enumerate(zip(e['res']['trials'], x['trials'])):
        r = fwm.result_diff(a, b)
        if r:
            return 'trial %d: %s' % (i, r)
    E = np.array([t['AW'] for t in x['trials']])
    ok = np.abs(E).min(0) > 1e-9
    return cm.bad(e['res']['g'][ok], x['g'][ok], 1e-4, 1.0)


def check(sc, hist, ref, violate):
    if not hist:
        return
    for e, x in zip(hist, cm.references(ref, solos, hist, sc)):
        if compare(e, x):
            r = compare(e, ref(solo, sc, e))
            if r:
                violate('not-reproducible', '%s: %s' % (e.get('op') or e['noise'], r))
                return
    for e in hist:
        if 'op' in e and not sc['fibres'][e['op']['f']]['gamma'] and 'spectrum' not in sc['fibres'][e['op']['f']]:
            r = independent(e, ref(clean, sc, e))
            if r:
                violate('same-noise', '%s: %s' % (e['op'], r))
                return
