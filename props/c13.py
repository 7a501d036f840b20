"""C13: DFG problems and results are isolated and repeatable."""
import contextlib
import copy

import numpy as np

from sim import engine, seams
from props import common as cm
from props import twm

ID = 'C13'
QUICK = 500
THOROUGH = 40000
MAX_STEPS = 60_000_000
SWITCH_P = [0.0003, 0.002, 0.02]
OPCODE_P = 0.03
SIMTIME = 'metres of crystal'
ORACLE = 'the same problem built and integrated alone in a pristine process, and repeated reading'
RULE = ('Seeded histories of building, integrating, abandoning, re-integrating and reading DFG problems that share pulses '
        'and crystals, in 1-3 threads (one problem per thread at a time), with step budgets, interrupts, failed '
        'allocations, failing transform planners and failing index evaluations; callers change pulses and crystals after '
        'building and overwrite what they were given. Each integration is compared with the same one in a pristine '
        'process; each reading with the first.')
COMPONENTS = {'real': ['dfg_problem, dfg_results_interface, fftcomputer', 'ODEint, StepperDopr853, Output, Controller',
                       'crystals, beams, Pulse', 'pyFFTW'],
              'stub': ['FFTW planner (estimate mode, one thread; made to fail on demand)', 'thread scheduler (simulated)']}
ASSUMPTIONS = ['one problem is used by one thread at a time', 'shared pulses and crystals are not changed while threads '
               'use them', 'the caller leaves the problem\'s own attributes alone']


def generate(rng, tier):
    base = twm.gen_problem(rng, ns=(32,), lmax=9e-5)
    pumps, sgnls = [base.pop('pump')], [base.pop('sgnl')]
    xtals = [base.pop('xtal')]
    for _ in range(rng.choice([0, 1])):
        pumps.append(dict(pumps[0], power=float('%.5g' % (pumps[0]['power'] * rng.uniform(0.3, 1))),
                          kind=rng.choice(['sech', 'gauss']), roll=rng.randrange(-4, 5)))
    for _ in range(rng.choice([0, 1])):
        sgnls.append(dict(sgnls[0], wl=round(sgnls[0]['wl'] + rng.uniform(-10, 10), 3),
                          chirp2=round(rng.uniform(-0.5, 0.5), 4)))
    for _ in range(rng.choice([0, 1])):
        x = copy.deepcopy(xtals[0])
        if x['kind'] == 'PPLN':
            x['T'] = rng.choice([25.0, 60.0, 120.0])
            if rng.random() < 0.5:
                x['pp'] = ['const', round(twm.qpm_period(pumps[0]['wl'], sgnls[0]['wl'], x['T']), 9)]
        else:
            x['theta'] = round(rng.uniform(0.7, 1), 3)
        x['length'] = float('%.6g' % (x['length'] * rng.uniform(0.5, 1)))
        xtals.append(x)
    opts = []
    for _ in range(rng.choice([1, 2])):
        o = {k: base[k] for k in ('wg', 'area', 'waist', 'gouy') if k in base}
        if opts:
            if o['wg']:
                o['area'] = float('%.6g' % (o['area'] * rng.uniform(0.8, 3)))
            else:
                o['waist'] = float('%.6g' % (o['waist'] * rng.uniform(0.9, 2)))
                o['gouy'] = not o['gouy']
        opts.append(o)
    dd = {'xtal': xtals[0], 'kappa': base['kappa']}
    nt = rng.choice([1, 1, 1, 2, 2, 3])
    tasks = []
    for _ in range(nt):
        ops, slots, res = [], 0, 0
        for _ in range(rng.choice([3, 4, 5, 6, 8])):
            u = rng.random()
            op = {}
            if not slots or u < 0.25:
                op = {'op': 'build', 'p': rng.randrange(len(pumps)), 's': rng.randrange(len(sgnls)),
                      'x': rng.randrange(len(xtals)), 'o': rng.randrange(len(opts))}
                if rng.random() < 0.2:
                    op['fault'] = gen_fault(rng, 600)
                slots += 1
            elif u < 0.62 or not res:
                op = {'op': 'run', 'k': rng.randrange(slots), 'r': twm.gen_run(rng, dd, rtols=(1e-4, 1e-5))}
                v = rng.random()
                if v < 0.25:
                    op['fault'] = cm.async_fault(rng, 1, 4000)
                elif v < 0.4:
                    op['budget'] = rng.choice([1, 2, 5])
                res += 1
            elif u < 0.82:
                op = {'op': 'read', 'k': rng.randrange(res), 'seed': rng.randrange(1 << 20), 'spoil': rng.random() < 0.3}
                if rng.random() < 0.2:
                    op['fault'] = cm.async_fault(rng, 1, 300)
            elif u < 0.9:
                op = {'op': 'post', 'k': rng.randrange(res)}
            elif nt == 1 and u < 0.95:
                op = {'op': 'edit', 'w': rng.choice(['pump', 'sgnl']), 'i': rng.randrange(2), 'f': rng.uniform(0.5, 1),
                      'how': rng.choice(['AW', 'wl', 'frep', 'chirp'])}
            elif nt == 1:
                op = {'op': 'retune', 'i': rng.randrange(2), 'v': rng.random()}
            else:
                op = {'op': 'deriv', 'k': rng.randrange(slots), 'z': rng.random()}
            ops.append(op)
            if op['op'] == 'build' and nt == 1 and rng.random() < 0.4:
                # the caller goes on using what the problem was built from
                w = rng.choice(['pump', 'sgnl'])
                ops.append({'op': 'edit', 'w': w, 'i': op['p' if w == 'pump' else 's'], 'f': rng.uniform(0.5, 1),
                            'how': rng.choice(['AW', 'wl', 'wl', 'frep', 'chirp'])})
        tasks.append(ops)
    return {'pumps': pumps, 'sgnls': sgnls, 'xtals': xtals, 'opts': opts, 'tasks': tasks}


def gen_fault(rng, hi):
    u = rng.random()
    if u < 0.25:
        return {'kind': 'planner', 'at': rng.randrange(1, 3)}
    if u < 0.45:
        return {'kind': 'buffer', 'at': rng.randrange(1, 4)}
    return cm.async_fault(rng, 1, hi)


@contextlib.contextmanager
def faulty_library(sim, armed):
    """The transform library's planner and buffers, failing on demand per task."""
    import pynlo.interactions.ThreeWaveMixing.DFG_integrand as mod
    lib = getattr(mod, 'pyfftw', None)
    if lib is None:
        sim.probe('absent: pyfftw')
        yield
        return

    def hit(kind, exc):
        a = armed.get(sim.cur.tid)
        if a and a[0] == kind:
            a[1] -= 1
            if a[1] == 0:
                sim.fault_fired(kind)
                raise exc('injected')

    def wrap(kind, exc):
        def make(real):
            def f(*a, **k):
                hit(kind, exc)
                return real(*a, **k)
            return f
        return make
    with seams.patched(lib, 'FFTW', wrap('planner', engine.CallbackFault)), \
            seams.patched(lib, 'empty_aligned', wrap('buffer', engine.NoMemory)):
        yield


def spec(ent):
    return dict(ent['o'], pump=None, sgnl=None, xtal=ent['x'])


def make(ent, pump, sgnl, xtal):
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    o = ent['o']
    if o['wg']:
        return dfg_problem(pump, sgnl, xtal, disable_SPM=True, wg_mode=True, Aeff_squm=o['area'],
                           apply_gouy_phase=o.get('gouy', False))
    return dfg_problem(pump, sgnl, xtal, disable_SPM=True, pump_waist=o['waist'], apply_gouy_phase=o['gouy'])


def integrate(ent, r, problem, budget=None, keep=None):
    ode = twm.make_integrator({'xtal': ent['x']}, r, problem)
    if keep is not None:
        keep.append(ode)
    if budget:
        ode.MAXSTP = budget
    ode.integrate()
    return ode


def snapshot(ode):
    return dict(twm.pack(ode), y=np.array(ode.ystart))


def crystal_spec(x, spec):
    """What the crystal is now, as plain data."""
    s = dict(spec)
    if s['kind'] == 'PPLN':
        s['T'] = float(x.T)
    else:
        s['theta'] = float(x.theta)
    return s


def read_one(res, i, w):
    if w == 'z':
        return np.array([res.get_z(i)])
    p = getattr(res, 'get_' + w)(i)
    return np.concatenate([p.AW, p.AT, p.W_mks, p.wl_nm, [p.center_wavelength_nm, p.time_window_ps]])


def execute(sc, sim):
    pumps = [cm.make_pulse(d) for d in sc['pumps']]
    sgnls = [cm.make_pulse(d) for d in sc['sgnls']]
    xtals, xs = [], []
    for d in sc['xtals']:
        x = twm.make_crystal(d, sc['pumps'][0], sc['sgnls'][0])
        xtals.append(x)
        xs.append(crystal_spec(x, d))
    hist, armed, kept = [], {}, []

    def inputs():
        return [cm.pulse_state(p) for p in pumps + sgnls]

    def idx(x):
        return [np.asarray(x.get_pulse_n(p) if type(x).__name__ == 'PPLN' else x.get_pulse_n(p, 'o')) for p in pumps + sgnls]
    shared = len(sc['tasks']) > 1
    if shared:
        p0, n0 = inputs(), [idx(x) for x in xtals]

    def task(ops):
        def run():
            slots, odes, results = [], [], []
            for op in ops:
                if op['op'] == 'build':
                    p, s, x = pumps[op['p'] % len(pumps)], sgnls[op['s'] % len(sgnls)], xtals[op['x'] % len(xtals)]
                    ent = {'p': cm.pulse_state(p), 's': cm.pulse_state(s), 'x': dict(xs[op['x'] % len(xtals)]),
                           'o': sc['opts'][op['o'] % len(sc['opts'])]}
                    f = op.get('fault')
                    if f and f['kind'] in ('planner', 'buffer'):
                        armed[sim.cur.tid] = [f['kind'], f['at']]
                    kind, v = sim.call(make, ent, p, s, x, fault=f)
                    armed.pop(sim.cur.tid, None)
                    if kind == 'exc':
                        if not isinstance(v, engine.INJECTED):
                            raise engine.Violation('failed', 'building raised %s: %s' % (type(v).__name__, v))
                        sim.probe('build-failed')
                    for q, st, name in ((p, ent['p'], 'pump'), (s, ent['s'], 'signal')):
                        r = cm.state_diff(cm.pulse_state(q), st)
                        if r:
                            raise engine.Violation('input-changed', 'building changed the %s: %s' % (name, r))
                    if kind == 'ok':
                        slots.append((ent, v))
                elif op['op'] == 'edit':
                    q = (pumps if op['w'] == 'pump' else sgnls)
                    q = q[op['i'] % len(q)]
                    how = op.get('how', 'AW')
                    if how == 'AW':
                        sim.call(q.set_AW, q.AW * op['f'])
                    elif how == 'wl':
                        sim.call(q.set_center_wavelength_nm, q.center_wavelength_nm * (1 + 0.004 * (op['f'] - 0.75)))
                    elif how == 'frep':
                        sim.call(q.set_frep_MHz, q.frep_MHz * op['f'])
                    else:
                        sim.call(q.chirp_pulse_W, 0.01 * (op['f'] - 0.75))
                elif op['op'] == 'retune':
                    i = op['i'] % len(xtals)
                    x = xtals[i]
                    if xs[i]['kind'] == 'PPLN':
                        xs[i]['T'] = round(25 + 100 * op['v'], 3)
                        x.set_T(xs[i]['T'])
                        if op['v'] < 0.5:
                            xs[i]['pp'] = ['const', round(2.2e-5 + 1e-5 * op['v'], 9)]
                            x.set_pp((xs[i]['pp'][1],))
                    else:
                        xs[i]['theta'] = round(0.7 + 0.3 * op['v'], 4)
                        x.set_theta(xs[i]['theta'])
                elif not slots:
                    continue
                elif op['op'] == 'deriv':
                    ent, prob = slots[op['k'] % len(slots)]
                    y = np.array(prob.ystart)
                    sim.call(prob.deriv, op['z'] * ent['x']['length'], y, np.empty_like(y))
                elif op['op'] == 'run':
                    ent, prob = slots[op['k'] % len(slots)]
                    y0 = np.array(prob.ystart)
                    part = []
                    kind, v = sim.call(integrate, ent, op['r'], prob, op.get('budget'), part, fault=op.get('fault'))
                    if not cm.same(prob.ystart, y0):
                        raise engine.Violation('problem-changed', 'integrating changed the start of the problem')
                    if kind == 'exc':
                        if isinstance(v, engine.INJECTED) or op.get('budget'):
                            sim.probe('abandoned')
                            continue
                        raise engine.Violation('failed', 'integrating raised %s: %s' % (type(v).__name__, v))
                    sim.simtime += ent['x']['length']
                    sim.probe('integrations')
                    e = dict(ent, r=op['r'], res=snapshot(v))
                    hist.append(e)
                    odes.append((v, prob, e))
                    kept.append((v, e['res']))
                    post(sim, v, prob, results, e)
                    e['lab'] = np.concatenate([results[-1][2][w] for w in ('pump', 'sgnl', 'idlr')], axis=1)
                elif op['op'] == 'post' and odes:
                    v, prob, e = odes[op['k'] % len(odes)]
                    post(sim, v, prob, results, e)
                elif op['op'] == 'read' and results:
                    res, seen, first = results[op['k'] % len(results)]
                    rng = np.random.RandomState(op['seed'])
                    for _ in range(6):
                        w = ['pump', 'sgnl', 'idlr', 'z'][rng.randint(4)]
                        i = rng.randint(-res.n_saves, res.n_saves)
                        kind, got = sim.call(read_one, res, i, w, fault=op.get('fault'))
                        if kind == 'exc':
                            if isinstance(got, engine.INJECTED):
                                continue
                            raise engine.Violation('failed', 'reading %s %d raised %r' % (w, i, got))
                        sim.probe('reads')
                        key = (w, i % res.n_saves)
                        if key in seen:
                            r = cm.bad(got, seen[key], 1e-12)
                            if r:
                                raise engine.Violation('reading-changed', '%s at plane %d read again: %s' % (w, i, r))
                        seen[key] = got
                        if w != 'z':
                            n = sc['pumps'][0]['n']
                            raw = first[w][i]
                            e = res._ent
                            wl = {'pump': e['p']['wl'], 'sgnl': e['s']['wl'],
                                  'idlr': 1 / (1 / e['p']['wl'] - 1 / e['s']['wl'])}[w]
                            if abs(got[-2] - wl) > 1e-9 * wl or abs(got[-1] - e['p']['T']) > 1e-12 * e['p']['T']:
                                raise engine.Violation('misread', '%s at plane %d has centre %r and window %r, of %r and %r'
                                                       % (w, i, got[-2], got[-1], wl, e['p']['T']))
                            if cm.bad(got[:n], raw, 1e-12):
                                raise engine.Violation('misread', '%s at plane %d is not the stored field' % (w, i))
                        if op.get('spoil') and w != 'z':
                            # the pulse handed out is the caller's until the next reading
                            p = getattr(res, 'get_' + w)(i)
                            p.set_AW(np.full(p.NPTS, 1 + 1j))
                            p.set_center_wavelength_nm(1234.)
            if shared:
                for t, p in zip(inputs(), p0):
                    r = cm.state_diff(t, p)
                    if r:
                        raise engine.Violation('input-changed', 'a shared pulse changed: ' + r)
        return run
    with faulty_library(sim, armed):
        sim.run_tasks([task(t) for t in sc['tasks']])
    from matplotlib import pyplot
    if pyplot.get_fignums():
        raise engine.Violation('side-effect', 'working with DFG problems drew into the user\'s figures')
    if shared:
        for x, n in zip(xtals, n0):
            for a, b in zip(idx(x), n):
                if not cm.same(a, b):
                    raise engine.Violation('input-changed', 'a shared crystal changed')
    for v, res in kept:
        now = snapshot(v)
        for q in ('x', 'ys', 'y'):
            if not cm.same(now[q], res[q]):
                raise engine.Violation('raw-changed', 'the raw solution (%s) changed after it was finished' % q)
    return hist


def post(sim, ode, prob, results, ent):
    kind, res = sim.call(prob.process_stepper_output, ode.out)
    if kind == 'exc':
        raise engine.Violation('failed', 'process_stepper_output raised %r' % res)
    first = {w: np.array(getattr(res, w + '_field')) for w in ('pump', 'sgnl', 'idlr')}
    for r0, _, f0 in results:
        if getattr(r0, '_of', None) is ode:
            for w in first:
                r = cm.bad(first[w], f0[w], 1e-12)
                if r:
                    raise engine.Violation('reading-changed', 'processing the same solution again gives another %s: %s' % (w, r))
    res._of, res._ent = ode, ent
    results.append((res, {}, first))


def pulse_of(st):
    from props.c07 import pulse_of as f
    return f(st)


def solo(todo):
    out = []
    for e in todo:
        x = twm.make_crystal(e['x'])
        prob = make(e, pulse_of(e['p']), pulse_of(e['s']), x)
        ode = integrate(e, e['r'], prob)
        res = prob.process_stepper_output(ode.out)
        out.append(dict(snapshot(ode), lab=np.concatenate([res.pump_field, res.sgnl_field, res.idlr_field], axis=1)))
    return out


def differ(e, x):
    return twm.diff(e['res'], x, 1e-9) or cm.bad(e['res']['y'], x['y'], 1e-9) or cm.bad(e['lab'], x['lab'], 1e-9)


def check(sc, hist, ref, violate):
    if not hist:
        return
    exp = cm.references(ref, solo, hist)
    for i, (e, x) in enumerate(zip(hist, exp)):
        r = differ(e, x) and differ(e, ref(solo, [e])[0])
        if r:
            violate('not-isolated', 'integration %d (%s, %s) differs from a new problem: %s' % (i, e['o'], e['r'], r))
            return
