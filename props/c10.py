"""C10: results do not depend on the FFT backend or on leftover memory."""
import contextlib
import ctypes
import importlib
import importlib.abc
import sys

import numpy as np

from sim import engine, seams
from props import common as cm
from props import fwm, twm
from props.c07 import gen_family, gen_settings, gen_power

ID = 'C10'
QUICK = 500
THOROUGH = 40000
MAX_STEPS = 40_000_000
SIMTIME = 'metres of fibre and crystal'
ORACLE = 'the same calculation by new objects in a pristine process with FFTW, the default layout and untouched memory'
RULE = ('Seeded histories of propagations, coherence runs and difference-frequency integrations on solvers of the '
        'library as imported with FFTW, without it, with an FFTW that cannot be loaded, and with it switched off, in '
        'either transform layout, on changing grids, with uninitialised memory of every kind, failing planners, '
        'buffers and transforms, and interrupts.')
COMPONENTS = {'real': ['SSFM, dfg_problem, fftcomputer, ODEint, FiberInstance, Pulse', 'pyFFTW, scipy.fftpack, numpy.fft'],
              'stub': ['FFTW planner (estimate mode, one thread; made to fail on demand)',
                       'import of pyfftw (made to fail)', 'contents of uninitialised memory']}
ASSUMPTIONS = ['one backend and layout during one call']

HOW = ('fftw', 'absent', 'broken', 'off')
LIBS = {}
MODS = ('pynlo.interactions.FourWaveMixing.SSFM', 'pynlo.interactions.ThreeWaveMixing.DFG_integrand',
        'pynlo.light.PulseBase', 'pynlo.light.DerivedPulses', 'pynlo.light.beam', 'pynlo.light.high_V_waveguide',
        'pynlo.media.fibers.fiber', 'pynlo.media.fibers.calculators', 'pynlo.media.crystals.CrystalContainer',
        'pynlo.util.ode_solve.steppers', 'pynlo.util.ode_solve.dopr853', 'pynlo.util.ode_solve.steppers_helpers')


class _Broken(importlib.abc.MetaPathFinder):
    """pyfftw is there, but its shared library cannot be loaded."""
    def find_spec(self, name, path=None, target=None):
        if name == 'pyfftw' or name.startswith('pyfftw.'):
            raise OSError('libfftw3.so.3: cannot open shared object file')


def _ours():
    return {k: v for k, v in sys.modules.items() if k == 'pynlo' or k.startswith('pynlo.')}


def _import_without(how):
    names = sorted(_ours())
    hidden = {k: v for k, v in sys.modules.items() if k in names or k == 'pyfftw' or k.startswith('pyfftw.')}
    for k in hidden:
        del sys.modules[k]
    finder = _Broken()
    if how == 'absent':
        sys.modules['pyfftw'] = None
    else:
        sys.meta_path.insert(0, finder)
    try:
        for k in names:
            try:
                importlib.import_module(k)
            except Exception:
                pass
        return _ours()
    finally:
        if finder in sys.meta_path:
            sys.meta_path.remove(finder)
        for k in _ours():
            del sys.modules[k]
        sys.modules.pop('pyfftw', None)
        sys.modules.update(hidden)


def warm():
    if LIBS:
        return
    LIBS['fftw'] = LIBS['off'] = _ours()
    for how in ('absent', 'broken'):
        LIBS[how] = _import_without(how)
        if LIBS[how].keys() != LIBS['fftw'].keys():
            raise SystemExit('without FFTW (%s) these cannot be imported: %s' % (
                how, sorted(set(LIBS['fftw']) - set(LIBS[how]))))
    engine._codes = None
    engine.code_objects()


@contextlib.contextmanager
def library(how):
    """What `import pynlo` gives in an environment of that kind."""
    old = _ours()
    for k in old:
        del sys.modules[k]
    sys.modules.update(LIBS[how])
    try:
        with contextlib.ExitStack() as st:
            if how == 'off':
                for m in MODS[:2]:
                    st.enter_context(seams.patched(sys.modules[m], 'PYFFTW_AVAILABLE', lambda r: False))
            yield
    finally:
        for k in _ours():
            del sys.modules[k]
        sys.modules.update(old)


try:
    _libc = ctypes.CDLL(None)
    _libc.mallopt
except (OSError, AttributeError):
    _libc = None


@contextlib.contextmanager
def memory(sim, m):
    """Fresh memory holds what `m` says: through numpy's and pyfftw's
    constructors, and under them in the heap itself."""
    with contextlib.ExitStack() as st:
        if m['pattern'] != 'none':
            sim.fault_fired('memory-' + (m['pattern'] if isinstance(m['pattern'], str) else 'random'))
            for name in MODS:
                mod = sys.modules.get(name)
                for a in ('np', 'pyfftw'):
                    if mod is not None and getattr(mod, a, None) is not None:
                        st.enter_context(seams.patched(mod, a, lambda real: seams.Poison(real, m['pattern'])))
        if m['heap'] and _libc:
            sim.fault_fired('memory-heap')
            _libc.mallopt(-6, m['heap'])
        try:
            yield
        finally:
            if m['heap'] and _libc:
                _libc.mallopt(-6, 0)


class Failing:
    """Planner, buffer and transform failures of one operation."""
    def __init__(self, sim, fault):
        self.sim, self.left, self.kind, self.fired = sim, None, None, False
        if fault and fault['kind'] in ('planner', 'buffer', 'transform'):
            self.kind, self.left = fault['kind'], fault['at']

    def hit(self, kind, exc):
        if self.kind == kind and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                self.sim.fault_fired(kind)
                raise exc('injected')

    def wrap(self, kind, exc):
        def make(real):
            def f(*a, **k):
                self.hit(kind, exc)
                return real(*a, **k)
            return f
        return make

    @contextlib.contextmanager
    def seams(self, how):
        import scipy.fftpack
        with contextlib.ExitStack() as st:
            if how == 'fftw':
                import pyfftw
                st.enter_context(seams.patched(pyfftw, 'FFTW', self.wrap('planner', engine.CallbackFault)))
                st.enter_context(seams.patched(pyfftw, 'empty_aligned', self.wrap('buffer', engine.NoMemory)))
            elif self.kind == 'transform':
                for m in (scipy.fftpack, np.fft):
                    for a in ('fft', 'ifft'):
                        st.enter_context(seams.patched(m, a, self.wrap('transform', engine.NoMemory)))
            yield


def generate(rng, tier):
    ps, fs = gen_family(rng)
    for p in ps:
        if rng.random() < 0.3:
            p['n'] = rng.choice([48, 96, 100, 256])       # also sizes that are not powers of two
    hows = ['fftw'] + [rng.choice(HOW[1:])] if rng.random() < 0.5 else [rng.choice(HOW[1:])]
    solvers, ds = [], []
    for h in hows:
        f = rng.choice(fs)
        s = gen_settings(rng)
        solvers.append({'how': h, 's': s, 'dz': float('%.6g' % (s['dz_frac'] * f['length']))})
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 2])):
            d = twm.gen_problem(rng)
            d['runs'] = [twm.gen_run(rng, d, rtols=(1e-5, 1e-6, 1e-7)) for _ in range(2)]
            ds.append(d)
    ops = []
    one = rng.random() < 0.5
    pre0 = rng.random() < 0.3
    for _ in range(rng.choice([2, 3, 4])):
        op = {'mem': gen_memory(rng), 'pre': pre0 if one else rng.random() < 0.5}
        u = rng.random()
        if ds and u < 0.5:
            k = rng.randrange(len(ds))
            op.update(op='dfg', d=k, r=rng.randrange(2), how=rng.choice(HOW))
        else:
            op.update(op='go', solver=rng.randrange(len(solvers)), p=rng.randrange(len(ps)), f=rng.randrange(len(fs)),
                      n=rng.choice([1, 1, 2, 3]))
            f = fs[op['f']]
            op['reload'] = bool(f.get('zdep')) and rng.random() < 0.8
            if 'spectrum' in f:
                op['power'] = gen_power(rng, ps[op['p']])
            if u > 0.9:
                op.update(op='coherence', seed=rng.randrange(1000), n=1)
            op['how'] = solvers[op['solver']]['how']
        if rng.random() < 0.4:
            op['fault'] = gen_fault(rng, op['how'])
        ops.append(op)
    return {'pulses': ps, 'fibres': fs, 'solvers': solvers, 'problems': ds, 'fdr': rng.random() < 0.15, 'tasks': [ops]}


def gen_memory(rng):
    return {'pattern': rng.choice(['none', 'none', 'nan', 'huge', 'inf', rng.randrange(100)]),
            'heap': rng.choice([0, 0x80, 0x01, rng.randrange(1, 256)])}


def gen_fault(rng, how):
    u = rng.random()
    if how == 'fftw':
        if u < 0.45:
            return {'kind': 'planner', 'at': rng.randrange(1, 6)}
        if u < 0.8:
            return {'kind': 'buffer', 'at': rng.randrange(1, 12)}
    elif u < 0.7:
        return {'kind': 'transform', 'at': int(cm.loguniform(rng, 1, 500))}
    return cm.async_fault(rng, 1, 6000)


@contextlib.contextmanager
def layout(pre, fdr):
    from pynlo.interactions.FourWaveMixing import global_variables as g
    with seams.patched(g, 'PRE_FFTSHIFT', lambda r: pre), \
            seams.patched(g, 'USE_FREQUENCY_DOMAIN_RAMAN', lambda r: fdr):
        yield


def coherence(solver, pulse, fibre, op):
    g, res = solver.calculate_coherence(pulse, fibre, num_trials=2, random_seed=op['seed'], n_steps=1,
                                        output_power=op.get('power'))
    return {'trials': [fwm.pack((r[0], r[1], r[2], r[4])) for r in res]}


def dfg(d, r):
    problem = twm.make_problem(d)
    y0 = np.array(problem.ystart)
    rand = np.random.RandomState(1)
    dys = []
    for z in sorted(rand.uniform(0, d['xtal']['length'], 5)):
        y = y0 + 0.3 * np.abs(y0).max() * (rand.standard_normal(len(y0)) + 1j * rand.standard_normal(len(y0)))
        dy = np.empty_like(y)
        problem.deriv(z, y, dy)
        dys.append(dy)
    return dict(twm.pack(twm.integrate(d, r, problem)), dy=np.array(dys))


def execute(sc, sim):
    warm()
    hist, objs = [], {}

    def obj(how, kind, i):
        k = (LIBS[how]['pynlo'].__name__, id(LIBS[how]), kind, i)
        if k not in objs:
            objs[k] = fwm.make_pulse(sc['pulses'][i]) if kind == 'p' else \
                fwm.make_fibre(sc['fibres'][i], sc['pulses'][0]['wl'])
        return objs[k]
    solvers = {}
    for op in sc['tasks'][0]:
        how = op['how']
        fl = Failing(sim, op.get('fault'))
        with library(how), layout(op['pre'], sc['fdr']):
            ent = {'op': op}
            if op['op'] == 'dfg':
                d = sc['problems'][op['d']]
                with memory(sim, op['mem']), fl.seams(how):
                    kind, v = sim.call(dfg, d, d['runs'][op['r']], fault=op.get('fault'))
            else:
                pulse, fibre = obj(how, 'p', op['p']), obj(how, 'f', op['f'])
                s = sc['solvers'][op['solver']]
                if op['solver'] not in solvers:
                    solvers[op['solver']] = fwm.make_solver(s['s'], s['dz'])
                solver = solvers[op['solver']]
                ent['dz'] = float(solver.dz)
                with memory(sim, op['mem']), fl.seams(how):
                    if op['op'] == 'go':
                        kind, v = sim.call(fwm.propagate, solver, pulse, fibre, op['n'], op['reload'], op.get('power'),
                                           fault=op.get('fault'))
                        if kind == 'ok':
                            v = fwm.pack(v)
                    else:
                        kind, v = sim.call(coherence, solver, pulse, fibre, op, fault=op.get('fault'))
        if kind == 'exc':
            if isinstance(v, engine.INJECTED) or fl.fired:
                sim.probe('abandoned')
                continue
            raise engine.Violation('failed', '%s raised %s: %s' % (op, type(v).__name__, v))
        sim.probe('with-' + how)
        if not op['pre']:
            sim.probe('layout-plain')
        sim.simtime += sc['problems'][op['d']]['xtal']['length'] if op['op'] == 'dfg' else sc['fibres'][op['f']]['length']
        ent['res'] = v
        hist.append(ent)
    return hist


def solo(sc, e):
    op = e['op']
    with layout(True, sc['fdr']):
        if op['op'] == 'dfg':
            d = sc['problems'][op['d']]
            return dfg(d, d['runs'][op['r']])
        pulse = fwm.make_pulse(sc['pulses'][op['p']])
        fibre = fwm.make_fibre(sc['fibres'][op['f']], sc['pulses'][0]['wl'])
        solver = fwm.make_solver(sc['solvers'][op['solver']]['s'], e['dz'])
        if op['op'] == 'coherence':
            return coherence(solver, pulse, fibre, op)
        return fwm.pack(fwm.propagate(solver, pulse, fibre, op['n'], op['reload'], op.get('power')))


def check(sc, hist, ref, violate):
    for i, e in enumerate(hist):
        op = e['op']
        x = ref(solo, sc, e)
        if op['op'] == 'dfg':
            r = dfg_diff(e['res'], x, sc['problems'][op['d']]['runs'][op['r']])
        elif op['op'] == 'coherence':
            r = None
            for a, b in zip(e['res']['trials'], x['trials']):
                r = r or fwm.result_diff(a, b, 1e-8)
        else:
            r = fwm.result_diff(e['res'], x, 1e-8)
        if r:
            violate('backend', 'operation %d (%s) differs from FFTW with the default layout: %s' % (i, op, r))
            return


def dfg_diff(a, b, run):
    for p, q in zip(a['dy'], b['dy']):
        r = cm.bad(p, q, 1e-9)
        if r:
            return 'derivative: ' + r
    # step-size decisions, and steps across domain walls, multiply rounding differences
    k = slice(None) if run['dense'] else [0, -1]
    r = cm.bad(a['x'][k], b['x'][k], 1e-9)
    if r:
        return 'positions: ' + r
    r = cm.bad(a['ys'][k], b['ys'][k], 300 * run['rtol'] + 1e-8)
    return r and 'fields: ' + r
