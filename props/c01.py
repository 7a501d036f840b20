"""C01: a pulse's axes always describe its current grid."""
import copy

import numpy as np

from sim import engine
from props import common as cm

ID = 'C01'
QUICK = 4000
THOROUGH = 60000
OPCODE_P = 0.4
SWITCH_P = [0.01, 0.05, 0.2, 0.5]
ORACLE = 'recomputation of every axis from the settings in force'
RULE = ('Seeded histories of 1-3 pulses: setters in every unit, reads of every axis and scalar, overwriting of '
        'returned arrays, pickling, and faults at a chosen traced line or opcode; or 2-4 reading threads on shared '
        'pulses plus private ones.')
COMPONENTS = {'real': ['Pulse and all its properties and setters', 'SechPulse, GaussianPulse, CWPulse constructors'],
              'stub': ['thread scheduler (simulated)']}
ASSUMPTIONS = ['concurrent readers only: a setter racing with a reader of the same pulse is not claimed',
               'even numbers of points']

READS = ['W_THz', 'F_THz', 'wl_nm', 'wl_mks', 'W_mks', 'F_mks', 'T_ps', 'T_mks', 'V_THz', 'V_mks',
         'dT_ps', 'dT_mks', 'dF_THz', 'dF_mks', 'time_window_ps', 'time_window_mks',
         'center_wavelength_nm', 'center_wavelength_mks', 'center_frequency_THz', 'center_frequency_mks',
         'NPTS', 'frep_MHz', 'frep_mks']
ARRAYS = READS[:10]
CACHED = ['wl_nm', 'W_mks', 'F_mks', 'wl_mks']
NS = [2, 4, 6, 10, 16, 32, 48, 64]
BIG = [100, 130, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384]


def expected(s, attr):
    """The value of an axis for settings s, from the definitions."""
    n, T, fc = s['n'], s['T'], s['fc']
    k = np.arange(n)
    V = 2 * np.pi * (k - n / 2.0) / T
    W = V + 2 * np.pi * fc
    tt = -T / 2.0 + k * (T / n)
    tab = {'W_THz': W, 'F_THz': W / (2 * np.pi), 'W_mks': W * 1e12, 'F_mks': W * 1e12 / (2 * np.pi),
           'T_ps': tt, 'T_mks': tt * 1e-12, 'V_THz': V, 'V_mks': V * 1e12,
           'dT_ps': T / n, 'dT_mks': T / n * 1e-12, 'dF_THz': 1.0 / T, 'dF_mks': 1e12 / T,
           'time_window_ps': T, 'time_window_mks': T * 1e-12,
           'center_wavelength_nm': cm.C_NMPS / fc, 'center_wavelength_mks': cm.C_NMPS / fc * 1e-9,
           'center_frequency_THz': fc, 'center_frequency_mks': fc * 1e12,
           'NPTS': n, 'frep_MHz': s['frep'], 'frep_mks': s['frep'] * 1e6}
    if attr == 'wl_nm':
        with np.errstate(all='ignore'):
            return 2 * np.pi * cm.C_NMPS / W
    if attr == 'wl_mks':
        with np.errstate(all='ignore'):
            return 2 * np.pi * cm.C_NMPS / W * 1e-9
    return tab[attr]


def mismatch(s, attr, got):
    exp = expected(s, attr)
    if np.ndim(exp) and np.shape(got) != np.shape(exp):
        return '%s has shape %s, expected %s' % (attr, np.shape(got), np.shape(exp))
    if attr in ('wl_nm', 'wl_mks'):
        # compare as wave numbers: a grid may touch zero frequency
        with np.errstate(all='ignore'):
            r = cm.bad(1.0 / np.asarray(got), 1.0 / exp, 1e-10)
    else:
        # spacings may come from a difference of frequencies
        k = {'dF_THz': 1, 'dF_mks': 1e12}.get(attr, 0)
        r = cm.bad(got, exp, 1e-10, max(abs(exp), 1e-4 * k * s['fc']) if k else None)
    return None if r is None else '%s %s (n=%d, T=%r ps, f0=%r THz)' % (attr, r, s['n'], s['T'], s['fc'])


def apply(s, op):
    """Settings after the setter op."""
    s = dict(s)
    k, v = op['op'], op.get('v')
    if k == 'set_NPTS':
        s['n'] = int(v)
    elif k == 'set_time_window_ps':
        s['T'] = v
    elif k == 'set_time_window_s':
        s['T'] = v * 1e12
    elif k == 'set_frequency_window_THz':
        s['T'] = s['n'] / v
    elif k == 'set_frequency_window_mks':
        s['T'] = s['n'] / v * 1e12
    elif k == 'set_center_wavelength_nm':
        s['fc'] = cm.C_NMPS / v
    elif k == 'set_center_wavelength_m':
        s['fc'] = cm.C_NMPS / (v * 1e9)
    elif k == 'set_frep_MHz':
        s['frep'] = v
    return s


def gen_setter(rng):
    k = rng.choice(['set_NPTS', 'set_NPTS', 'set_time_window_ps', 'set_time_window_ps', 'set_time_window_s',
                    'set_frequency_window_THz', 'set_frequency_window_mks', 'set_center_wavelength_nm',
                    'set_center_wavelength_nm', 'set_center_wavelength_m', 'set_frep_MHz'])
    # few distinct values, so that histories return to earlier settings
    v = {'set_NPTS': lambda: rng.choice(NS), 'set_time_window_ps': lambda: rng.choice([1.5, 2.0, 5.0, 10.0]),
         'set_time_window_s': lambda: rng.choice([1.5e-12, 2e-12, 1e-11]),
         'set_frequency_window_THz': lambda: rng.choice([3.2, 8.0, 16.0, 50.0]),
         'set_frequency_window_mks': lambda: rng.choice([3.2e12, 8e12, 5e13]),
         'set_center_wavelength_nm': lambda: rng.choice([532.0, 800.0, 1064.0, 1550.0, round(rng.uniform(400, 3000), 2)]),
         'set_center_wavelength_m': lambda: rng.choice([5.32e-7, 8e-7, 1.55e-6]),
         'set_frep_MHz': lambda: rng.choice([1.0, 80.0, 100.0])}[k]()
    if rng.random() < 0.06:     # far from the usual
        v = rng.choice(BIG) if k == 'set_NPTS' else v * cm.loguniform(rng, 0.02, 50)
    if isinstance(v, float) and rng.random() < 0.25:
        v *= 1 + rng.choice([1e-7, 1e-6, 1e-5, 1e-3]) * rng.choice([-1, 1])    # barely another value
    elif isinstance(v, float) and rng.random() < 0.15:
        v *= rng.uniform(0.7, 1.4)      # all digits
    return {'op': k, 'v': v}


def gen_pair(rng, p):
    """Changes that keep one combination of the settings (dT, dF, f T, ...) as it was: 'rel' setters
    multiply the present value."""
    a, b, x, y = rng.choice([
        ('n', 'T', 2, 2.0), ('n', 'T', 2, 0.5), ('fc', 'T', 2.0, 0.5), ('fc', 'T', 0.5, 2.0), ('fc', 'n', 0.5, 2), ('fc', 'T', 2.0, 2.0),
        ('n', None, 2, None), ('T', None, 2.0, None), ('fc', None, 2.0, None), ('fc', 'n', 2.0, 2)])
    ops = [{'op': 'rel', 'p': p, 'what': a, 'v': x}]
    if b:
        ops.append({'op': 'rel', 'p': p, 'what': b, 'v': y})
    if rng.random() < 0.5:
        ops.reverse()
    look = [{'op': 'read', 'attr': rng.choice(CACHED), 'p': p} for _ in range(2)]
    return look + ops + look


def gen_op(rng, npulse, faults=True, setters=True):
    r = rng.random()
    p = rng.randrange(npulse)
    if setters and r < 0.4:
        op = gen_setter(rng)
        if faults:
            op['fault'] = cm.async_fault(rng, 0.15, 8)
    elif r < 0.55:
        op = {'op': 'scribble', 'attr': rng.choice(CACHED + CACHED + ARRAYS), 'v': rng.choice([0.0, -1.0, 1e30])}
    elif r < 0.60 and setters:
        op = {'op': rng.choice(['pickle', 'copy', 'clone', 'clone_from', 'expand']), 'q': rng.randrange(npulse)}
        if op['op'] == 'expand':
            op['v'] = [rng.choice([0, 1, 1]), rng.choice(['before', 'after', 'even'])]
    elif r < 0.68:
        op = {'op': 'sweep'}
    else:
        op = {'op': 'read', 'attr': rng.choice(READS + CACHED * 4)}
        if faults:
            op['fault'] = cm.async_fault(rng, 0.25, 25)
    op['p'] = p
    if not op.get('fault'):
        op.pop('fault', None)
    return op


def gen_init(rng):
    k = rng.choice(['bare', 'bare', 'sech', 'gauss', 'cw', 'unset'])
    return {'kind': k, 'n': rng.choice(NS[3:]), 'wl': rng.choice([800.0, 1550.0]), 'T': rng.choice([2.0, 5.0]),
            'power': 1.0, 'T0': 0.1, 'frep': 100.0}


def generate(rng, tier):
    npulse = rng.choice([1, 1, 2, 3])
    sc = {'init': [gen_init(rng) for _ in range(npulse)]}
    if rng.random() < 0.45:
        sc['prelude'] = [gen_op(rng, npulse, faults=False) for _ in range(rng.randrange(0, 8))]
        nt = rng.choice([2, 2, 3, 4])
        sc['private'] = gen_init(rng)
        sc['tasks'] = []
        for t in range(nt):
            ops = []
            for _ in range(rng.randrange(2, 7)):
                if rng.random() < 0.3:
                    op = gen_op(rng, 1, faults=False)
                    op['p'] = -1
                else:
                    op = gen_op(rng, npulse, setters=False)
                ops.append(op)
            sc['tasks'].append(ops)
    else:
        sc['prelude'] = []
        ops = []
        for _ in range(rng.randrange(4, 30)):
            ops += gen_pair(rng, rng.randrange(npulse)) if rng.random() < 0.08 else [gen_op(rng, npulse)]
        sc['tasks'] = [ops]
    return sc


def build(d):
    if d['kind'] == 'unset':
        from pynlo.light.PulseBase import Pulse
        p = Pulse()
        p.set_NPTS(d['n'])      # the rest as it comes
        return p, {'n': d['n'], 'T': 1.0, 'fc': 1.0, 'frep': 100.0}
    if d['kind'] == 'bare':
        from pynlo.light.PulseBase import Pulse
        p = Pulse(frep_MHz=d['frep'], n=d['n'])
        p.set_center_wavelength_nm(d['wl'])
        p.set_time_window_ps(d['T'])
    else:
        p = cm.make_pulse(d)
    return p, {'n': d['n'], 'T': d['T'], 'fc': cm.C_NMPS / d['wl'], 'frep': d['frep']}


class World:
    def __init__(self, sim):
        self.sim, self.pulses, self.settings = sim, [], []

    def add(self, d):
        p, s = build(d)
        self.pulses.append(p)
        self.settings.append(s)
        return len(self.pulses) - 1

    def read(self, i, attr, fault=None):
        p = self.pulses[i]
        kind, v = self.sim.call(getattr, p, attr, fault=fault)
        if kind == 'exc':
            if isinstance(v, engine.INJECTED):
                return None
            raise engine.Violation('read-failed', 'reading %s raised %r' % (attr, v))
        return v

    def check(self, i, attr, v):
        m = mismatch(self.settings[i], attr, v)
        if m:
            raise engine.Violation('axis-wrong', m)

    def sweep(self, i, attrs=READS):
        for a in attrs:
            self.check(i, a, self.read(i, a))

    def do(self, op, private):
        sim, i = self.sim, op['p']
        if i < 0:
            i = private
        k = op['op']
        if k == 'read':
            v = self.read(i, op['attr'], op.get('fault'))
            if v is not None:
                self.check(i, op['attr'], v)
        elif k == 'scribble':
            v = self.read(i, op['attr'])
            self.check(i, op['attr'], v)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = op['v']
                sim.probe('overwritten')
        elif k == 'sweep':
            self.sweep(i)
        elif k == 'pickle':
            import pickle
            self.pulses[i] = pickle.loads(pickle.dumps(self.pulses[i]))
            self.sweep(i)
        elif k == 'copy':
            self.pulses[i] = copy.copy(self.pulses[i]) if op['q'] % 2 else copy.deepcopy(self.pulses[i])
            self.sweep(i)
        elif k in ('clone', 'clone_from', 'expand'):
            j = op['q']
            for x in (i, j):        # a field that fits the grid
                self.pulses[x].set_AW(np.ones(self.settings[x]['n'], complex))
            if k == 'clone':
                self.pulses[i] = self.pulses[i].create_cloned_pulse()
            elif k == 'clone_from':
                self.pulses[i].clone_pulse(self.pulses[j])
                self.settings[i] = dict(self.settings[j])
            elif self.settings[i]['n'] <= 64:
                self.pulses[i].expand_time_window(*op['v'])
                self.settings[i] = dict(self.settings[i], n=self.settings[i]['n'] << op['v'][0],
                                        T=self.settings[i]['T'] * 2 ** op['v'][0])
            self.sweep(i)
        else:
            old = self.settings[i]
            if k == 'rel':
                if op['what'] == 'n':
                    if old['n'] > 128 or old['n'] * op['v'] < 2:
                        return
                    op = {'op': 'set_NPTS', 'v': int(old['n'] * op['v'])}
                elif op['what'] == 'T':
                    op = {'op': 'set_time_window_ps', 'v': old['T'] * op['v']}
                else:
                    op = {'op': 'set_center_wavelength_nm', 'v': cm.C_NMPS / (old['fc'] * op['v'])}
                k = op['op']
            new = apply(old, op)
            kind, e = sim.call(getattr(self.pulses[i], k), op['v'], fault=op.get('fault'))
            self.settings[i] = new
            if kind == 'exc':
                if not isinstance(e, engine.INJECTED):
                    raise engine.Violation('set-failed', '%s(%r) raised %r' % (k, op['v'], e))
                # interrupted: the setting took effect or it did not, but not in between
                sim.probe('setter-interrupted')
                got = {a: self.read(i, a) for a in READS}
                errs = []
                for s in (old, new):
                    m = [x for x in (mismatch(s, a, v) for a, v in got.items()) if x]
                    if not m:
                        self.settings[i] = s
                        break
                    errs.append(m[0])
                else:
                    raise engine.Violation('axis-wrong', 'after interrupted %s neither the old nor the new '
                                           'grid: %s / %s' % (k, errs[0], errs[1]))


def execute(sc, sim):
    w = World(sim)
    for d in sc['init']:
        w.add(d)
    for op in sc['prelude']:
        w.do(op, 0)
    privates = [w.add(sc['private']) if 'private' in sc else 0 for _ in sc['tasks']]

    def task(ops, priv):
        def run():
            try:
                for op in ops:
                    w.do(op, priv)
            except engine.Violation as v:
                sim.violate(v.cls, v.msg)
        return run
    sim.run_tasks([task(o, p) for o, p in zip(sc['tasks'], privates)])
    # whatever happened, every pulse still answers from its settings, twice
    for _ in range(2):
        for i in range(len(w.pulses)):
            w.sweep(i)
    return [s for s in w.settings]
