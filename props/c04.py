"""C04: crystal refractive indices do not depend on what was asked before."""
import copy

import numpy as np

from sim import engine
from props import common as cm

ID = 'C04'
QUICK = 2400
THOROUGH = 80000
OPCODE_P = 0.25
SWITCH_P = [0.01, 0.05, 0.2, 0.5]
ORACLE = 'the same question put to a fresh crystal in a pristine process'
RULE = ('Seeded histories over 1-4 crystals of two kinds and 1-3 pulses: evaluations of every kind, setting changes, '
        'cache switching, grid changes, overwriting of returned arrays, interrupts during evaluation; 1-4 threads '
        'evaluate shared crystals while others change private ones. Every answer is compared with the same question '
        'put to a fresh crystal in a pristine process.')
COMPONENTS = {'real': ['Crystal, PPLN, AgGaSe2 and their Sellmeier code', 'Pulse axes'],
              'stub': ['thread scheduler (simulated)']}
ASSUMPTIONS = ['a crystal is not reconfigured by one thread while another evaluates it',
               'interrupts hit evaluations, not setting changes']

AXES = {'PPLN': [None], 'AgGaSe2': [None, 'mix', 'o', 'e']}


def gen_crystal(rng):
    if rng.random() < 0.55:
        return {'kind': 'PPLN', 'T': rng.choice([25.0, 40.0, 120.0]), 'src': 'Gayer_5pctMg', 'pp': None,
                'length': rng.choice([1e-3, 5e-3]), 'cache': rng.random() < 0.8}
    return {'kind': 'AgGaSe2', 'theta': rng.choice([0.0, 0.5, 0.9]), 'length': rng.choice([1e-3, 1e-2]),
            'pp': None, 'cache': rng.random() < 0.8}


def gen_set(rng, c):
    k = rng.choice(['T', 'T', 'load', 'pp', 'chirp', 'cache'] if c['kind'] == 'PPLN'
                   else ['theta', 'theta', 'theta', 'chirp', 'cache'])
    op = {'op': 'set', 'how': k}
    if k == 'T':
        op['v'] = rng.choice([25.0, 40.0, 80.0, 120.0, 0.0])
    elif k == 'load':
        op['v'] = [rng.choice([25.0, 40.0, 120.0, 0.0]), rng.choice(['Deng', 'Gayer_5pctMg'])]
    elif k == 'theta':
        op['v'] = rng.choice([0.0, 0.3, 0.5, 0.9])
    elif k == 'pp':
        op['v'] = rng.choice([2.5e-5, 2.8e-5, 3.1e-5])
        op['tuple'] = rng.random() < 0.5
    elif k == 'chirp':
        op['v'] = [rng.choice([2.5e-5, 2.8e-5]), rng.choice([2.9e-5, 3.3e-5])]
    else:
        op['v'] = rng.random() < 0.7
    if k in ('T', 'theta', 'pp') and rng.random() < 0.25:
        op['v'] = near(rng, op['v'])
    return op


def near(rng, v):
    """Almost the same value."""
    return v * (1 + rng.choice([-1, 1]) * rng.choice([1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]))


def gen_query(rng, c, npulse, faults):
    k = rng.choice(['pulse_n'] * 6 + ['pulse_k'] * 4 + ['n', 'n', 'narr', 'narr', 'vg', 'vgarr', 'delay', 'D', 'match',
                                                       'match', 'threshold', 'pp', 'pp', 'bw', 'length', 'delayL',
                                                       'Darr', 'Dfs', 'bwarr', 'period', 'period', 'invert'])
    if k in ('period', 'invert') and c['kind'] != 'PPLN':
        k = 'angle'
    q = {'op': 'ask', 'how': k, 'axis': rng.choice(AXES[c['kind']]), 'q': rng.randrange(npulse)}
    if k in ('n', 'vg', 'D', 'delay', 'match', 'bw', 'delayL', 'Dfs', 'invert'):
        q['wl'] = [rng.choice([1030.0, 1064.0, 1560.0]), rng.choice([1400.0, 1550.0, 2200.0])]
    if k in ('period', 'angle'):
        # any two of pump, signal and idler, or all three
        q['three'] = rng.choice([[1064.0, 1550.0, None], [None, 1550.0, 3400.0], [1064.0, None, 3400.0],
                                 [1064.0, 1560.0, 3345.9], [1560.0, 2700.0, None], [1560.0, None, 3700.0]])
        q['silent'] = rng.random() < 0.5
        if rng.random() < 0.4:
            q['dkL'] = rng.choice([0.0, 3.2, 6.4])
    if k in ('delayL', 'invert'):
        q['L'] = rng.choice([1e-3, 2e-3, 1e-2])
    if k in ('narr', 'vgarr', 'Darr', 'bwarr'):
        q['wl'] = [rng.choice([900.0, 1100.0]), rng.choice([1800.0, 2500.0])]
    if 'wl' in q and rng.random() < 0.25:
        q['wl'][0] = near(rng, q['wl'][0])
    if k in ('narr', 'vgarr', 'Darr') and rng.random() < 0.2:
        q['m'] = rng.choice([1, 2, 100, 1000])
    if k == 'pp':
        q['x'] = rng.choice([3e-4, 1e-3])
    if c['pp'] is None and c['kind'] != 'PPLN' and k == 'pp':
        q['how'] = 'length'
    if faults:
        f = cm.async_fault(rng, 0.15, 25)
        if f:
            q['fault'] = f
    if k in ('pulse_n', 'pulse_k', 'narr') and rng.random() < 0.4:
        q['scribble'] = rng.choice([0.0, 7.0])
    return q


def apply(c, op):
    c = copy.deepcopy(c)
    h, v = op['how'], op['v']
    if h == 'T':
        c['T'] = v
    elif h == 'load':
        c['T'], c['src'] = v
        c['pp'] = None
    elif h == 'theta':
        c['theta'] = v
    elif h == 'pp':
        c['pp'] = ['const', v, op['tuple']]
    elif h == 'chirp':
        c['pp'] = ['chirp'] + v
    else:
        c['cache'] = v
    return c


def generate(rng, tier):
    nc, npu = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3])
    cs = [gen_crystal(rng) for _ in range(nc)]
    sc = {'crystals': cs, 'pulses': [cm.gen_pulse(rng, ns=(8, 16, 32), wl=(1000, 1700)) for _ in range(npu)]}
    if npu > 1 and rng.random() < 0.5:
        # pulses that differ in one setting only
        sc['pulses'][1] = dict(sc['pulses'][0], **rng.choice([{'T': 7.5}, {'n': 64}, {'wl': 1333.0}, {'n': 512},
            {'wl': near(rng, sc['pulses'][0]['wl'])}, {'T': near(rng, sc['pulses'][0]['T'])}]))
    state = copy.deepcopy(cs)

    def mix(n, which, setp, faults=True):
        ops = []
        for _ in range(n):
            i = rng.choice(which)
            if rng.random() < setp:
                if rng.random() < 0.2:
                    op = {'op': 'regrid', 'q': rng.randrange(npu), 'how': rng.choice(['wl', 'T', 'n']),
                          'v': rng.random()}
                else:
                    op = gen_set(rng, state[i])
                    state[i] = apply(state[i], op)
            else:
                op = gen_query(rng, state[i], npu, faults)
            op['c'] = i
            ops.append(op)
        return ops
    if rng.random() < 0.4:
        sc['prelude'] = mix(rng.randrange(0, 6), list(range(nc)), 0.4, False)
        sc['tasks'] = []
        for t in range(rng.choice([2, 2, 3, 4])):
            if rng.random() < 0.3:
                cs.append(gen_crystal(rng))
                state.append(copy.deepcopy(cs[-1]))
                ops = mix(rng.randrange(2, 7), [len(cs) - 1], 0.4)
                sc['tasks'].append([o for o in ops if o['op'] != 'regrid'])
            else:
                sc['tasks'].append(mix(rng.randrange(2, 7), list(range(nc)), 0.0))
        sc['tasks'] = [t or mix(2, list(range(nc)), 0.0) for t in sc['tasks']]
    else:
        sc['prelude'] = []
        sc['tasks'] = [mix(rng.randrange(4, 20), list(range(nc)), 0.35)]
    return sc


# --------------------------------------------------------------- building
def set_pp(x, pp):
    if pp is None:
        return
    if pp[0] == 'const':
        v = pp[1]
        x.set_pp((v,) if pp[2] else (lambda z: v))
    else:
        x.set_pp_chirp(pp[1], pp[2])


def build(c):
    from pynlo.media.crystals import PPLN, AgGaSe2
    if c['kind'] == 'PPLN':
        x = PPLN(c['T'], length=c['length'], enable_caching=c['cache'])
        if c['src'] != 'Gayer_5pctMg':
            x.load(c['T'], c['src'])
    else:
        x = AgGaSe2(c['theta'], length=c['length'])
        x.set_caching(c['cache'])
    set_pp(x, c['pp'])
    return x


def bare_pulse(d):
    from pynlo.light.PulseBase import Pulse
    p = Pulse(n=d['n'])
    p.set_time_window_ps(d['T'])
    p.set_center_wavelength_nm(d['wl'])
    return p


def ask(x, q, pulse):
    """(function, args, array argument or None)"""
    h, ax = q['how'], q.get('axis')
    w = q.get('wl')
    a = () if ax is None else (ax,)
    axd = ax
    if ax is None and type(x).__name__ == 'AgGaSe2':
        axd = 'mix'
    if h == 'pulse_n':
        return x.get_pulse_n, (pulse,) + a, None
    if h == 'pulse_k':
        return x.get_pulse_k, (pulse,) + a, None
    if h == 'n':
        return x.n, (w[0],) + a, None
    if h == 'narr':
        arr = np.linspace(w[0], w[1], q.get('m', 9))
        return x.n, (arr,) + a, arr
    if h == 'vg':
        return x.calculate_group_velocity_nm_ps, (w[0], axd), None
    if h == 'vgarr':
        arr = np.linspace(w[0], w[1], q.get('m', 4))
        return x.calculate_group_velocity_nm_ps, (arr, axd), arr
    if h == 'delay':
        return x.calculate_pulse_delay_ps, (w[0], w[1], None, axd), None
    if h == 'delayL':
        return x.calculate_pulse_delay_ps, (w[0], w[1], q['L'], axd), None
    if h == 'Darr':
        arr = np.linspace(w[0], w[1], q.get('m', 4))
        return x.calculate_D_ps_nm_km, (arr, axd), arr
    if h == 'Dfs':
        return x.calculate_D_fs_um_mm, (w[0], axd), None
    if h == 'bwarr':
        arr = np.linspace(1400., 1700., 3)
        return x.calculate_mix_phasematching_bw, (w[0], arr, axd), arr
    if h == 'period':
        return (lambda *a: x.calculate_poling_period(*a, silent=q['silent'])), \
            tuple(q['three']) + ((q['dkL'],) if 'dkL' in q else ()), None
    if h == 'angle':
        return x.phasematch, tuple(q['three']) + (q['silent'],), None
    if h == 'invert':
        return x.invert_dfg_qpm_to_signal_wl, (1064.0, 2.9e-5 + q['L'] * 1e-4), None
    if h == 'D':
        return x.calculate_D_ps_nm_km, (w[0], axd), None
    if h == 'bw':
        return x.calculate_mix_phasematching_bw, (w[0] * 0.7, w[1], axd), None
    if h == 'match':
        if hasattr(x, 'calculate_poling_period'):
            return x.calculate_poling_period, (w[0], w[1] * 1.05, None), None
        return x.phasematch, (1560.0, w[1] + 700, None, True), None
    if h == 'threshold':
        return (lambda: x.damage_threshold_mks), (), None
    if h == 'length':
        return (lambda: x.length_mks), (), None
    if h in ('deff', 'n2'):
        return (lambda: getattr(x, h)), (), None
    return (lambda: x.pp(q['x'])), (), None


def pack(v):
    if isinstance(v, tuple):
        return [float(e) for e in v]
    return np.array(v, copy=True)


def reference(cases):
    out = []
    for c, d, q in cases:
        x = build(dict(c, cache=False))
        fn, args, _ = ask(x, q, bare_pulse(d))
        try:
            out.append(('ok', pack(fn(*args))))
        except Exception as e:
            out.append(('exc', type(e).__name__))
    return out


class World:
    def __init__(self, sim, sc):
        self.sim, self.sc = sim, sc
        self.x = [build(c) for c in sc['crystals']]
        self.c = [copy.deepcopy(c) for c in sc['crystals']]
        self.d = [dict(d) for d in sc['pulses']]
        self.p = [bare_pulse(d) for d in self.d]
        self.asked = []

    def do(self, op):
        i, sim = op['c'], self.sim
        if op['op'] == 'set':
            x, h, v = self.x[i], op['how'], op['v']
            if h == 'T':
                r = sim.call(x.set_T, v)
            elif h == 'load':
                r = sim.call(x.load, v[0], v[1])
            elif h == 'theta':
                r = sim.call(x.set_theta, v)
            elif h == 'cache':
                r = sim.call(x.set_caching, v)
            else:
                r = sim.call(set_pp, x, ['const', v, op['tuple']] if h == 'pp' else ['chirp'] + v)
            cm.require(sim, r, 'setting %s' % h)
            self.c[i] = apply(self.c[i], op)
        elif op['op'] == 'regrid':
            j, h, v = op['q'], op['how'], op['v']
            if h == 'wl':
                self.d[j]['wl'] = 1000 + 500 * v if v > 0.3 else self.d[j]['wl'] * (1 + 1e-3 * (v - 0.15) ** 3)
                self.p[j].set_center_wavelength_nm(self.d[j]['wl'])
            elif h == 'T':
                self.d[j]['T'] = 2 + 5 * v if v > 0.3 else self.d[j]['T'] * (1 + (v - 0.15) ** 3)
                self.p[j].set_time_window_ps(self.d[j]['T'])
            else:
                self.d[j]['n'] = [8, 16, 64][int(v * 3)]
                self.p[j].set_NPTS(self.d[j]['n'])
        else:
            fn, args, arr = ask(self.x[i], op, self.p[op['q']])
            keep = None if arr is None else arr.copy()
            kind, v = sim.call(fn, *args, fault=op.get('fault'))
            if arr is not None and not cm.same(arr, keep):
                raise engine.Violation('changed', 'asking %s changed the caller\'s wavelengths' % op['how'])
            if kind == 'exc' and isinstance(v, engine.INJECTED):
                return
            q = {k: op[k] for k in op if k not in ('fault', 'scribble', 'op')}
            self.asked.append((copy.deepcopy(self.c[i]), dict(self.d[op['q']]), q,
                               (kind, pack(v) if kind == 'ok' else type(v).__name__)))
            if kind == 'ok' and 'scribble' in op and isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v[...] = op['scribble']
                sim.probe('overwritten')


def execute(sc, sim):
    w = World(sim, sc)
    for op in sc['prelude']:
        w.do(op)

    def task(ops):
        def run():
            try:
                for op in ops:
                    w.do(op)
            except engine.Violation as v:
                sim.violate(v.cls, v.msg)
        return run
    sim.run_tasks([task(o) for o in sc['tasks']])
    # ask again at the end: indices of every crystal for every pulse
    for i in range(len(w.x)):
        for j in range(len(w.p)):
            for h in ('pulse_n', 'pulse_k'):
                w.do({'op': 'ask', 'how': h, 'axis': None, 'q': j, 'c': i})
        # and what else each crystal is
        for h in ('threshold', 'length', 'deff', 'n2') + (('pp',) if w.c[i]['pp'] or w.c[i]['kind'] == 'PPLN' else ()):
            w.do({'op': 'ask', 'how': h, 'q': 0, 'c': i, 'x': 3e-4})
    return w.asked


def differs(got, exp):
    if got[0] != exp[0]:
        return 'got %s, a fresh crystal gives %s' % (got, exp)
    if got[0] == 'exc':
        return None if got[1] == exp[1] else 'raised %s, a fresh crystal raises %s' % (got[1], exp[1])
    return cm.bad(got[1], exp[1], 1e-11)


def check(sc, asked, ref, violate):
    cases = [a[:3] for a in asked]
    exp = [None] * len(cases)
    # a process for each kind of crystal, and one for one crystal
    groups = {}
    for i, (c, _, q) in enumerate(cases):
        groups.setdefault((c['kind'], q['c'] == len(cases) % len(sc['crystals'])), []).append(i)
    for _, g in sorted(groups.items()):
        for i, e in zip(g[::-1], ref(reference, [cases[i] for i in g[::-1]])):
            exp[i] = e
    for a, e in zip(asked, exp):
        r = differs(a[3], e)
        if r:
            # the reference asked many questions in one process: make sure
            e = ref(reference, [a[:3]])[0]
            r = differs(a[3], e)
            if r:
                violate('wrong-index', '%s of %s for %s: %s' % (a[2], a[0], a[1], r))
                return
