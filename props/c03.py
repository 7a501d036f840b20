"""C03: a fibre answers from its own latest configuration only."""
import copy
import json
import math
import os
import shutil
import tempfile

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline, interp1d

from sim import engine
from props import common as cm

ID = 'C03'
QUICK = 3200
THOROUGH = 60000
OPCODE_P = 0.25
SWITCH_P = [0.01, 0.05, 0.2, 0.5]
ORACLE = 'a fibre configured afresh in a pristine process'
RULE = ('Seeded histories over 1-3 fibres and 1-3 pulses: configuring from coefficients, database, file and functions '
        'of z (including attempts that fail), evaluating, overwriting caller arrays, failing user functions, '
        'interrupts during evaluation; 1-4 threads evaluate shared fibres while others configure private ones.')
COMPONENTS = {'real': ['FiberInstance', 'JSONFiberLoader', 'DTabulationToBetas', 'numpy/scipy file readers on scratch files'],
              'stub': ['thread scheduler (simulated)', 'user dispersion and gamma functions (generated)']}
ASSUMPTIONS = ['a fibre is not configured by one thread while another evaluates it',
               'GVD functions are set on fibres configured from coefficients, D functions on tabulated ones']

POLY_N = [16, 32, 48]


# ------------------------------------------------------------ generation
def gen_betas(rng):
    return [round(rng.uniform(-0.05, 0.05), 6)] + [round(rng.uniform(-1, 1) * 10 ** -(3 + i), 9)
                                                  for i in range(rng.randrange(0, 3 if rng.random() < 0.8 else 9))]


def gen_D(rng):
    m = rng.randrange(7, 14) if rng.random() < 0.5 else 10
    lo = rng.uniform(500, 700)
    x = [round(lo + 1400.0 * i / (m - 1) + rng.uniform(-5, 5), 3) for i in range(m)]
    a, b, c = rng.uniform(-40, 40), rng.uniform(-60, 60), rng.uniform(-30, 30)
    y = [round(a + b * (v - 1200) / 700 + c * ((v - 1200) / 700) ** 2, 5) for v in x]
    return x, y


def gen_n(rng):
    m = rng.randrange(8, 16) if rng.random() < 0.5 else 12
    x = [round(350 + 3500.0 * i / (m - 1), 3) for i in range(m)]
    A, B = rng.uniform(1.3, 2.2), rng.uniform(1e3, 2e4)
    return x, [round(A + B / v ** 2 - 1e-9 * v ** 2, 8) for v in x]


def gen_fun(rng, form):
    f = {'form': form, 'slope': round(rng.uniform(-0.9, 2), 3)}
    if form == 'GVD':
        f['betas'] = gen_betas(rng)
    else:
        f['x'], f['y'] = (gen_D if form == 'D' else gen_n)(rng)
    if rng.random() < 0.3:
        f['raise_at'] = rng.randrange(1, 4)
    return f


def gen_db(rng):
    db = {}
    for i in range(3):
        name = 'f%d' % i
        if rng.random() < 0.5:
            x, y = gen_D(rng)
            db[name] = {'name': name, 'dispersion_format': 'D', 'dispersion_x_units': 'nm',
                        'dispersion_y_units': 'ps/nm/km', 'dispersion_x_data': x, 'dispersion_y_data': y,
                        'gamma': round(rng.uniform(0, 0.1), 4), 'is_gain': False}
        else:
            u = rng.choice(['ps^n/km', 'ps^n/m'])
            db[name] = {'name': name, 'dispersion_format': 'GVD', 'dispersion_gvd_units': u,
                        'dispersion_gvd_center_wavelength': round(rng.uniform(700, 1700), 2),
                        'dispersion_data': [v * (1e3 if u == 'ps^n/km' else 1) for v in gen_betas(rng)],
                        'gamma': round(rng.uniform(0, 0.1), 4), 'is_gain': False}
        if rng.random() < 0.25:
            db[name].update(amp_fields(gen_amp(rng)))
    bad = copy.deepcopy(db['f%d' % rng.randrange(3)])
    keys = [k for k in bad if k not in ('name', 'is_gain', 'dispersion_format') and 'gain' not in k]
    del bad[rng.choice(keys)]
    db['incomplete'] = bad
    return db


def gen_amp(rng):
    """A gain spectrum which covers every pulse."""
    lo, mid, wid, a = rng.uniform(150, 250), rng.uniform(700, 1700), rng.uniform(150, 500), rng.choice([0.1, 0.5, 1.0])
    x = [round(lo * (6000.0 / lo) ** (i / 39.0), 3) for i in range(40)]
    return {'x': x, 'y': [round(a * (0.2 + math.exp(-((v - mid) / wid) ** 2)), 6) for v in x]}


def amp_fields(a):
    return {'is_gain': True, 'gain_x_units': 'm', 'gain_x_data': [v * 1e-9 for v in a['x']], 'gain_y_data': list(a['y'])}


def gen_conf(rng, kinds=None):
    k = rng.choice(kinds or ['generate', 'generate', 'db', 'db', 'file', 'dispfun', 'gammafun', 'shipped', 'bad', 'tweak'])
    op = {'op': 'conf', 'how': k}
    if k == 'generate':
        u = rng.choice(['ps^n/m', 'ps^n/m', 'ps^n/km'])
        op.update(length=round(rng.uniform(0.01, 2), 4), wl=round(rng.uniform(700, 1700), 2),
                  betas=[v * (1e3 if u == 'ps^n/km' else 1) for v in gen_betas(rng)], gamma=round(rng.uniform(0, 2), 4),
                  gain=rng.choice([0, 0, round(rng.uniform(-2, 2), 3)]), units=u, label=rng.choice(['a', 'b', 'c']),
                  array=rng.random() < 0.6)
        if op['gain'] and rng.random() < 0.6:
            op['amp'] = gen_amp(rng)
    elif k in ('db', 'shipped'):
        op.update(length=round(rng.uniform(0.01, 2), 4), name='f%d' % rng.randrange(3), order=rng.choice([2, 3]))
        if k == 'shipped':
            op['name'] = 'dudley'
    elif k == 'file':
        op['x'], op['y'] = gen_D(rng)
        op.update(length=round(rng.uniform(0.01, 2), 4), gamma=round(rng.uniform(0, 2), 4), order=rng.choice([2, 3]),
                  gain=rng.choice([0, 0, round(rng.uniform(-2, 2), 3)]), name=rng.choice([None, 'tab']),
                  skip=rng.choice([0, 0, 2]), delim=rng.choice([',', ';']))
    elif k == 'dispfun':
        op['f'] = {form: gen_fun(rng, form) for form in ('GVD', 'D', 'n')}
        op['n'] = rng.random() < 0.4
    elif k == 'gammafun':
        op['f'] = {'g0': round(rng.uniform(0, 2), 4), 'slope': round(rng.uniform(-0.9, 2), 3)}
    elif k == 'tweak':
        op['attr'] = rng.choice(['length', 'gamma'])
        op['v'] = round(rng.uniform(0.01, 2), 4)
    else:
        op['case'] = rng.choice(['unknown', 'incomplete', 'incomplete', 'nofile', 'badfile', 'ragged', 'betas', 'betas-km'])
        op['u'] = round(rng.random(), 6)
    if 'gamma' in op and rng.random() < 0.1:
        op['gamma'] = 0
    if k == 'gammafun' and rng.random() < 0.1:
        op['f']['g0'] = 0.0
    if k == 'tweak' and op['attr'] == 'gamma' and rng.random() < 0.2:
        op['v'] = 0
    if 'length' in op and rng.random() < 0.1:
        op['length'] = float('%.4g' % cm.loguniform(rng, 1e-6, 1e5))
    return op


def gen_eval(rng, npulse, faults):
    op = {'op': 'eval', 'what': rng.choice(['betas'] * 6 + ['gain', 'gain', 'gamma', 'gamma', 'Beta2', 'Beta2_to_D', 'all']),
          'q': rng.randrange(npulse), 'z': rng.choice([0, 0.1, 0.35, 1.0])}
    if rng.random() < 0.3:
        op['z'] = rng.choice([0.1001, 0.100001, 1e-6, 0.5, 5, 40.0, round(rng.uniform(0, 2), 5)])
    if op['what'] == 'gain':
        op['power'] = rng.choice([0.3, 1.0, 3.0, 10.0, round(rng.uniform(0.2, 20), 3)])
    if faults:
        f = cm.async_fault(rng, 0.15, 40)
        if f:
            op['fault'] = f
    return op


def gen_pulses(rng, m):
    out = [cm.gen_pulse(rng, ns=POLY_N if rng.random() < 0.92 else (4, 8, 100, 256, 1024), window=(0.5 * 4, 6))
           for _ in range(m)]
    if m > 1 and rng.random() < 0.4:
        # all but the same
        k = rng.choice(['wl', 'T', 'power', 'n'])
        out[1] = dict(out[0])
        if k == 'n':
            out[1]['n'] = rng.choice(POLY_N)
        else:
            out[1][k] *= 1 + rng.choice([-1, 1]) * rng.choice([1e-4, 1e-3, 0.3])
    return out


def generate(rng, tier):
    nf, npu = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3])
    sc = {'pulses': gen_pulses(rng, npu),
          'db': gen_db(rng), 'first': [gen_conf(rng, ['generate', 'db', 'file', 'shipped']) for _ in range(nf)]}

    def mix(n, fibres, conf_p, faults=True):
        ops = []
        for _ in range(n):
            op = gen_conf(rng) if rng.random() < conf_p else gen_eval(rng, npu, faults)
            if rng.random() < 0.05:
                op = {'op': 'scribble'}
            if rng.random() < 0.08:
                op = {'op': 'dtab', 'l0': round(rng.uniform(600, 1900), 2), 'order': rng.choice([2, 3])}
                op['x'], op['y'] = gen_D(rng)
            op['p'] = rng.choice(fibres)
            ops.append(op)
        return ops
    def again(fibres):
        """The same kind of configuration and the same question, twice over."""
        k = rng.choice(['generate', 'db', 'file', 'dispfun', 'dispfun', 'gammafun', 'tweak'])
        q = gen_eval(rng, npu, False)
        ops, p, n = [], rng.choice(fibres), rng.random() < 0.5
        for _ in range(rng.choice([2, 2, 3])):
            c = gen_conf(rng, [k])
            if k == 'dispfun':
                c['n'] = n
            ops += [c, dict(q)]
        for op in ops:
            op['p'] = p
        return ops
    if rng.random() < 0.4:
        nt = rng.choice([2, 2, 3, 4])
        sc['prelude'] = mix(rng.randrange(0, 6), list(range(nf)), 0.6, False)
        sc['tasks'] = []
        for t in range(nt):
            if rng.random() < 0.25:
                sc['first'].append(gen_conf(rng, ['generate', 'db', 'file', 'shipped']))
                sc['tasks'].append(mix(rng.randrange(2, 7), [len(sc['first']) - 1], 0.5))
            else:
                sc['tasks'].append(mix(rng.randrange(2, 6), list(range(nf)), 0.0))
    else:
        sc['prelude'] = []
        ops = mix(rng.randrange(4, 20), list(range(nf)), 0.4)
        if rng.random() < 0.35:
            i = rng.randrange(len(ops) + 1)
            ops[i:i] = again(list(range(nf)))
        sc['tasks'] = [ops]
    return sc


# ------------------------------------------------------------ reference model
def axes(d):
    n, T = d['n'], d['T']
    V = 2 * np.pi * (np.arange(n) - n / 2.0) / T
    return V, V + 2 * np.pi * cm.C_NMPS / d['wl']


def center(B, V):
    c = len(V) // 2
    slope = (B[c + 1] - B[c - 1]) / (V[c + 1] - V[c - 1])
    return B - slope * V - B[c]


def from_gvd(betas, wl, d):
    V, W = axes(d)
    w = W - 2 * np.pi * cm.C_NMPS / wl
    return center(sum(b / math.factorial(i + 2) * w ** (i + 2) for i, b in enumerate(betas)), V)


def d_to_betas(x, y, order, wl0):
    x, y = np.asarray(x, float), np.asarray(y, float)
    om = 2 * np.pi * cm.C_NMPS * (1 / x - 1 / wl0)                    # rad/ps
    b2 = -(y * 1e-6) * (x * 1e-9) ** 2 / (2 * np.pi * cm.C_MKS) * 1e24   # ps^2/m
    s = np.abs(om).max()
    c = np.polyfit(om / s, b2, order)[::-1]
    return [c[i] / s ** i * math.factorial(i) for i in range(order + 1)]


def from_D(x, y, order, d):
    V, _ = axes(d)
    return sum(b / math.factorial(i + 2) * V ** (i + 2) for i, b in enumerate(d_to_betas(x, y, order, d['wl'])))


def from_n(x, y, d):
    V, W = axes(d)
    x, y = np.asarray(x, float), np.asarray(y, float)
    w = 2 * np.pi * cm.C_NMPS / x
    k = y * 2 * np.pi / (x * 1e-9)
    return center(InterpolatedUnivariateSpline(w[::-1], k[::-1])(W), V)


class Fun:
    """A user's dispersion function of z: may yield to other threads, or raise."""
    def __init__(self, sim, f, form):
        self.sim, self.f, self.form, self.calls = sim, f, form, 0

    def value(self, z):
        f = self.f
        if self.form == 'GVD':
            return [b * (1 + f['slope'] * z) for b in f['betas']]
        if self.form == 'D':
            return np.array(f['x']), np.array(f['y']) * (1 + f['slope'] * z)
        return np.array(f['x']), np.array(f['y']) + 0.01 * f['slope'] * z * np.sqrt(1000 / np.array(f['x']))

    def __call__(self, z):
        self.calls += 1
        self.sim.yield_point('dispersion function', 0.3)
        if self.f.get('raise_at') and self.calls % 4 == self.f['raise_at']:
            self.sim.fault_fired('user-function')
            raise engine.CallbackFault('dispersion function failed')
        v = self.value(z)
        if self.form == 'GVD':
            return v
        self.last = v
        self.copies = [a.copy() for a in v]
        return v

    def check_args(self):
        if getattr(self, 'last', None) is not None:
            for a, b in zip(self.last, self.copies):
                if not cm.same(a, b):
                    raise engine.Violation('changed', "evaluating changed the arrays of the user's function")


class Model:
    """What one fibre's latest successful configuration says."""
    def __init__(self):
        self.kind = None
        self.gamma_fun = self.disp_fun = self.amp = None
        self.gain = 0

    def betas(self, d, z):
        if self.disp_fun is not None:
            v = self.disp_fun.value(z)
            form = self.disp_fun.form
            if form == 'GVD':
                return from_gvd(v, self.wl, d)
            if form == 'D':
                return from_D(v[0], v[1], self.order, d)
            return from_n(v[0], v[1], d)
        if self.kind == 'GVD':
            return from_gvd(self.b, self.wl, d)
        return from_D(self.x, self.y, self.order, d)

    def get_gamma(self, z):
        if self.gamma_fun is not None:
            return self.gamma_fun['g0'] * (1 + self.gamma_fun['slope'] * z)
        return self.gamma


class World:
    def __init__(self, sim, sc, scratch):
        from pynlo.media.fibers.fiber import FiberInstance
        import pynlo.media.fibers as pkg
        self.sim, self.sc, self.scratch = sim, sc, scratch
        with open(os.path.join(scratch, 'lab.txt'), 'w') as f:
            json.dump(sc['db'], f)
        self.shipped_path = os.path.join(os.path.dirname(pkg.__file__), 'general_fibers.txt')
        self.shipped_text = open(self.shipped_path).read()
        raw = json.loads(self.shipped_text)['dudley']
        self.shipped = {k: raw[k] for k in ('dispersion_data', 'dispersion_gvd_center_wavelength', 'gamma',
                                            'dispersion_gvd_units', 'dispersion_format')}
        self.pulses = [cm.make_pulse(d) for d in sc['pulses']]
        self.pstate = [cm.pulse_state(p) for p in self.pulses]
        self.fibres, self.models, self.mine = [], [], []
        self.make = lambda: FiberInstance('lab', scratch)
        self.make_shipped = lambda: FiberInstance()
        self.count = 0
        for c in sc['first']:
            self.fibres.append(self.make_shipped() if c['how'] == 'shipped' else self.make())
            self.models.append(Model())
            self.mine.append('shipped' if c['how'] == 'shipped' else 'lab')
            self.do(dict(c, p=len(self.fibres) - 1))

    def conf(self, op):
        i = op['p']
        f, m, how, sim = self.fibres[i], self.models[i], op['how'], self.sim
        new = copy.copy(m)
        arg = before = None
        if how in ('db', 'shipped') and (how == 'shipped') != (self.mine[i] == 'shipped'):
            # the loader was chosen when the fibre was made
            op = dict(op, how=self.mine[i] if self.mine[i] == 'shipped' else 'db',
                      name='dudley' if self.mine[i] == 'shipped' else 'f0')
            how = op['how']
        if how == 'generate':
            arg = np.array(op['betas']) if op['array'] else list(op['betas'])
            before = copy.deepcopy(arg)
            res = sim.call(f.generate_fiber, op['length'], op['wl'], arg, op['gamma'], op['gain'], op['units'], op['label'])
            new.kind, new.wl, new.label, new.length = 'GVD', op['wl'], op['label'], op['length']
            new.b = [v * (1e-3 if op['units'] == 'ps^n/km' else 1) for v in op['betas']]
            new.gamma, new.gain, new.amp = op['gamma'], op['gain'], None
            new.disp_fun = new.gamma_fun = None
            if op.get('amp') and res[0] == 'ok':
                f.fiberspecs.update(amp_fields(op['amp']))
                new.amp = amp_fields(op['amp'])
        elif how in ('db', 'shipped'):
            e = self.shipped if how == 'shipped' else self.sc['db'][op['name']]
            res = sim.call(f.load_from_db, op['length'], op['name'], op['order'])
            new.label, new.length, new.order, new.gamma, new.gain = op['name'], op['length'], op['order'], e['gamma'], 0
            new.kind = e['dispersion_format']
            new.amp = e if e.get('gain_x_data') else None
            if new.kind == 'D':
                new.x, new.y = e['dispersion_x_data'], e['dispersion_y_data']
            else:
                new.wl = e['dispersion_gvd_center_wavelength']
                new.b = [v * (1e-3 if e['dispersion_gvd_units'] == 'ps^n/km' else 1) for v in e['dispersion_data']]
            new.disp_fun = new.gamma_fun = None
        elif how == 'file':
            self.count += 1
            path = os.path.join(self.scratch, 'tab%d.csv' % self.count)
            with open(path, 'w') as h:
                h.write('a header\n' * op['skip'] + ''.join('%r%s%r\n' % (a, op['delim'], b) for a, b in zip(op['x'], op['y'])))
            res = sim.call(f.load_from_file, path, op['length'], op['name'], op['gamma'], op['gain'], 0, op['delim'],
                           op['skip'], op['order'])
            new.kind, new.x, new.y, new.order, new.length = 'D', op['x'], op['y'], op['order'], op['length']
            new.label = op['name'] or os.path.basename(path)
            new.gamma, new.gain, new.amp = op['gamma'], op['gain'], None
            new.disp_fun = new.gamma_fun = None
        elif how == 'dispfun':
            form = 'n' if op['n'] else m.kind
            fun = Fun(sim, op['f'][form], form)
            res = sim.call(f.set_dispersion_function, fun, form)
            new.disp_fun = fun
        elif how == 'gammafun':
            g = op['f']

            def fun(z):
                sim.yield_point('gamma function', 0.3)
                return g['g0'] * (1 + g['slope'] * z)
            res = sim.call(f.set_gamma_function, fun)
            new.gamma_fun = g
        elif how == 'tweak':
            setattr(f, op['attr'], op['v'])
            setattr(new, op['attr'], op['v'])
            res = ('ok', None)
        else:
            res = self.bad(f, op)
            if res[0] == 'ok':
                raise engine.Violation('accepted', 'failing configuration %s was accepted' % op['case'])
            sim.probe('failed-configuration')
            self.check_all('after a configuration that failed (%s)' % op['case'])
            return
        if res[0] == 'exc':
            raise engine.Violation('failed', 'configuring (%s) raised %r' % (how, res[1]))
        self.models[i] = new
        if arg is not None:
            if type(arg) is np.ndarray:
                if not cm.same(arg, before):
                    raise engine.Violation('changed', 'generate_fiber changed the betas given to it')
                arg[...] = 55.0
            elif arg != before:
                raise engine.Violation('changed', 'generate_fiber changed the betas given to it')
            else:
                arg[0] = 55.0

    def bad(self, f, op):
        c, u = op['case'], op['u']
        call = self.sim.call
        if c == 'unknown':
            return call(f.load_from_db, 9.0, ['no such fibre', 'F0', 'f0 ', 'f', '', 'Dudley', 'f00'][int(u * 7)], 2)
        if c == 'incomplete':
            return call(f.load_from_db, 9.0, 'incomplete', 3)
        if c == 'nofile':
            return call(f.load_from_file, os.path.join(self.scratch, 'missing.csv'), 9.0, 'x', 9.0, 9.0)
        if c == 'badfile':
            self.count += 1
            path = os.path.join(self.scratch, 'bad%d.csv' % self.count)
            with open(path, 'w') as h:
                h.write('1000,1\n1100,oops\n1200,3\n' if u < 0.5 else '1000,1\n1100\n1200,3\n')
            return call(f.load_from_file, path, 9.0, 'x', 9.0, 9.0)
        if c == 'ragged':
            self.count += 1
            path = os.path.join(self.scratch, 'bad%d.csv' % self.count)
            with open(path, 'w') as h:
                h.write('1000,1,2\n1100,2,3\n1200,3,4\n')
            return call(f.load_from_file, path, 9.0, 'x', 9.0, 9.0)
        b = [[1.0], [2.0, 3.0]] if u < 0.5 else ['x', 1.0]
        return call(f.generate_fiber, 9.0, 999.0, b, 9.0, 9.0, 'ps^n/km' if c == 'betas-km' else 'ps^n/m', 'bad')

    def amplifier(self, i, q, power, fault):
        """The gain of a fibre with a gain spectrum: proportional to the spectrum, of the strength
        which gives the asked output power, and not dependent on what was asked before."""
        from pynlo.media.fibers.fiber import FiberInstance
        f, m, p, d = self.fibres[i], self.models[i], self.pulses[q], self.sc['pulses'][q]
        P0 = p.calc_epp() * p.frep_mks
        res = self.sim.call(f.get_gain, p, power * P0, fault=fault)
        if res[0] == 'exc':
            if isinstance(res[1], engine.INJECTED):
                return None
            raise engine.Violation('failed', 'gain raised %r' % (res[1],))
        v = np.array(res[1])
        self.sim.probe('gain-search')
        x, y = np.array(m.amp['gain_x_data']), np.array(m.amp['gain_y_data'])
        V, W = axes(d)
        g = interp1d(cm.C_MKS / x[::-1], y[::-1], kind='cubic', bounds_error=False, fill_value=0)(W * 1e12 / (2 * np.pi))
        k = np.dot(v, g) / np.dot(g, g)
        r = cm.bad(v, k * g, 1e-9)
        if r:
            raise engine.Violation('wrong-gain', 'gain of fibre %d is not its gain spectrum: %s' % (i, r))
        fresh = FiberInstance()
        fresh.generate_fiber(m.length, 1000.0, [0.0], 0.0, gain=1.0)
        fresh.fiberspecs.update(copy.deepcopy({a: b for a, b in m.amp.items() if 'gain' in a}))
        r = cm.bad(v, fresh.get_gain(cm.make_pulse(d), power * P0), 1e-6)
        if r:
            raise engine.Violation('wrong-gain', 'gain of fibre %d for %g times the power: unlike that of a fresh fibre: %s'
                                   % (i, power, r))
        return res[1]

    def eval1(self, i, what, q, z, fault=None, power=3.0):
        f, m, p, d = self.fibres[i], self.models[i], self.pulses[q], self.sc['pulses'][q]
        call = self.sim.call
        fun = m.disp_fun
        if what == 'gain' and m.amp:
            return self.amplifier(i, q, power, fault)
        if what == 'betas':
            res, exp = call(f.get_betas, p, z, fault=fault), lambda: m.betas(d, z)
        elif what == 'gain':
            res, exp = call(f.get_gain, p, fault=fault), lambda: np.ones(d['n']) * m.gain
        elif what == 'gamma':
            res, exp = call(f.get_gamma, z, fault=fault), lambda: m.get_gamma(z)
        else:
            def exp():
                B = m.betas(d, 0)
                V, W = axes(d)
                o = np.diff(B, 2) / (V[1] - V[0]) ** 2
                o = np.hstack((o[0], o, o[-1]))
                return o if what == 'Beta2' else -2 * np.pi * cm.C_NMPS / (2 * np.pi * cm.C_NMPS / W) ** 2 * o * 1000
            res = call(getattr(f, what), p, fault=fault)
        if res[0] == 'exc':
            if isinstance(res[1], engine.INJECTED):
                return None
            raise engine.Violation('failed', '%s raised %r' % (what, res[1]))
        v = res[1]
        tol = 1e-6
        e = exp()
        scale = None
        if what in ('Beta2', 'Beta2_to_D'):
            V, W = axes(d)
            # rounding of the second difference: 1e-14 of the propagation constants
            # (before centring, about 2 pi n/wavelength, where they come from an index)
            big = np.abs(m.betas(d, 0)).max()
            if fun is not None and fun.form == 'n':
                big = max(big, 4 * np.pi / 700e-9)
            noise = 1e-8 * big / (V[1] - V[0]) ** 2
            if what == 'Beta2_to_D':
                noise *= np.abs(W).max() ** 2 / (2 * np.pi * cm.C_NMPS) * 1000
            scale = max(np.abs(e).max(), noise) or 1.0
        r = cm.bad(v, e, tol, scale)
        if r:
            raise engine.Violation('wrong-' + what, '%s of fibre %d (%s%s) at z=%r: %s' % (
                what, i, m.kind, ' function' if fun else '', z, r))
        if fun is not None and not isinstance(v, float) and self.single:
            fun.check_args()
        return v
    single = True
    owner = {}          # fibre -> thread that configures it

    def check_all(self, what):
        """Every fibre still reports its own configuration."""
        for i, (f, m) in enumerate(zip(self.fibres, self.models)):
            if self.owner.get(i, self.sim.cur.tid) != self.sim.cur.tid and self.sim.cur.tid >= 0:
                continue        # another thread is configuring it
            if f.length != m.length or f.fibertype != m.label:
                raise engine.Violation('changed', '%s: fibre %d reports %r, %r; it is %r, %r' % (
                    what, i, f.length, f.fibertype, m.length, m.label))
            if f.gamma != m.gamma:
                raise engine.Violation('changed', '%s: fibre %d has gamma %r; it is %r' % (what, i, f.gamma, m.gamma))
            for w in ('betas', 'gain', 'gamma'):
                self.eval1(i, w, 0, 0.2)

    def do(self, op):
        k = op['op']
        if k == 'conf':
            self.conf(op)
        elif k == 'eval':
            ws = ['betas', 'gain', 'gamma', 'Beta2'] if op['what'] == 'all' else [op['what']]
            for w in ws:
                self.eval1(op['p'], w, op['q'], op['z'], op.get('fault'), op.get('power', 3.0))
        elif k == 'scribble':
            v = self.eval1(op['p'], 'betas', 0, 0)
            if v is not None:
                v[...] = -3.0
            v = self.eval1(op['p'], 'gain', 0, 0)
            if v is not None:
                v[...] = -3.0
            self.sim.probe('overwritten')
        elif k == 'dtab':
            from pynlo.media.fibers.calculators import DTabulationToBetas
            a = np.array([op['x'], op['y']]).T.copy()
            b = a.copy()
            kind, v = self.sim.call(DTabulationToBetas, op['l0'], a, op['order'], DDataIsFile=False)
            if kind == 'exc':
                raise engine.Violation('failed', 'DTabulationToBetas raised %r' % v)
            if not cm.same(a, b):
                raise engine.Violation('changed', "DTabulationToBetas changed the caller's table")
            e = d_to_betas(op['x'], op['y'], op['order'], op['l0'])
            for j, (g, h) in enumerate(zip(v, e)):
                if not abs(g - h) <= 1e-6 * max(abs(h), abs(e[0]) * 1e-3 ** j):
                    raise engine.Violation('wrong-table', 'beta%d %r, expected %r' % (j + 2, g, h))


def execute(sc, sim):
    scratch = tempfile.mkdtemp(prefix='simfib')
    try:
        w = World(sim, sc, scratch)
        w.single = len(sc['tasks']) == 1
        w.owner = {op['p']: i for i, t in enumerate(sc['tasks']) for op in t if op['op'] == 'conf'}
        for op in sc['prelude']:
            w.do(op)

        def task(ops):
            def run():
                try:
                    for op in ops:
                        w.do(op)
                except engine.Violation as v:
                    sim.violate(v.cls, v.msg)
            return run
        sim.run_tasks([task(o) for o in sc['tasks']])
        w.check_all('at the end')
        for p, s in zip(w.pulses, w.pstate):
            d = cm.state_diff(cm.pulse_state(p), s)
            if d:
                raise engine.Violation('changed', 'evaluating changed a pulse: ' + d)
        if open(w.shipped_path).read() != w.shipped_text:
            raise engine.Violation('changed', 'the shipped database file changed')
        # fresh objects see the databases as they are on disk
        for made, name, ent in ((w.make_shipped(), 'dudley', w.shipped), (w.make(), 'f1', sc['db']['f1'])):
            made.load_from_db(1.0, name)
            if made.gamma != ent['gamma']:
                raise engine.Violation('changed', 'a fresh %s has gamma %r' % (name, made.gamma))
            d = sc['pulses'][0]
            if ent['dispersion_format'] == 'D':
                e = from_D(ent['dispersion_x_data'], ent['dispersion_y_data'], 2, d)
            else:
                u = 1e-3 if ent['dispersion_gvd_units'] == 'ps^n/km' else 1
                e = from_gvd([v * u for v in ent['dispersion_data']], ent['dispersion_gvd_center_wavelength'], d)
            r = cm.bad(made.get_betas(w.pulses[0]), e, 1e-6)
            if r:
                raise engine.Violation('changed', 'a fresh %s: %s' % (name, r))
        return [cm.pulse_state(p) for p in w.pulses]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
