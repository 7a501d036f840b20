"""C02: pulse edits do what they say, or leave the pulse as it was."""
import json

import numpy as np
import numpy.fft as _npfft
from scipy.interpolate import interp1d

from sim import engine
from props import common as cm

ID = 'C02'
QUICK = 9000
THOROUGH = 100000
OPCODE_P = 0.0
ORACLE = 'an independent executable model of each edit, and bit-for-bit equality after rejected ones'
RULE = ('Seeded histories of edits over 1-4 pulses of different grids, with invalid arguments, incomplete sources, '
        'transforms that fail at the k-th call, and overwriting of arrays passed in or handed out; sometimes on '
        'private pulses in 2-3 interleaved threads.')
COMPONENTS = {'real': ['Pulse editing, cloning, (de)serialising operations', 'FFT_t, IFFT_t', 'interp1d'],
              'stub': ['numpy.fft.fft/ifft wrapped so that a chosen call fails', 'thread scheduler (simulated)']}
ASSUMPTIONS = ['even numbers of points', 'the field has as many points as the grid when an edit starts']

_FFT, _IFFT = _npfft.fft, _npfft.ifft
sh = _npfft.fftshift


def to_w(AT):
    return sh(_IFFT(sh(AT)))


def to_t(AW):
    return sh(_FFT(sh(AW)))


NS = [8, 16, 32, 48, 64]
EDITS = ['set_AW', 'set_AT', 'set_epp', 'chirp_pulse_W', 'chirp_pulse_W0', 'apply_phase_W', 'chirp_pulse_T',
         'dechirp_pulse', 'remove_time_delay', 'add_time_offset', 'expand_time_window', 'rotate', 'filter',
         'clone_pulse', 'load_dict', 'set_wl', 'set_T', 'set_frep', 'regrid']
MAKES = ['create_clone', 'subset', 'interpolate', 'dict_roundtrip']
BAD = ['set_AW', 'set_AT', 'expand_loc', 'expand_neg', 'clone_empty', 'dict_missing', 'dict_len', 'dict_none',
       'subset', 'phase_len', 'chirp_none', 'filter_none', 'epp_none', 'wl_none', 'interp_none']


def gen_op(rng, npulse, faults=True):
    r = rng.random()
    op = {'p': rng.randrange(npulse), 'q': rng.randrange(npulse), 's': rng.randrange(1 << 30)}
    if r < 0.58:
        op['op'] = rng.choice(EDITS)
    elif r < 0.72:
        op['op'] = rng.choice(MAKES)
    elif r < 0.90:
        op['op'] = 'bad'
        op['how'] = rng.choice(BAD)
    else:
        op['op'] = 'scribble'
        op['attr'] = rng.choice(['AW', 'AT', 'wl_nm', 'W_mks'])
    if faults and rng.random() < 0.2 and op['op'] != 'scribble':
        op['fault'] = {'kind': 'fft', 'at': rng.choice([1, 1, 2, 3, 4])}
    return op


def gen_init(rng):
    d = cm.gen_pulse(rng, ns=NS, kinds=('sech', 'gauss', 'field', 'field'), window=(2.0, 6.0))
    if rng.random() < 0.06:
        d['n'] = rng.choice([128, 250, 512, 1024, 4096])
    if rng.random() < 0.06:     # far from the usual
        k = cm.loguniform(rng, 0.1, 50)
        k = max(k, 1.01 / d['T'])
        d['T'], d['T0'] = d['T'] * k, d['T0'] * k
    if rng.random() < 0.05:
        d['wl'] *= cm.loguniform(rng, 0.3, 6)
    if d['kind'] == 'field':
        d['field'] = {'seed': rng.randrange(1 << 30), 'kind': rng.choice(['noise', 'smooth', 'smooth'])}
    return d


def generate(rng, tier):
    npulse = rng.choice([1, 2, 2, 3, 4])
    if rng.random() < 0.12:
        nt = rng.choice([2, 3])
        return {'init': [gen_init(rng) for _ in range(nt)], 'private': True,
                'tasks': [[gen_op(rng, 1, faults=False) for _ in range(rng.randrange(2, 7))] for _ in range(nt)]}
    return {'init': [gen_init(rng) for _ in range(npulse)],
            'tasks': [[gen_op(rng, npulse) for _ in range(rng.randrange(3, 22))]]}


class Model:
    """Reference semantics on plain states {'n','T','wl','frep','AW'}."""

    @staticmethod
    def W(s):
        k = np.arange(s['n'])
        return 2 * np.pi * (k - s['n'] / 2.0) / s['T'] + 2 * np.pi * cm.C_NMPS / s['wl']

    @staticmethod
    def V(s):
        return 2 * np.pi * (np.arange(s['n']) - s['n'] / 2.0) / s['T']

    @staticmethod
    def t(s):
        return -s['T'] / 2.0 + np.arange(s['n']) * (s['T'] / s['n'])

    @staticmethod
    def epp(s):
        return s['T'] / s['n'] * 1e-12 * np.trapz(np.abs(to_t(s['AW'])) ** 2)

    @staticmethod
    def fit(s, deg, thr):
        V, ph, a = Model.V(s), np.unwrap(np.angle(s['AW'])), np.abs(s['AW'])
        m = a ** 2 > thr * a.max() ** 2
        if m.sum() < deg + 2:
            return None
        # only where the phase can be unwrapped without doubt
        idx = np.flatnonzero(m)
        seg = slice(idx[0], idx[-1] + 1)
        if np.abs(np.diff(np.angle(np.exp(1j * np.diff(ph[seg]))))).max(initial=0) > 2.0 or \
                np.abs(np.angle(np.exp(1j * np.diff(ph[seg])))).max(initial=0) > 2.8:
            return None
        if (a[seg] < 1e-6 * a.max()).any():
            return None
        c = np.polyfit(V[m], ph[m], deg)
        return a * np.exp(1j * (ph - np.polyval(c, V)))


class World:
    def __init__(self, sim):
        self.sim, self.pulses, self.states = sim, [], []
        self.armed = None

    def add(self, p):
        self.pulses.append(p)
        self.states.append(cm.pulse_state(p))

    # -- transforms that fail
    def install(self):
        w = self

        def wrap(real):
            def f(*a, **k):
                if w.armed is not None:
                    w.armed -= 1
                    if w.armed <= 0:
                        w.armed = None
                        w.sim.fault_fired('fft-nomem', real.__name__)
                        raise engine.NoMemory('injected')
                return real(*a, **k)
            return f
        _npfft.fft = wrap(_FFT)
        _npfft.ifft = wrap(_IFFT)

    def call(self, op, fn, *a, **k):
        f = op.get('fault')
        self.armed = f['at'] if f else None
        try:
            return self.sim.call(fn, *a, **k)
        finally:
            self.armed = None

    def unchanged(self, what, skip=()):
        for i, (p, s) in enumerate(zip(self.pulses, self.states)):
            if i in skip:
                continue
            d = cm.state_diff(cm.pulse_state(p), s)
            if d:
                raise engine.Violation('changed', '%s changed pulse %d: %s' % (what, i, d))

    def expect(self, what, p, exp, tol=1e-9):
        got = cm.pulse_state(p)
        for k in ('n', 'T', 'wl', 'frep'):
            a, b = got[k], exp[k]
            if (a is None) != (b is None) or (a is not None and abs(a - b) > 1e-9 * abs(b)):
                raise engine.Violation('wrong-grid', '%s: %s is %r, expected %r' % (what, k, a, b))
        if got['AW'] is None:
            raise engine.Violation('wrong-field', '%s: the pulse has no field' % what)
        r = cm.bad(got['AW'], exp['AW'], tol)
        if r:
            raise engine.Violation('wrong-field', '%s: field %s' % (what, r))
        r = cm.bad(p.AT, to_t(got['AW']), 1e-9)
        if r:
            raise engine.Violation('wrong-field', '%s: time-domain field %s' % (what, r))
        e, m = p.calc_epp(), Model.epp(got)
        if not abs(e - m) <= 1e-9 * abs(m):
            raise engine.Violation('wrong-field', '%s: energy %r, expected %r' % (what, e, m))

    def outcome(self, what, i, res, exp, tol=1e-9):
        """After an edit of pulse i: it did exp, or an injected failure left it alone."""
        kind, e = res
        if kind == 'exc':
            if not isinstance(e, engine.INJECTED):
                raise engine.Violation('failed', '%s raised %r' % (what, e))
            self.unchanged('failed ' + what)
            self.sim.probe('rejected-by-fault')
            return
        self.unchanged(what, skip=(i,))
        self.expect(what, self.pulses[i], exp, tol)
        self.states[i] = cm.pulse_state(self.pulses[i])

    def do(self, op, lo=0):
        i, q = op['p'] + lo, op['q'] + lo
        i, q = min(i, len(self.pulses) - 1), min(q, len(self.pulses) - 1)
        p, s = self.pulses[i], self.states[i]
        r = np.random.RandomState(op['s'])
        k = op['op']
        getattr(self, 'bad' if k == 'bad' else 'op_' + k)(op, i, q, p, s, r)

    @staticmethod
    def variant(f, r):
        """The field as a caller may have it: (its values as complex, the argument)."""
        u = r.rand()
        if u < 0.5:
            arg = f.copy()
        elif u < 0.65:
            arg = list(f)
        elif u < 0.72:
            arg = f.real.copy()
        elif u < 0.77:
            arg = np.round(10 * f.real).astype(int)
        elif u < 0.82:
            arg = f.astype(np.complex64)
        elif u < 0.87:
            arg = np.repeat(f, 2)[::2]              # not contiguous
        elif u < 0.93:
            arg = f * 10 ** r.uniform(-14, 9)
        elif u < 0.96:
            arg = f * (np.arange(len(f)) == r.randint(len(f)))      # all in one bin
        else:
            arg = np.zeros(len(f), complex)
        return np.array(arg, complex), arg

    # ---- edits
    def op_set_AW(self, op, i, q, p, s, r):
        f = cm.make_field({'seed': op['s'], 'kind': r.choice(['noise', 'smooth'])}, s['n'])
        f, arg = self.variant(f, r)
        self.outcome('set_AW', i, self.call(op, p.set_AW, arg), dict(s, AW=f))
        if isinstance(arg, np.ndarray):
            if not cm.same(arg.astype(complex), f):
                raise engine.Violation('changed', 'set_AW changed its argument')
            arg[...] = 9.0
            self.unchanged('overwriting the array given to set_AW')

    def op_set_AT(self, op, i, q, p, s, r):
        f = cm.make_field({'seed': op['s'], 'kind': r.choice(['noise', 'smooth'])}, s['n'])
        f, arg = self.variant(f, r)
        self.outcome('set_AT', i, self.call(op, p.set_AT, arg), dict(s, AW=to_w(f)))
        if isinstance(arg, np.ndarray):
            if not cm.same(arg.astype(complex), f):
                raise engine.Violation('changed', 'set_AT changed its argument')
            arg[...] = 9.0
            self.unchanged('overwriting the array given to set_AT')

    def op_set_epp(self, op, i, q, p, s, r):
        e0 = Model.epp(s)
        if not (np.isfinite(e0) and e0 > 0):
            return
        e = 10 ** r.uniform(-15, -6)
        self.outcome('set_epp', i, self.call(op, p.set_epp, e), dict(s, AW=s['AW'] * np.sqrt(e / e0)))

    def op_chirp_pulse_W(self, op, i, q, p, s, r):
        g, t, f = r.uniform(-.05, .05), r.uniform(-.01, .01), r.uniform(-1e-3, 1e-3)
        V = Model.V(s)
        ph = g / 2 * V ** 2 + t / 6 * V ** 3 + f / 24 * V ** 4
        self.outcome('chirp_pulse_W', i, self.call(op, p.chirp_pulse_W, g, t, f),
                     dict(s, AW=s['AW'] * np.exp(1j * ph)), 1e-9 + 1e-14 * np.abs(ph).max())

    def op_chirp_pulse_W0(self, op, i, q, p, s, r):
        g, t, f = r.uniform(-.05, .05), r.uniform(-.01, .01), r.uniform(-1e-4, 1e-4)
        w0 = 2 * np.pi * cm.C_NMPS / s['wl'] + r.uniform(-20, 20)
        if r.rand() < 0.06:
            w0, g, t, f = 0.0, g / 100, t / 1e4, f / 1e6
        V = Model.W(s) - w0
        ph = g / 2 * V ** 2 + t / 6 * V ** 3 + f / 24 * V ** 4
        # the offset from w0 is a difference of frequencies
        dph = np.abs(g * V + t / 2 * V ** 2 + f / 6 * V ** 3).max() * np.abs(Model.W(s)).max()
        self.outcome('chirp_pulse_W', i, self.call(op, p.chirp_pulse_W, g, t, f, w0),
                     dict(s, AW=s['AW'] * np.exp(1j * ph)), 1e-8 + 1e-14 * np.abs(ph).max() + 1e-15 * dph)

    def op_apply_phase_W(self, op, i, q, p, s, r):
        ph = r.uniform(-4, 4, s['n']) if r.rand() < 0.7 else r.uniform(-4, 4)
        self.outcome('apply_phase_W', i, self.call(op, p.apply_phase_W, ph), dict(s, AW=s['AW'] * np.exp(1j * ph)))

    def op_chirp_pulse_T(self, op, i, q, p, s, r):
        c2, c3, T0 = r.uniform(-2, 2), r.uniform(-1, 1), s['T'] * r.uniform(0.1, 0.5)
        x = Model.t(s) / T0
        self.outcome('chirp_pulse_T', i, self.call(op, p.chirp_pulse_T, c2, c3, T0), dict(s, AW=to_w(
            to_t(s['AW']) * np.exp(-1j * (c2 / 2 * x ** 2 + c3 / 3 * x ** 3)))))

    def op_dechirp_pulse(self, op, i, q, p, s, r):
        exp = Model.fit(s, 2, 0.05)
        if exp is None:
            return
        self.outcome('dechirp_pulse', i, self.call(op, p.dechirp_pulse), dict(s, AW=exp), 1e-5)

    def op_remove_time_delay(self, op, i, q, p, s, r):
        exp = Model.fit(s, 1, 0.05)
        if exp is None:
            return
        self.outcome('remove_time_delay', i, self.call(op, p.remove_time_delay), dict(s, AW=exp), 1e-5)

    def op_add_time_offset(self, op, i, q, p, s, r):
        o = r.uniform(-1, 1) * s['T'] / 2 * r.choice([1, 1, 1, 0, 3])
        self.outcome('add_time_offset', i, self.call(op, p.add_time_offset, o),
                     dict(s, AW=s['AW'] * np.exp(-1j * Model.W(s) * o)), 1e-8)

    def op_expand_time_window(self, op, i, q, p, s, r):
        f = int(r.choice([1, 1, 2]))
        f += int(r.rand() < 0.1)
        if s['n'] << f > 512:
            return
        loc = str(r.choice(['before', 'after', 'even']))
        new = s['n'] * (2 ** f - 1)
        AT, z = to_t(s['AW']), np.zeros
        b = {'before': new, 'after': 0, 'even': new // 2}[loc]
        exp = np.hstack((z(b), AT, z(new - b)))
        self.outcome('expand_time_window(%d, %s)' % (f, loc), i, self.call(op, p.expand_time_window, f, loc),
                     dict(s, n=s['n'] * 2 ** f, T=s['T'] * 2 ** f, AW=to_w(exp)))

    def op_rotate(self, op, i, q, p, s, r):
        rot = r.randint(-s['n'], s['n']) + r.uniform(-0.4, 0.4)
        fc = cm.C_NMPS / s['wl']
        fnew = fc - rot / s['T']
        if fnew < 1:
            return
        self.outcome('rotate_spectrum_to_new_center_wl', i,
                     self.call(op, p.rotate_spectrum_to_new_center_wl, cm.C_NMPS / fnew),
                     dict(s, AW=np.roll(s['AW'], -int(round(rot)))))

    def op_filter(self, op, i, q, p, s, r):
        with np.errstate(all='ignore'):
            wl = 2 * np.pi * cm.C_NMPS / Model.W(s)
        a, b = np.sort(r.choice(wl, 2)) * [1 - 1e-6, 1 + 1e-6]
        if not (np.isfinite(a) and np.isfinite(b)):
            return
        AW = s['AW'].copy()
        AW[(wl < a) | (wl > b)] = 0
        self.outcome('filter_by_wavelength_nm', i, self.call(op, p.filter_by_wavelength_nm, a, b), dict(s, AW=AW))

    def op_clone_pulse(self, op, i, q, p, s, r):
        src = self.states[q]
        self.outcome('clone_pulse', i, self.call(op, p.clone_pulse, self.pulses[q]), dict(src))

    def op_load_dict(self, op, i, q, p, s, r):
        d = self.pulses[q].get_pulse_dict()
        if r.rand() < 0.5:
            d = json.loads(json.dumps(d))
        self.outcome('load_pulse_dict', i, self.call(op, p.load_pulse_dict, d), dict(self.states[q]))

    def op_set_wl(self, op, i, q, p, s, r):
        wl = float(r.uniform(500, 2000))
        self.outcome('set_center_wavelength_nm', i, self.call({}, p.set_center_wavelength_nm, wl), dict(s, wl=wl))

    def op_set_T(self, op, i, q, p, s, r):
        T = float(r.uniform(2, 6) * (10 ** r.uniform(-1, 1.5) if r.rand() < 0.1 else 1))
        self.outcome('set_time_window_ps', i, self.call({}, p.set_time_window_ps, T), dict(s, T=T))

    def op_set_frep(self, op, i, q, p, s, r):
        f = [1., 50., 100., None][r.randint(4)]
        self.outcome('set_frep_MHz', i, self.call({}, p.set_frep_MHz, f), dict(s, frep=f))

    def op_regrid(self, op, i, q, p, s, r):
        n = int(r.choice(NS)) if r.rand() < 0.95 else int(r.choice([100, 256, 1024, 2048]))
        f = cm.make_field({'seed': op['s'], 'kind': 'smooth'}, n)
        if r.rand() < 0.3:
            # a field that fits neither the new grid nor, perhaps, the old one
            p.set_NPTS(n)
            old = self.states[i] = dict(s, n=n)
            kind, e = self.call({}, p.set_AW if r.rand() < 0.5 else p.set_AT, np.ones(n + int(r.choice([-1, 1, 3])), complex))
            if kind == 'ok':
                raise engine.Violation('accepted', 'a field of the wrong size was accepted')
            self.unchanged('a rejected field')
            s = old

        def both():
            p.set_NPTS(n)
            p.set_AT(f)
        self.outcome('set_NPTS and set_AT', i, self.call({}, both), dict(s, n=n, AW=to_w(f)))

    # ---- new pulses
    def made(self, what, op, i, res, exp, tol=1e-9):
        kind, v = res
        if kind == 'exc':
            if not isinstance(v, engine.INJECTED):
                raise engine.Violation('failed', '%s raised %r' % (what, v))
            self.unchanged('failed ' + what)
            return
        self.unchanged(what)
        self.expect(what, v, exp, tol)
        if not op.get('noadd') and len(self.pulses) < 6:
            self.add(v)            # later edits of either must not show in the other
        elif v is not self.pulses[i]:
            # the last one made takes another pulse's place
            j = (i + 1) % len(self.pulses)
            if j != i and self.lo is None:
                self.pulses[j], self.states[j] = v, cm.pulse_state(v)
    lo = None

    def op_create_clone(self, op, i, q, p, s, r):
        self.made('create_cloned_pulse', op, i, self.call(op, p.create_cloned_pulse), dict(s))

    def op_dict_roundtrip(self, op, i, q, p, s, r):
        from pynlo.light.PulseBase import Pulse
        new = Pulse()

        def f():
            new.load_pulse_dict(p.get_pulse_dict())
            return new
        self.made('load_pulse_dict into a new pulse', op, i, self.call(op, f), dict(s))

    def op_subset(self, op, i, q, p, s, r):
        m = int(r.choice([2, 4, 8, s['n'] // 4 * 2, s['n'] - 2]))
        if m < 2:
            return
        if m >= s['n']:
            return
        idx = r.randint(0, s['n']) if r.rand() < 0.4 else r.randint(m // 2, s['n'] - m // 2 + 1)
        W = Model.W(s)
        if (W <= 0).any() or idx >= s['n']:
            return
        wl = 2 * np.pi * cm.C_NMPS / W
        if idx < m // 2 or idx + m // 2 > s['n']:
            # reaches beyond the grid: refused, or a pulse whose field belongs to its grid
            kind, v = self.call(op, p.create_subset_pulse, float(wl[idx]), m)
            self.unchanged('a subset beyond the grid')
            if kind == 'ok':
                got = np.asarray(v.AW)
                want = interp1d(W, s['AW'], bounds_error=False, fill_value=0.0)(np.clip(v.W_THz, W[0], W[-1]))
                want = np.where((v.W_THz < W[0] - 1e-6) | (v.W_THz > W[-1] + 1e-6), 0, want)
                if len(got) != v.NPTS or cm.bad(got, want, 1e-6):
                    raise engine.Violation('wrong', 'a subset beyond the grid: the field is not that of its grid')
            elif not isinstance(v, engine.INJECTED):
                self.sim.probe('invalid-request')
            return
        self.made('create_subset_pulse', op, i, self.call(op, p.create_subset_pulse, float(wl[idx]), m),
                  dict(s, n=m, wl=wl[idx], AW=s['AW'][idx - m // 2: idx + m // 2]))

    def op_interpolate(self, op, i, q, p, s, r):
        fnew = cm.C_NMPS / s['wl'] + r.uniform(-1, 1) * s['n'] / s['T'] * 0.6
        if fnew < 5:
            return
        wl = cm.C_NMPS / fnew
        W = Model.W(s)
        x = Model.W(dict(s, wl=wl))
        exp = interp1d(W, s['AW'], bounds_error=False, fill_value=0.0)(x)
        self.made('interpolate_to_new_center_wl', op, i, self.call(op, p.interpolate_to_new_center_wl, wl),
                  dict(s, wl=wl, AW=exp), 1e-8)

    # ---- arrays handed out
    def op_scribble(self, op, i, q, p, s, r):
        a = getattr(p, op['attr'])
        a[...] = 3.0
        self.sim.probe('overwritten')
        self.unchanged('overwriting %s' % op['attr'])
        if cm.bad(getattr(p, 'AW'), s['AW'], 0):
            raise engine.Violation('changed', 'overwriting %s' % op['attr'])

    # ---- rejected requests
    def bad(self, op, i, q, p, s, r):
        from pynlo.light.PulseBase import Pulse
        how = op['how']
        n = s['n']
        if how in ('set_AW', 'set_AT'):
            m = int(r.choice([n + 1, n - 1, 2 * n, n + 2]))
            m = n + 1 if m == 1 else m      # a single value stands for all
            fn, args = getattr(p, how), (np.ones(m, complex),)
        elif how == 'expand_loc':
            fn, args = p.expand_time_window, (1, str(r.choice(['Before', 'middle', ''])))
        elif how == 'expand_neg':
            fn, args = p.expand_time_window, (-1, str(r.choice(['before', 'after', 'even'])))
        elif how == 'clone_empty':
            src = Pulse(n=n * 2)
            src.set_time_window_ps(s['T'] * 3)
            src.set_center_wavelength_nm(s['wl'] + 100)
            fn, args = p.clone_pulse, (src,)
        elif how.startswith('dict'):
            d = Pulse.get_pulse_dict(self.pulses[q])
            d = dict(d, NPTS=d['NPTS'], center_wavelength_nm=d['center_wavelength_nm'] + 50,
                     time_window_ps=d['time_window_ps'] * 2, frep_MHz=7.0)
            if how == 'dict_missing':
                del d[str(r.choice(sorted(d)))]
            elif how == 'dict_len':
                d[str(r.choice(['AT_re', 'AT_im']))].append(1.0)
                if r.rand() < 0.5:
                    d['AT_re'] = d['AT_re'][:4]
                    d['AT_im'] = d['AT_im'][:4]
                    d['NPTS'] = 8
            else:
                d[str(r.choice(['AT_re', 'AT_im', 'NPTS']))] = None
            fn, args = p.load_pulse_dict, (d,)
        elif how == 'subset':
            fn, args = p.create_subset_pulse, (s['wl'], int(r.choice([n, n + 2])))
        elif how == 'phase_len':
            fn, args = p.apply_phase_W, (np.ones(n + 1),)
        elif how == 'chirp_none':
            fn, args = p.chirp_pulse_W, ((0.1, None) if r.rand() < 0.5 else (None,))
        elif how == 'filter_none':
            fn, args = p.filter_by_wavelength_nm, ((s['wl'], 'x') if r.rand() < 0.5 else ('x', s['wl']))
        elif how == 'epp_none':
            fn, args = p.set_epp, (None,)
        elif how == 'wl_none':
            fn, args = p.set_center_wavelength_nm, (None,)
        elif how == 'interp_none':
            fn, args = p.interpolate_to_new_center_wl, (None,)
        kind, e = self.call(op, fn, *args)
        self.sim.probe('invalid-request')
        if kind == 'ok':
            raise engine.Violation('accepted', 'the invalid request %s was accepted' % how)
        self.unchanged('rejected %s (%s)' % (how, type(e).__name__))


def execute(sc, sim):
    w = World(sim)
    for d in sc['init']:
        w.add(cm.make_pulse(d))
    if not sc.get('private'):
        w.install()

    def task(ops, t):
        if sc.get('private'):
            own = World(sim)
            own.add(w.pulses[t])
            tw, lo = own, 0
        else:
            tw, lo = w, 0

        def run():
            try:
                for op in ops:
                    tw.do(op, lo)
            except engine.Violation as v:
                sim.violate(v.cls, v.msg)
        return run
    sim.run_tasks([task(o, t) for t, o in enumerate(sc['tasks'])])
    return [cm.pulse_state(p) for p in w.pulses]
