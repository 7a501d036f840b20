"""Fibre propagation: scenario pieces, builders, and an independent solver of the
generalised nonlinear Schroedinger equation, for C07 to C11 and C15."""
import contextlib
import math

import numpy as np

from sim import engine, seams
from props import common as cm


# ------------------------------------------------------------- generation
def gen_pulse(rng, ns=(64, 64, 128), wide=False):
    n = rng.choice(ns)
    if wide and rng.random() < 0.06:
        n = rng.choice([48, 90, 100, 150, 256, 512])
    T = round(max(1.01, n * rng.uniform(0.006, 0.012)) * rng.uniform(1, 1.1), 5)
    d = {'kind': rng.choice(['sech', 'gauss']), 'n': n, 'wl': round(rng.uniform(700, 1700), 3), 'T': T,
         'power': round(cm.loguniform(rng, 10, 5000), 4), 'T0': round(T * rng.uniform(0.05, 0.1), 6),
         'frep': rng.choice([1.0, 80.0, 100.0])}
    if wide and rng.random() < 0.4:
        d['power'] = float('%.5g' % cm.loguniform(rng, 1e-7, 1e7))
    if rng.random() < 0.3:
        d['chirp2'] = round(rng.uniform(-30, 30), 3)
    if rng.random() < 0.25:
        d['roll'] = rng.choice([-1, 1]) * rng.randrange(1, n // 12 + 1)
    return d


def gen_fibre(rng, p, phi=(0.1, 4.0), loss=True):
    """A fibre in which the pulse p broadens moderately."""
    L = round(cm.loguniform(rng, 1e-3, 5), 6)
    if rng.random() < 0.15:     # a chip, or a cable
        L = float('%.5g' % cm.loguniform(rng, 2e-5, 5e4))
    b2 = rng.uniform(-1.5, 1.5) * p['T0'] ** 2 / L
    betas = [b2]
    if rng.random() < 0.6:
        betas.append(rng.uniform(-1, 1) * p['T0'] ** 3 / L)
    if rng.random() < 0.3:
        betas.append(rng.uniform(-1, 1) * p['T0'] ** 4 / L)
    # a phase of thousands of radians at the edge of the grid only costs steps
    edge = math.pi * p['n'] / p['T']
    for i, b in enumerate(betas):
        ph = abs(b) * edge ** (i + 2) / math.factorial(i + 2) * L
        betas[i] = b * min(1.0, 600.0 / max(ph, 1e-9))
    f = {'length': L, 'betas': [float('%.8g' % b) for b in betas],
         'gamma': float('%.8g' % (cm.loguniform(rng, *phi) / (p['power'] * L))), 'gain': 0}
    if rng.random() < 0.15:
        f['gamma'] = 0
    if loss and rng.random() < 0.4:
        f['gain'] = float('%.6g' % (rng.uniform(-2, 1.5) * rng.choice([1, 1, 1, 1e-2, 1e-4, 1e-6]) / L))
    return f


def gen_solver(rng, errors=(1e-2, 1e-3, 1e-4, 1e-5)):
    s = {'local_error': rng.choice(errors), 'dz_frac': cm.loguniform(rng, 1e-3, 30),
         'raman': rng.random() < 0.5, 'steep': rng.random() < 0.5, 'simple': rng.random() < 0.5}
    if rng.random() < 0.4:
        s['f_R'] = round(rng.uniform(0, 0.4), 3) if rng.random() < 0.85 else 0.0
        s['tau_1'] = round(rng.uniform(0.01, 0.02), 5)
        s['tau_2'] = round(rng.uniform(0.025, 0.05), 5)
    return s


# --------------------------------------------------------------- building
def make_pulse(d):
    return cm.make_pulse(d)


def make_fibre(f, wl):
    from pynlo.media.fibers.fiber import FiberInstance
    x = FiberInstance()
    x.generate_fiber(f['length'], wl, list(f['betas']), f['gamma'], f['gain'])
    z = f.get('zdep')
    if z:
        L = f['length']
        if 'beta' in z:
            x.set_dispersion_function(lambda q: [b * (1 + z['beta'] * q / L) for b in f['betas']], 'GVD')
        if 'gamma' in z:
            x.set_gamma_function(lambda q: f['gamma'] * (1 + z['gamma'] * q / L))
    if 'spectrum' in f:     # an amplifier: gain cross section against wavelength
        s = f['spectrum']
        x.fiberspecs['is_gain'] = True
        x.fiberspecs['gain_x_units'] = 'm'
        x.fiberspecs['gain_x_data'] = np.array(s['x']) * 1e-9
        x.fiberspecs['gain_y_data'] = np.array(s['y'])
    return x


def make_solver(s, dz):
    from pynlo.interactions.FourWaveMixing.SSFM import SSFM
    k = {a: s[a] for a in ('f_R', 'tau_1', 'tau_2') if a in s}
    return SSFM(local_error=s['local_error'], dz=dz, disable_Raman=not s['raman'],
                disable_self_steepening=not s['steep'], USE_SIMPLE_RAMAN=s['simple'], **k)


def apply_settings(solver, s):
    """Change the settings of an existing solver."""
    for k, v in s.items():
        if k == 'raman':
            solver.disable_Raman = not v
        elif k == 'steep':
            solver.disable_self_steepening = not v
        elif k == 'simple':
            solver.USE_SIMPLE_RAMAN = v
        elif k in ('local_error', 'f_R', 'tau_1', 'tau_2'):
            setattr(solver, k, v)


def propagate(solver, pulse, fibre, n, reload=False, power=None):
    return solver.propagate(pulse, fibre, n, output_power=power, reload_fiber_each_step=reload)


def pack(res):
    z, AW, AT, p = res
    return {'z': np.array(z), 'AW': np.array(AW), 'AT': np.array(AT), 'out': cm.pulse_state(p)}


def result_diff(a, b, tol=1e-9):
    """Difference of two packed results, or None."""
    r = cm.bad(a['z'], b['z'], 1e-14)
    if r:
        return 'positions: ' + r
    for k in ('AW', 'AT'):
        r = cm.bad(a[k], b[k], max(tol, 1e-6))
        if r:
            return k + ': ' + r
    for k in ('n', 'T', 'wl', 'frep'):
        if a['out'][k] != b['out'][k]:
            return 'output pulse %s: %r, expected %r' % (k, a['out'][k], b['out'][k])
    r = cm.bad(a['out']['AW'], b['out']['AW'], tol)
    return r and 'output pulse: ' + r


# ----------------------------------------------------- the reference solver
def to_W(A):
    return np.fft.ifftshift(np.fft.ifft(np.fft.fftshift(A)))


def to_T(A):
    return np.fft.ifftshift(np.fft.fft(np.fft.fftshift(A)))


class Model:
    """The equation, in double precision and in unshifted layout."""
    def __init__(self, d, f, s, A0=None, gain=None):
        n, T = d['n'], d['T']
        self.n, self.T, self.d, self.f = n, T, d, f
        self.V = 2 * np.pi * (np.arange(n) - n / 2.0) / T
        self.w0 = 2 * np.pi * cm.C_NMPS / d['wl']
        self.L = f['length']
        self.g = f['gain'] if gain is None else gain
        self.steep = s['steep']
        self.R = self.raman(s) if s['raman'] else np.ones(n)

    def raman(self, s):
        n, T = self.n, self.T
        # the pulse's own time axis
        t = (np.arange(n) - n / 2.0) * (T / n)
        tau1, tau2 = s.get('tau_1', 0.0122), s.get('tau_2', 0.0320)
        ha = np.exp(-t / tau2) * np.sin(t / tau1)
        if s['simple']:
            fR, h = s.get('f_R', 0.18), (tau1 ** 2 + tau2 ** 2) / (tau1 * tau2 ** 2) * ha
        else:
            fR, tb = 0.245, 0.096
            h = 0.79 * tau1 / (tau1 ** 2 + tau2 ** 2) * ha + 0.21 * (2 * tb - t) / tb ** 2 * np.exp(-t / tb)
        h[:n // 2] = 0
        h = h / np.trapz(h, t)
        return (1 - fR) + T * to_W(fR * h)

    def beta(self, z):
        k = self.f.get('zdep', {}).get('beta', 0)
        B = sum(b * (1 + k * z / self.L) / math.factorial(i + 2) * self.V ** (i + 2)
                for i, b in enumerate(self.f['betas']))
        # the expansion is about the pulse's centre; centred by symmetric difference
        c = self.n // 2
        slope = (B[c + 1] - B[c - 1]) / (self.V[c + 1] - self.V[c - 1])
        return B - slope * self.V - B[c]

    def gamma(self, z):
        return self.f['gamma'] * (1 + self.f.get('zdep', {}).get('gamma', 0) * z / self.L)

    def linear(self, A, z, z0=0.0):
        """A(z0) -> A after a further distance z, without nonlinearity."""
        return to_T(np.exp((1j * self.beta(z0) + self.g / 2.0) * z) * to_W(A))

    def section(self, A, z, z0, rtol=1e-9):
        """Advance by z with the parameters at z0: DOP853 in the interaction picture
        (arrays in the transform's own order throughout)."""
        from scipy.integrate import solve_ivp
        from scipy.fft import fft, ifft
        gam = self.gamma(z0)
        if gam == 0:
            return self.linear(A, z, z0)
        D = np.fft.fftshift(1j * self.beta(z0) + self.g / 2.0)
        R = np.fft.fftshift(self.R)
        d = np.fft.fftshift(-1j * self.V)
        k = gam / self.w0

        def rhs(x, b):
            e = np.exp(D * x)
            Aw = e * b
            A = fft(Aw)
            qw = R * ifft(A.real ** 2 + A.imag ** 2)
            q = fft(qw)
            if self.steep:
                N = 1j * gam * q * A - k * (fft(d * qw) * A + fft(d * Aw) * q)
            else:
                N = 1j * gam * q * A
            return ifft(N) / e
        s = np.abs(A).max() or 1.0
        r = solve_ivp(rhs, (0, z), ifft(np.fft.fftshift(A)), method='DOP853', rtol=rtol, atol=1e-2 * rtol * s)
        return np.fft.ifftshift(fft(np.exp(D * z) * r.y[:, -1]))

    def planes(self, A, n, reload, rtol=1e-9):
        out = []
        for i in range(n):
            A = self.section(A, self.L / n, i * self.L / n if reload else 0.0, rtol)
            out.append(A)
        return out


# -------------------------------------------------------------- step control
@contextlib.contextmanager
def unruly_errors(sim, c, linear=False, floor=0.0):
    """Error estimates that are larger than computed (or, without nonlinearity, any)."""
    from pynlo.interactions.FourWaveMixing.SSFM import SSFM
    if not c:
        yield
        return
    r = np.random.RandomState(c['seed'] & 0x7fffffff)
    st = {'row': 0, 'reject': 10, 'shrink': 25, 'keep': 10 ** 9, 'grow': 10 ** 9}     # enough to shrink steps about 1e4 times

    def make(real):
        def CalculateLocalError(self):
            e = real(self)
            eps = self.local_error
            u = r.uniform()
            f = kind = None
            if u < c['reject']:
                if st['row'] < 4:
                    f, kind = eps * np.exp(r.uniform(0.8, 6)), 'reject'
            elif u < c['reject'] + c['shrink']:
                f, kind = eps * r.uniform(1.0, 2.0), 'shrink'
            elif u < c['reject'] + c['shrink'] + c['keep']:
                f, kind = eps * r.uniform(0.5, 1.0), 'keep'
            elif linear and u > 0.9:
                f, kind = eps * r.uniform(0, 0.5), 'grow'
                e = 0.0
            if f is not None and f > e and st[kind] > 0:
                e = f
                st[kind] -= 1
                sim.fault_fired('step-' + kind)
            st['row'] = st['row'] + 1 if e > 2 * eps else 0
            return e
        return CalculateLocalError
    with seams.patched(SSFM, 'CalculateLocalError', make) as there:
        if not there:
            sim.probe('absent: CalculateLocalError')
        yield


def gen_control(rng):
    if rng.random() < 0.25:
        return None
    return {'seed': rng.randrange(1 << 30), 'reject': rng.choice([0, 0.1, 0.3]), 'shrink': rng.choice([0, 0.1, 0.2]),
            'keep': rng.choice([0, 0.2])}


class StepCounter:
    """Counts right-hand-side work through a seam (for bounds on accumulated error)."""
    def __init__(self):
        self.n = 0

    @contextlib.contextmanager
    def counting(self):
        from pynlo.interactions.FourWaveMixing.SSFM import SSFM

        def make(real):
            def f(me, *a, **k):
                self.n += 1
                return real(me, *a, **k)
            return f
        with seams.patched(SSFM, 'CalculateLocalError', make) as there:
            if not there:       # not to be counted: the widest bound
                self.n = 300
            yield


assert engine
