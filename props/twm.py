"""Three-wave mixing: scenario pieces and builders for C10 and C12 to C14."""
import math

import numpy as np

from props import common as cm

EPS0 = 8.8541878128e-12


def qpm_period(pump_nm, sgnl_nm, T):
    """About the poling period that matches (lithium niobate, Jundt 1997)."""
    f = (T - 24.5) * (T + 570.82)

    def n(l):
        return math.sqrt(5.35583 + 4.629e-7 * f + (0.100473 + 3.862e-8 * f) / (l * l - (0.20692 - 0.89e-8 * f) ** 2) +
                         (100 + 2.657e-5 * f) / (l * l - 11.34927 ** 2) - 1.5334e-2 * l * l)
    p, s = pump_nm * 1e-3, sgnl_nm * 1e-3
    i = 1 / (1 / p - 1 / s)
    return 1e-6 / (n(p) / p - n(s) / s - n(i) / i)


# ------------------------------------------------------------- generation
def gen_problem(rng, ns=(32, 32, 64), wg=None, strength=(0.2, 3), poled=True, lmax=2.5e-4):
    n = rng.choice(ns) if rng.random() < 0.94 else rng.choice([16, 40, 100, 128])
    window = rng.uniform(4, 12)             # THz
    T = round(max(1.01, n / window), 4)
    bpm = rng.random() < 0.25 if wg is None else not wg and rng.random() < 0.5
    if bpm:
        pw, sw = rng.uniform(1540, 1580), rng.uniform(2150, 2250)
    else:
        pw, sw = rng.uniform(1030, 1090), rng.uniform(1450, 1620)
    frep = rng.choice([80.0, 100.0])

    def pulse(wl, power):
        d = {'kind': rng.choice(['sech', 'gauss']), 'n': n, 'wl': round(wl, 3), 'T': T, 'power': round(power, 4),
             'T0': round(T * rng.uniform(0.05, 0.12), 5), 'frep': frep}
        if rng.random() < 0.4:
            d['chirp2'] = round(rng.uniform(-5, 5) / window, 4)
        if rng.random() < 0.25:
            d['roll'] = rng.randrange(-n // 8, n // 8 + 1)
        return d
    pump, sgnl = pulse(pw, 1.0), pulse(sw, 1.0)
    d = {'pump': pump, 'sgnl': sgnl}
    if bpm:
        L = round(cm.loguniform(rng, 2e-4, 2e-3), 7)
        d['xtal'] = {'kind': 'AgGaSe2', 'length': L, 'theta': 'match' if rng.random() < 0.7 else round(rng.uniform(0.7, 1), 3)}
        deff = 32e-12
    else:
        L = round(cm.loguniform(rng, 3e-5, lmax), 7)
        if lmax > 2e-4 and rng.random() < 0.06:
            L = round(cm.loguniform(rng, 4e-4, 1.2e-3), 7)      # many poling domains
        u = rng.random()
        T = rng.choice([25.0, 60.0, 120.0])
        match = qpm_period(pw, sw, T)
        if not poled or u < 0.3:
            pp = ['const', 1.0]     # a single domain
        elif u < 0.65:
            pp = ['const', round(match * rng.choice([1, rng.uniform(0.97, 1.03), rng.uniform(0.8, 1.3)]), 9)]
        else:
            pp = ['chirp', round(match * rng.uniform(0.85, 1), 9), round(match * rng.uniform(1, 1.15), 9)]
            if rng.random() < 0.3:
                pp[1:] = pp[:0:-1]
        if u >= 0.3 and poled and rng.random() < 0.12:
            # more domains, none of them matched
            q = max(cm.loguniform(rng, 0.08, 0.8), L / match / 80)
            pp[1:] = [round(v * q, 10) for v in pp[1:]]
        d['xtal'] = {'kind': 'PPLN', 'length': L, 'T': T, 'pp': pp}
        deff = 15e-12
    d['xtal']['cache'] = rng.random() < 0.5
    d['wg'] = (rng.random() < 0.6 if wg is None else wg) and not bpm
    if d['wg']:
        d['area'] = float('%.6g' % cm.loguniform(rng, 5, 500))      # square micrometres
        area = d['area'] * 1e-12
    else:
        # from beams that stay collimated over the length to tightly focused ones
        wmin = math.sqrt(3 * L * pw * 1e-9 / math.pi)
        d['waist'] = float('%.6g' % (wmin * cm.loguniform(rng, 0.25, 4)))
        d['gouy'] = rng.random() < 0.2
        area = math.pi * d['waist'] ** 2 / 2
    # power for which the chosen fraction is converted over the length
    leff = L
    if not bpm:
        leff = min(L, 1.5e-5) if pp[1] == 1.0 else 0.6 * L
    k = cm.loguniform(rng, *strength)
    d['kappa'] = float('%.5g' % (k / leff))
    field = k / leff * (3e8 * 2.2) / (2 * deff * 1.2e15)
    P = area * 2.2 * EPS0 * 3e8 * field ** 2
    a = P * cm.loguniform(rng, 1e-4, 1)
    if rng.random() < 0.75:
        pump['power'], sgnl['power'] = float('%.5g' % P), float('%.5g' % a)
    else:
        pump['power'], sgnl['power'] = float('%.5g' % a), float('%.5g' % P)
    return d


def gen_run(rng, d, rtols=(1e-4, 1e-5, 1e-6, 1e-7, 1e-8)):
    L = d['xtal']['length']
    t = rng.choice(rtols)
    # much longer first steps than the interaction length overflow, and end with an error
    h1 = min(L * cm.loguniform(rng, 1e-3, 1), 2 / d['kappa'])
    return {'rtol': t, 'atol': t, 'h1': float('%.4g' % h1),
            'nsave': rng.choice([1, 2, 3, 5, 9]), 'dense': rng.random() < 0.5,
            'frac': 1.0 if rng.random() < 0.8 else round(rng.uniform(0.2, 0.9), 3)}


# --------------------------------------------------------------- building
def make_crystal(x, pump=None, sgnl=None):
    from pynlo.media import crystals
    if x['kind'] == 'PPLN':
        c = crystals.PPLN(x['T'], length=x['length'], enable_caching=x['cache'])
        if x['pp']:
            if x['pp'][0] == 'const':
                v = x['pp'][1]
                c.set_pp((v,))
            else:
                c.set_pp_chirp(x['pp'][1], x['pp'][2])
        return c
    c = crystals.AgGaSe2(length=x['length'], enable_caching=x['cache'])
    th = x['theta']
    if th == 'match':
        th, _ = c.phasematch(pump['wl'], sgnl['wl'], None, return_wavelength=True)
    c.set_theta(th)
    return c


def make_problem(d, pump=None, sgnl=None, xtal=None):
    from pynlo.interactions.ThreeWaveMixing import dfg_problem
    pump = cm.make_pulse(d['pump']) if pump is None else pump
    sgnl = cm.make_pulse(d['sgnl']) if sgnl is None else sgnl
    xtal = make_crystal(d['xtal'], d['pump'], d['sgnl']) if xtal is None else xtal
    if d['wg']:
        return dfg_problem(pump, sgnl, xtal, disable_SPM=True, wg_mode=True, Aeff_squm=d['area'])
    return dfg_problem(pump, sgnl, xtal, disable_SPM=True, pump_waist=d['waist'], apply_gouy_phase=d['gouy'])


def make_integrator(d, r, problem, y=None):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    y = np.array(problem.ystart) if y is None else y
    # tolerances are absolute too: in units of the largest field
    s = float(np.abs(y).max())
    return ode_solve.ODEint(y, 0.0, d['xtal']['length'] * r['frac'], r['atol'] * s, r['rtol'], r['h1'], 0.0,
                            ode_solve.Output(r['nsave']), dopr853.StepperDopr853, problem, dense=r['dense'],
                            dtype=np.complex128)


def integrate(d, r, problem):
    ode = make_integrator(d, r, problem)
    ode.integrate()
    return ode


def pack(ode):
    o = ode.out
    return {'x': np.array(o.xsave[:o.count]), 'ys': np.array(o.ysave[:o.count])}


def diff(a, b, tol):
    r = cm.bad(a['x'], b['x'], 1e-12)
    if r:
        return 'positions: ' + r
    r = cm.bad(a['ys'], b['ys'], tol)
    return r and 'fields: ' + r


def waves(ys):
    """Pump, signal and idler spectra of saved states."""
    n = ys.shape[1] // 3
    return ys[:, :n], ys[:, n:2 * n], ys[:, 2 * n:]


# ---------------------------------------------------------- independent model
class Model:
    """The coupled-wave equations, written from their definition and integrated
    domain by domain with another integrator.  Refractive indices come from the
    library (they are the subject of C04)."""

    def __init__(self, d):
        x = d['xtal']
        c = make_crystal(x, d['pump'], d['sgnl'])
        pump, sgnl = cm.make_pulse(d['pump']), cm.make_pulse(d['sgnl'])
        n = d['pump']['n']
        self.n, self.L = n, x['length']
        lp, ls = d['pump']['wl'] * 1e-9, d['sgnl']['wl'] * 1e-9
        f = [cm.C_MKS / lp, cm.C_MKS / ls]
        f.append(f[0] - f[1])
        dv = [(np.arange(n) - n // 2) / (q['T'] * 1e-12) for q in (d['pump'], d['sgnl'], d['pump'])]
        self.W = [2 * np.pi * (fc + v) for fc, v in zip(f, dv)]
        ax = ['mix', 'o', 'o'] if x['kind'] == 'AgGaSe2' else [None] * 3
        lam = [2 * np.pi * cm.C_MKS / w for w in self.W]
        self.ns = [np.asarray(c.n(l * 1e9) if a is None else c.n(l * 1e9, a), float) for l, a in zip(lam, ax)]
        self.K = [m * w / cm.C_MKS for m, w in zip(self.ns, self.W)]
        self.deff = c.deff
        self.A0 = np.concatenate([pump.AW, sgnl.AW, np.zeros(n)]).astype(complex)
        h = n // 2
        if d['wg']:
            area, self.zr = d['area'] * 1e-12 * np.ones(n), None
        else:
            lc = lam[0][h] / self.ns[0][h]
            area = np.pi * d['waist'] ** 2 * (lam[0] / self.ns[0]) / lc
            self.zr = np.pi * d['waist'] ** 2 / lc
        self.P = [1 / np.sqrt(area * m * EPS0 * cm.C_MKS) for m in self.ns]
        self.G = [2j * w * self.deff / (cm.C_MKS * m * p) for w, m, p in zip(self.W, self.ns, self.P)]
        self.gouy = bool(d.get('gouy')) and self.zr is not None
        self.cuts, self.signs = self.domains(x)
        self.vp = cm.C_MKS / self.ns[0][int(np.argmax(np.abs(self.A0[:n])))]

    def domains(self, x):
        if x['kind'] != 'PPLN':
            return [], [1]
        pp = x['pp']
        z, cuts, signs = 0.0, [], []
        while z < self.L:
            p = pp[1] if pp[0] == 'const' else pp[1] + (pp[2] - pp[1]) * z / self.L
            cuts += [z + 0.5 * p, z + p]
            signs += [1, -1]
            z += p
        return cuts, signs + [1]

    def rhs(self, z, y, sign):
        n = self.n
        e = [np.exp(1j * k * z) for k in self.K]
        F = [np.fft.fft(np.concatenate([p * a * ph, np.zeros(n)]))
             for p, a, ph in zip(self.P, (y[:n], y[n:2 * n], y[2 * n:]), e)]
        h = n // 2
        # bin j of a wave is its centre + (j - h): pump (j) = signal (a) + idler (j - a + h)
        conv = np.fft.ifft(F[1] * F[2])[h:h + n]
        ci = np.fft.ifft(F[0] * np.conj(F[1]))
        cs = np.fft.ifft(F[0] * np.conj(F[2]))
        idx = np.arange(n) - h
        s = sign
        g = 1.0
        if self.zr is not None:
            u = (z - self.L / 2) / self.zr
            s = s / np.sqrt(1 + u * u)
            if self.gouy:
                g = np.exp(1j * np.arctan(u))
        out = np.empty(3 * n, complex)
        out[:n] = s * g * self.G[0] * conv / e[0]
        out[n:2 * n] = s / g * self.G[1] * cs[idx] / e[1]
        out[2 * n:] = s / g * self.G[2] * ci[idx] / e[2]
        return out

    def states(self, zs, rtol=1e-9, start=None):
        """The state at the (increasing) positions zs."""
        from scipy.integrate import DOP853
        y = self.A0 if start is None else start
        size = np.abs(y).max()
        out, z, k = [], 0.0, 0
        edges = [c for c in self.cuts if c < zs[-1]] + [zs[-1]]
        for edge, sign in zip(edges, self.signs):
            todo = []
            while k < len(zs) and zs[k] <= edge:
                todo.append(zs[k])
                k += 1
            stops = todo + ([edge] if not todo or todo[-1] < edge else [])
            for b in stops:
                if b > z:
                    s = DOP853(lambda t, v: self.rhs(t, v, sign), z, y, b, rtol=rtol, atol=rtol * size)
                    while s.status == 'running':
                        s.step()
                    if s.status != 'finished':
                        raise RuntimeError('reference solution failed')
                    y, z = s.y, b
                if b in todo:
                    out.append(y)
        return np.array(out)

    def lab(self, z, y):
        """Fields with the dispersion of the position put back in."""
        n = self.n
        return np.concatenate([y[i * n:(i + 1) * n] * np.exp(1j * (self.K[i] * z - z / self.vp * self.W[i]))
                               for i in range(3)])
