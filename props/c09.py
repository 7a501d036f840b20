"""C09: propagation conserves energy and photon number where physics says so."""
import math

import numpy as np

from sim import engine
from props import common as cm
from props import fwm
from props.c07 import gen_spectrum, gen_power

ID = 'C09'
QUICK = 1800
THOROUGH = 80000
MAX_STEPS = 30_000_000
SIMTIME = 'metres of fibre'
ORACLE = 'the conserved quantities of the equation at every plane'
RULE = ('Seeded propagations over random pulses, fibres, gains, solver options, output spacings and starting steps '
        '(also far too long ones), chained and interrupted, with the step control driven through random rejections, '
        'shrinks and growths; energy or photon number, bin by bin in linear fibres, is checked at every plane.')
COMPONENTS = {'real': ['SSFM (its error estimates are perturbed on the safe side)', 'FiberInstance', 'Pulse', 'pyFFTW'],
              'stub': ['FFTW planner (estimate mode, one thread)']}
ASSUMPTIONS = ['photon number: the spectrum stays inside the grid (judged from the planes themselves)',
               'an error estimate may be larger than computed; where the fibre is linear it may be anything']


def generate(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        u = rng.random()
        p = fwm.gen_pulse(rng, ns=(64, 128), wide=True)
        if u < 0.5:         # photon number needs room in the spectrum
            p['n'] = 128
            p['T0'] = round(p['T'] * rng.uniform(0.07, 0.12), 6)
        f = fwm.gen_fibre(rng, p, phi=(0.1, 3.0 if u < 0.8 else 9.0))
        f['betas'] = f['betas'][:2]
        if f['betas'][0] < 0 and rng.random() < 0.5:
            f['betas'][0] = -f['betas'][0]
        s = fwm.gen_solver(rng, errors=(1e-3, 1e-4, 1e-5) if tier == 'quick' else (1e-3, 1e-4, 1e-5, 1e-6))
        op = {'p': p, 'f': f, 's': s, 'n': rng.choice([1, 1, 2, 3, 5, 8]), 'ctl': fwm.gen_control(rng),
              'reload': rng.random() < 0.4}
        if u < 0.5:
            s['steep'] = True
        if f['gamma'] == 0 and rng.random() < 0.6 and f['length'] < 6:
            f['gain'] = 0
            f['spectrum'] = gen_spectrum(rng, p['wl'], p['wl'])
            op['power'] = gen_power(rng, p)
        if rng.random() < 0.03:
            op['n'] = rng.choice([20, 60, 130])
            p['n'] = min(p['n'], 128)
        if rng.random() < 0.4:
            f['zdep'] = {k: round(rng.uniform(-0.9, 1.5), 3) for k in ('beta', 'gamma') if rng.random() < 0.7}
        if rng.random() < 0.1:
            op['fault'] = cm.async_fault(rng, 1, 5000)
        if rng.random() < 0.3 and 'spectrum' not in f:
            op['again'] = True      # the output goes through the fibre again
        ops.append(op)
    return {'tasks': [ops]}


def execute(sc, sim):
    hist = []
    for op in sc['tasks'][0]:
        p, f, s = op['p'], op['f'], op['s']
        pulse, fibre = fwm.make_pulse(p), fwm.make_fibre(f, p['wl'])
        solver = fwm.make_solver(s, s['dz_frac'] * f['length'] / op['n'])
        g = None
        if 'spectrum' in f:
            g = np.array(fibre.get_gain(pulse, op['power'])) * np.ones(p['n'])
        for k in range(2 if op.get('again') or op.get('fault') else 1):
            A0 = np.array(pulse.AW)
            cnt = fwm.StepCounter()
            with cnt.counting(), fwm.unruly_errors(sim, op['ctl'], linear=f['gamma'] == 0):
                kind, v = sim.call(fwm.propagate, solver, pulse, fibre, op['n'], op['reload'], op.get('power'),
                                   fault=op.get('fault') if k == 0 else None)
            if kind == 'exc':
                if isinstance(v, engine.INJECTED):
                    continue
                raise engine.Violation('failed', 'propagate raised %s: %s' % (type(v).__name__, v))
            sim.simtime += f['length']
            sim.probe('propagations')
            hist.append({'op': op, 'A0': A0, 'res': fwm.pack(v), 'steps': cnt.n, 'g': g})
            if op.get('again'):
                pulse = v[3]
    return hist


def check(sc, hist, ref, violate):
    for h in hist:
        r = judge(h)
        if r and r[0] == 'photons':
            # light that reaches the edge of the grid wraps round and does not conserve
            # photons even in an exact solution of the discrete equation
            r = judge(h, aliasing(h))
        if r:
            violate(r[0], '%s: %s' % (h['op'], r[1]))
            return


def aliasing(h):
    op = h['op']
    p, f, n = op['p'], op['f'], op['n']
    m = fwm.Model(p, f, op['s'])
    wt = 1 / (m.w0 + m.V)
    E0 = (wt * np.abs(h['A0']) ** 2).sum()
    k = max(1, 8 // n) if not op['reload'] else 1
    out = m.planes(fwm.to_T(h['A0']), n * k, op['reload'], rtol=1e-3 * op['s']['local_error'])
    return max(abs((wt * np.abs(fwm.to_W(A)) ** 2).sum() / (E0 * math.exp(f['gain'] * f['length'] * (i + 1) / (n * k))) - 1)
               for i, A in enumerate(out))


def judge(h, alias=0.0):
    op, res = h['op'], h['res']
    p, f, s, n = op['p'], op['f'], op['s'], op['n']
    V = 2 * np.pi * (np.arange(p['n']) - p['n'] / 2.0) / p['T']
    w0 = 2 * np.pi * cm.C_NMPS / p['wl']
    lin = f['gamma'] == 0
    P0 = np.abs(h['A0']) ** 2
    L = f['length']
    eps = s['local_error']
    planes = [(L * (i + 1) / n, res['AW'][:, i], res['AT'][:, i]) for i in range(n)]
    planes.append((L, res['out']['AW'], None))
    steep = s['steep'] and not lin
    wt = 1 / (w0 + V) if steep else np.ones(p['n'])
    if steep and (w0 + V).min() < 0.2 * w0:
        return None
    E0 = (wt * P0).sum()
    edge = 0.0
    q = p['n'] // 6
    for z, W, T in planes:
        P = np.abs(W.astype(complex)) ** 2
        single = W.dtype == np.complex64
        if not np.isfinite(P).all():
            return 'not-finite', 'field at %g m is not finite' % z
        if lin:
            g = f['gain'] if h['g'] is None else h['g']
            e = np.abs(P - P0 * np.exp(g * z)).max() / (P0 * np.exp(g * z)).max()
            if not e <= (1e-6 if single else 1e-9):
                return 'spectrum', 'spectral intensity in a linear fibre is off by %.3g at %g m' % (e, z)
        if T is not None:
            e = abs((np.abs(T.astype(complex)) ** 2).sum() / p['n'] / P.sum() - 1)
            if e > 1e-6:
                return 'parseval', 'time and frequency planes at %g m have energies that differ by %.3g' % (z, e)
        edge = max(edge, (P[:q].sum() + P[-q:].sum()) / P.sum())
        tol = (1e-6 if single else 1e-9) + (0 if lin else 0.05 * eps * max(10, h['steps']))      # measured: a tenth of it
        if steep:
            tol += 5 * edge + 2 * alias
            if edge > 1e-3:
                return None
        e = abs((wt * P).sum() / (E0 * math.exp(f['gain'] * z)) - 1) if h['g'] is None else 0
        if not e <= tol:
            return ('photons' if steep else 'energy'), '%s at %g m is off by %.3g (allowed %.3g)' % (
                'photon number' if steep else 'energy', z, e, tol)
    return None
