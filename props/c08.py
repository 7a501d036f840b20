"""C08: the split-step solver advances exactly the distance and equation asked for."""
import numpy as np

from sim import engine
from props import common as cm
from props import fwm

ID = 'C08'
QUICK = 2000
THOROUGH = 60000
MAX_STEPS = 60_000_000
SIMTIME = 'metres of fibre'
ORACLE = 'an independent integration of the generalised nonlinear Schroedinger equation'
RULE = ('Seeded propagations over random pulses, fibres (also varying along z), grids, solver options, output '
        'spacings and starting steps, with the step control driven through random rejections, shrinks and growths '
        'and propagations interrupted and repeated. Every plane is compared with an independent solution of the '
        'equation.')
COMPONENTS = {'real': ['SSFM (its error estimates are perturbed on the safe side)', 'FiberInstance', 'Pulse', 'pyFFTW'],
              'stub': ['FFTW planner (estimate mode, one thread)']}
ASSUMPTIONS = ['an error estimate may be larger than computed; where the fibre is linear it may be anything']


def generate(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2])):
        p = fwm.gen_pulse(rng, wide=True)
        f = fwm.gen_fibre(rng, p)
        if rng.random() < 0.4:
            f['gamma'] = 0
        s = fwm.gen_solver(rng, errors=(1e-3, 1e-4, 1e-5) if tier == 'quick' else (1e-3, 1e-4, 1e-5, 1e-6))
        op = {'p': p, 'f': f, 's': s, 'n': rng.choice([1, 1, 2, 3, 5, 8]), 'ctl': fwm.gen_control(rng),
              'reload': rng.random() < 0.4}
        if f['gamma'] and s['local_error'] > 1e-5:
            # a loose tolerance and a start far too long can make the error estimate,
            # a comparison of two wrong answers, small by chance
            s['dz_frac'] = min(s['dz_frac'], rng.uniform(0.003, 0.03))
        if rng.random() < 0.03:
            op['n'] = rng.choice([20, 60, 130])
            p['n'] = min(p['n'], 128)
        if rng.random() < 0.4:
            f['zdep'] = {k: round(rng.uniform(-0.9, 1.5), 3) for k in ('beta', 'gamma') if rng.random() < 0.7}
        if rng.random() < 0.15:
            op['fault'] = cm.async_fault(rng, 1, 5000)
        if rng.random() < 0.3:
            op['twice'] = True
        if rng.random() < 0.12:
            op['method'] = 'split'
            op['n'] = rng.choice([1, 2])
            s['local_error'] = rng.choice([1e-3, 1e-4])
            f['gamma'] *= 0.4
        ops.append(op)
    return {'tasks': [ops]}


def execute(sc, sim):
    hist = []
    for op in sc['tasks'][0]:
        p, f, s = op['p'], op['f'], op['s']
        pulse, fibre = fwm.make_pulse(p), fwm.make_fibre(f, p['wl'])
        solver = fwm.make_solver(s, s['dz_frac'] * f['length'] / op['n'])
        if op.get('method') == 'split':
            solver.method = type(solver).METHOD_SSFM
        A0 = np.array(pulse.AT)
        for k in range(2 if op.get('twice') or op.get('fault') else 1):
            cnt = fwm.StepCounter()
            with cnt.counting(), fwm.unruly_errors(sim, op['ctl'], linear=f['gamma'] == 0):
                kind, v = sim.call(fwm.propagate, solver, pulse, fibre, op['n'], op['reload'],
                                   fault=op.get('fault') if k == 0 else None)
            if kind == 'exc':
                if isinstance(v, engine.INJECTED):
                    continue
                raise engine.Violation('failed', 'propagate raised %s: %s' % (type(v).__name__, v))
            sim.simtime += f['length']
            sim.probe('propagations')
            hist.append({'op': op, 'A0': A0, 'res': fwm.pack(v), 'steps': cnt.n})
    return hist


def check(sc, hist, ref, violate):
    last = None, None
    for h in hist:
        op = h['op']
        if last[0] is not h['op']:
            m = fwm.Model(op['p'], op['f'], op['s'])
            # well below what the solver's tolerance lets through
            last = op, m.planes(h['A0'], op['n'], op['reload'], rtol=1e-3 * op['s']['local_error'])
        r = judge(h, last[1])
        if r and r[0] == 'wrong-field' and f_nonlinear(op):
            # errors made early may have grown since: how much does this field amplify?
            r = judge(h, last[1], amplification(op, h['A0'], last[1]))
        if r:
            violate(r[0], '%s: %s' % (h['op'], r[1]))
            return


def f_nonlinear(op):
    return op['f']['gamma'] != 0


def amplification(op, A0, planes):
    m = fwm.Model(op['p'], op['f'], op['s'])
    r = np.random.RandomState(1)
    k = 1.0
    for _ in range(3):
        # noise within the spectrum of the pulse at the start
        d = fwm.to_T(fwm.to_W(A0) * (r.standard_normal(A0.size) + 1j * r.standard_normal(A0.size)))
        d *= 1e-3 * np.linalg.norm(A0) / np.linalg.norm(d)
        out = m.planes(A0 + d, op['n'], op['reload'], rtol=1e-3 * op['s']['local_error'])
        for a, b in zip(out, planes):
            k = max(k, 1e3 * np.linalg.norm(a - b) / np.linalg.norm(b))
    return 2 * k


def judge(h, planes, amp=1.0):
    op, res = h['op'], h['res']
    p, f, s, n = op['p'], op['f'], op['s'], op['n']
    if cm.bad(res['z'], np.linspace(0, f['length'], n + 1), 1e-14):
        return 'positions', 'positions %s for %d steps over %r' % (res['z'], n, f['length'])
    if res['AW'].shape != (p['n'], n) or res['AT'].shape != (p['n'], n):
        return 'planes', 'arrays of shape %s and %s' % (res['AW'].shape, res['AT'].shape)
    lin = f['gamma'] == 0
    eps = s['local_error']
    for i in range(n):
        W = fwm.to_W(planes[i])
        a = np.linalg.norm(planes[i])
        # complex64 output; each accepted step may err by its tolerance
        tol = 1e-6 if lin else 2e-6 + amp * bound(op, eps, h['steps'], f)
        for name, got, exp in (('AT', res['AT'][:, i], planes[i]), ('AW', res['AW'][:, i], W)):
            e = np.linalg.norm(got - exp) / np.linalg.norm(exp)
            if not e <= tol:
                return 'wrong-field', '%s at plane %d of %d is off by %.3g (allowed %.3g, %d step pairs)' % (
                    name, i + 1, n, e, tol, h['steps'])
    exp = fwm.to_W(planes[-1])
    got = res['out']['AW']
    e = np.linalg.norm(got - exp) / np.linalg.norm(exp)
    tol = 1e-9 if lin else 1e-8 + amp * bound(op, eps, h['steps'], f)
    if not e <= tol:
        return 'wrong-field', 'output pulse is off by %.3g (allowed %.3g)' % (e, tol)
    # the last plane is the output pulse
    e = cm.bad(res['AT'][:, -1], fwm.to_T(got).astype(np.complex64), 1e-6)
    if e:
        return 'planes', 'last plane is not the output pulse: ' + e
    if a == 0:
        return 'wrong-field', 'empty field'
    for k in ('n', 'T', 'wl', 'frep'):
        if abs(res['out'][k] - p[k]) > 1e-12 * p[k]:
            return 'output-grid', 'output pulse has %s=%r' % (k, res['out'][k])
    return None


def bound(op, eps, steps, f):
    # measured: at most about 0.35 of this
    return eps * max(3, steps) * (2 if eps >= 1e-3 else 1)
