"""Shared by the property modules: building library objects from plain data,
comparing, and generating scenario pieces."""
import math
import warnings
import zlib

import numpy as np

from sim import engine

C_NMPS = 299792458.0 * 1e9 / 1e12
C_MKS = 299792458.0


def bad(a, b, rtol=1e-9, scale=None):
    """None if a equals b within rtol * (largest magnitude in b), else a text."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    if a.size == 0:
        return None
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return 'finite entries differ: %s, expected %s' % (_first(a, fa != fb), _first(b, fa != fb))
    if not fb.any():
        return None
    s = np.abs(b[fb]).max() if scale is None else scale
    d = np.abs(a[fb] - b[fb])
    if d.max() > rtol * s:
        k = int(np.argmax(d))
        return 'differs by %.3g (scale %.3g): %s, expected %s' % (d.max(), s, a[fb].ravel()[k], b[fb].ravel()[k])
    return None


def _first(a, m):
    return a[m].ravel()[0] if m.any() else None


def same(a, b):
    """Bit-for-bit equality of arrays (NaN equals NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and \
        np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def require(sim, res, what):
    """Value of a call that has to succeed."""
    kind, v = res
    if kind == 'exc':
        raise engine.Violation('failed', '%s raised %s: %s' % (what, type(v).__name__, v))
    return v


def loguniform(rng, a, b):
    return math.exp(rng.uniform(math.log(a), math.log(b)))


def async_fault(rng, p, hi, kinds=('interrupt', 'nomem')):
    """Maybe an asynchronous fault for one operation."""
    if rng.random() >= p:
        return None
    return {'kind': rng.choice(kinds), 'at': int(math.exp(rng.uniform(0, math.log(hi)))) + rng.randrange(2)}


def make_field(spec, n):
    """A complex field of n points from plain data {'seed', 'kind'}."""
    r = np.random.RandomState(spec['seed'])
    t = (np.arange(n) - n / 2) / n
    kind = spec.get('kind', 'noise')
    if kind == 'noise':
        return r.standard_normal(n) + 1j * r.standard_normal(n)
    w = r.uniform(0.02, 0.15)
    x = np.exp(-((t - r.uniform(-0.1, 0.1)) / w) ** 2) * np.exp(
        1j * (r.uniform(-20, 20) * t ** 2 + r.uniform(0, 6.28)))
    return x * r.uniform(0.1, 30)


# ------------------------------------------------------------------ pulses
def make_pulse(d):
    """d: {'kind': sech|gauss|sinc|cw|field, ...}"""
    from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, SincPulse, CWPulse
    from pynlo.light.PulseBase import Pulse
    k = d['kind']
    if k in ('sech', 'gauss', 'sinc'):
        cls = {'sech': SechPulse, 'gauss': GaussianPulse, 'sinc': SincPulse}[k]
        p = cls(d['power'], d['T0'], d['wl'], time_window_ps=d['T'], frep_MHz=d.get('frep', 100.),
                NPTS=d['n'], GDD=d.get('GDD', 0), TOD=d.get('TOD', 0),
                chirp2=d.get('chirp2', 0), chirp3=d.get('chirp3', 0))
        if d.get('roll'):       # a spectrum off the centre of its grid
            p.set_AW(np.roll(p.AW, d['roll']))
        return p
    if k == 'cw':
        return CWPulse(d['power'], d['wl'], time_window_ps=d['T'], NPTS=d['n'],
                       offset_from_center_THz=d.get('offset'))
    p = Pulse(frep_MHz=d.get('frep', 100.), n=d['n'])
    p.set_center_wavelength_nm(d['wl'])
    p.set_time_window_ps(d['T'])
    if d.get('field'):
        p.set_AT(make_field(d['field'], d['n']))
    return p


def gen_pulse(rng, ns=(32, 64, 128), kinds=('sech', 'gauss', 'sinc'), wl=(700, 1700),
              window=(2.0, 12.0), power=(10, 5000), t0=(0.03, 0.12)):
    """t0 as a fraction of the window."""
    T = round(rng.uniform(*window), 4)
    d = {'kind': rng.choice(kinds), 'n': rng.choice(ns), 'wl': round(rng.uniform(*wl), 3), 'T': T,
         'power': round(loguniform(rng, *power), 4), 'T0': round(T * rng.uniform(*t0), 5),
         'frep': rng.choice([1.0, 80.0, 100.0, 250.0])}
    if rng.random() < 0.5:
        d['GDD'] = round(rng.uniform(-0.02, 0.02), 5)
    if rng.random() < 0.3:
        d['TOD'] = round(rng.uniform(-0.002, 0.002), 6)
    if rng.random() < 0.3:
        d['chirp2'] = round(rng.uniform(-2, 2), 3)
    return d


def pulse_state(p):
    """Everything a pulse is, as plain data."""
    st = {'n': p.NPTS, 'T': float(p.time_window_ps), 'wl': float(p.center_wavelength_nm),
          'frep': None if p.frep_MHz is None else float(p.frep_MHz)}
    try:
        st['AW'] = np.array(p.AW)
    except RuntimeError:
        st['AW'] = None
    return st


def state_diff(a, b):
    """First difference between two pulse states (bit for bit), or None."""
    for k in ('n', 'T', 'wl', 'frep'):
        if a[k] != b[k]:
            return '%s: %r, was %r' % (k, a[k], b[k])
    if (a['AW'] is None) != (b['AW'] is None):
        return 'field: %s' % ('lost' if a['AW'] is None else 'appeared')
    if a['AW'] is not None and not same(a['AW'], b['AW']):
        return 'field changed: ' + str(bad(a['AW'], b['AW'], 0))
    return None


def references(ref, fn, items, *args, alone=1):
    """What fn(*args, items) gives in pristine processes: together, in the
    reverse of the order they happened in, and some (chosen by their content)
    each in a process of its own, lest what one leaves behind for the next
    goes unseen because it does so here too."""
    if not items:
        return []
    out = ref(fn, *args, items[::-1])[::-1]
    if len(items) > 1:
        h = zlib.crc32(repr([sorted(x.keys()) if isinstance(x, dict) else x[:1] for x in items]).encode())
        for j in range(alone):
            i = (h + j * 7919) % len(items)
            out[i] = ref(fn, *args, [items[i]])[0]
    return out
