"""Seams: where the simulator takes over what the library gets from outside.

Nothing here needs a hook in the library.  A seam whose name is no longer there
(after a refactoring) is skipped and shows up as an 'absent' probe.
"""
import builtins
import contextlib
import io
import os
import random
import sys
import zlib

import numpy as np

from . import engine


@contextlib.contextmanager
def patched(obj, name, make):
    """Temporarily replace obj.name by make(original)."""
    missing = object()
    old = getattr(obj, name, missing)
    if old is missing:
        yield False
        return
    setattr(obj, name, make(old))
    try:
        yield True
    finally:
        setattr(obj, name, old)


def deterministic_fftw():
    """Planning with FFTW_MEASURE chooses an algorithm by timing it; estimate
    instead.  Installed once, before anything is planned."""
    try:
        import pyfftw
    except Exception:
        return
    real = pyfftw.FFTW

    def FFTW(*a, **k):
        k['flags'] = ('FFTW_ESTIMATE',)
        k['threads'] = 1
        return real(*a, **k)
    pyfftw.FFTW = FFTW


class Poison:
    """Stands in for the numpy module (or pyfftw) inside one module of the
    library: arrays created uninitialised come filled with a chosen pattern,
    as memory from a used heap would."""
    def __init__(self, real, pattern):
        self.__dict__['_real'] = real
        self.__dict__['_fill'] = _filler(pattern)

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if name == 'ndarray':
            return _poisoned_ndarray(self._fill)
        if name in ('empty', 'empty_like', 'empty_aligned'):
            fill = self._fill

            def f(*a, **k):
                x = v(*a, **k)
                fill(x)
                return x
            return f
        return v


def _filler(pattern):
    if pattern == 'none':
        return lambda x: None
    rng = np.random.RandomState(zlib.crc32(pattern.encode()) % 1000 if not isinstance(pattern, int) else pattern)

    def fill(x):
        if x.dtype.kind not in 'fc':
            return
        if pattern == 'nan':
            x[...] = np.nan
        elif pattern == 'huge':
            x[...] = 1e300
        elif pattern == 'inf':
            x[...] = np.inf
        else:
            x[...] = rng.standard_normal(x.shape)
    return fill


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, np.ndarray)


def _poisoned_ndarray(fill):
    class ndarray(metaclass=_Meta):
        def __new__(cls, *a, **k):
            x = np.ndarray(*a, **k)
            if 'buffer' not in k and len(a) < 3:
                fill(x)
            return x
    return ndarray


class FaultyFile(io.TextIOBase):
    """A text file whose read fails after some bytes."""
    def __init__(self, text, fail_at, sim, chunk=None):
        self._b = io.StringIO(text)
        self._left = fail_at
        self._sim = sim
        self._chunk = chunk

    def readable(self):
        return True

    def _take(self, s):
        if self._left is not None:
            self._left -= len(s)
            if self._left < 0:
                self._sim.fault_fired('read-error')
                raise engine.InjectedIOError(5, 'Input/output error')
        return s

    def read(self, n=-1):
        if self._chunk and (n is None or n < 0):
            return self._take(self._b.read())
        return self._take(self._b.read(n))

    def readline(self, n=-1):
        return self._take(self._b.readline(n))

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def close(self):
        self._b.close()
