"""A disk that fails on demand, under the files of a scratch directory.

Files are real; everything Python code (numpy included) opens below `root` goes
through a raw layer that delivers short reads and writes, runs out of space,
fails to open, read, write or close, and lets other tasks run at each call."""
import builtins
import contextlib
import errno
import io
import os

from . import engine


class Disk:
    def __init__(self, sim, root):
        self.sim, self.root = sim, os.path.realpath(root) + os.sep
        self.armed = {}         # task -> {'what', 'at', 'err', 'chunk'}
        self.fired = set()      # tasks whose fault fired in the current operation
        self.opened = 0

    def set(self, fault):
        t = self.sim.cur.tid
        self.fired.discard(t)
        if fault and fault['kind'] == 'disk':
            self.armed[t] = dict(fault)
        else:
            self.armed.pop(t, None)

    def clear(self):
        t = self.sim.cur.tid
        self.armed.pop(t, None)
        return t in self.fired

    def chunk(self):
        a = self.armed.get(self.sim.cur.tid)
        return a and a.get('chunk')

    def hit(self, what, amount=1):
        """How much of `amount` still goes through (None: all of it)."""
        self.sim.yield_point('disk ' + what, 0.2)
        a = self.armed.get(self.sim.cur.tid)
        if not a or a.get('what') != what or 'err' not in a:
            return None
        a['at'] -= amount
        if a['at'] >= 0:
            return None
        left = amount + a['at']
        if left > 0 and what in ('read', 'write'):      # a short one first
            a['at'] = 0
            return left
        self.fired.add(self.sim.cur.tid)
        self.sim.fault_fired('disk-%s-%s' % (what, a['err']))
        raise engine.InjectedIOError(getattr(errno, a['err']), os.strerror(getattr(errno, a['err'])))

    def ours(self, file):
        try:
            return os.path.realpath(os.fspath(file)).startswith(self.root)
        except TypeError:
            return False

    @contextlib.contextmanager
    def mounted(self):
        real = io.open

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or not self.ours(file):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            self.opened += 1
            self.hit('open')
            raw = Raw(self, os.fspath(file), mode.replace('t', '').replace('b', ''))
            size = self.chunk() or 8192
            if '+' in mode:
                buf = io.BufferedRandom(raw, size)
            elif 'r' in mode:
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)
        import numpy.lib._datasource as ds
        ds._file_openers._load()
        table = ds._file_openers._file_openers
        old = dict(table)
        builtins.open = io.open = sim_open
        table[None] = sim_open
        try:
            yield
        finally:
            builtins.open = io.open = real
            table.update(old)


class Raw(io.FileIO):
    def __init__(self, disk, path, mode):
        self._disk = disk
        super().__init__(path, mode)

    def readinto(self, b):
        d = self._disk
        n = len(b)
        if d.chunk():
            n = min(n, d.chunk())
        k = d.hit('read', n)
        if k is not None:
            n = min(n, k)
        data = super().read(n)
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(self._disk.chunk() or 8192)
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def write(self, b):
        k = self._disk.hit('write', len(b))
        if k is not None:
            b = bytes(b)[:k]
        return super().write(b)

    def close(self):
        was = self.closed
        super().close()
        if not was and self.mode_writes():
            self._disk.hit('close')

    def mode_writes(self):
        return 'r' != self.mode.replace('b', '')
