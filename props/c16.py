"""C16: loading and saving data files is all or nothing."""
import json
import math
import os
import shutil
import tempfile

import numpy as np

from sim import engine, simio
from props import common as cm
from props.c07 import fibre_diff, fibre_state

ID = 'C16'
QUICK = 8000
THOROUGH = 80000
MAX_STEPS = 40_000_000
SWITCH_P = [0.02, 0.1, 0.3]
OPCODE_P = 0.2
ORACLE = "a separate reading of the files' bytes"
RULE = ('Seeded histories of saving and loading FROG pulses, loading fibres, dispersion tables and fibre databases from '
        'scratch files by 1-2 threads: good files in several formats, cut off at any byte, with damaged, missing or '
        'additional values, empty, missing and unreadable ones, over a disk that returns short reads, fails or fills up '
        'at a chosen byte or call, with interrupts and failed allocations.')
COMPONENTS = {'real': ['FROGPulse, write_frog, FiberInstance, JSONFiberLoader, DTabulationToBetas',
                       'numpy and jsonpickle readers and writers, on scratch files'],
              'stub': ['the raw layer under open() (short reads and writes, errors on demand)',
                       'thread scheduler (simulated)']}
ASSUMPTIONS = ['a file cut off between two lines is a shorter file: the formats have no end mark',
               'one file is used by one thread at a time']


# ------------------------------------------------------------- generation
def gen_table(rng, cols, sep, header):
    """The text of a good file."""
    n = rng.choice([4, 7, 12, 30]) if rng.random() < 0.93 else rng.choice([2, 150, 1100])
    wl0 = rng.uniform(600, 1400)
    dw = rng.uniform(5, 40) * min(1, 60 / n)
    size = rng.choice([1e-30, 1e-9, 1e7, 1e25]) if cols == 3 and rng.random() < 0.1 else 1
    up = rng.random() < 0.7
    rows = []
    for i in range(n):
        k = i if up else n - 1 - i
        row = [wl0 + dw * k + rng.uniform(0, 0.4 * dw)]
        if cols == 2:
            row.append(rng.uniform(-100, 100))
        else:
            row += [(math.exp(-((k - n / 2) / (n / 4)) ** 2) + 0.01) * size, rng.uniform(-3, 3)]
        rows.append(row)
    fmt = rng.choice(['%.6f', '%r', '%.18e', '%g'])
    lines = ['wavelength%sD' % (sep or ' ') for _ in range(header)]
    s = sep if sep is not None else rng.choice([' ', '  ', '\t'])
    for r in rows:
        lines.append(s.join(fmt % v for v in r))
    if rng.random() < 0.2:
        lines.insert(rng.randrange(header, len(lines)), '# remark')
    if rng.random() < 0.2:
        lines.insert(rng.randrange(header, len(lines)), '')
    end = rng.choice(['\n', '\n', '\r\n'])
    return end.join(lines) + (end if rng.random() < 0.7 else '')


def damage(rng, text):
    """A damage done to a file's text."""
    u = rng.random()
    if u < 0.35:
        return text[:rng.randrange(len(text))]
    if u < 0.5:
        lines = text.split('\n')
        i = rng.randrange(len(lines))
        w = lines[i].replace(',', ' , ').split()
        if w:
            k = rng.randrange(len(w))
            w[k] = rng.choice(['abc', '', 'nan', '1.2.3', '--', '0x', '\u00fc'])
        lines[i] = ' '.join(w)
        return '\n'.join(lines)
    if u < 0.65:
        lines = text.split('\n')
        i = rng.randrange(len(lines))
        lines[i] = lines[i] + rng.choice([',', ' 7', ',7', ' '])
        return '\n'.join(lines)
    if u < 0.8:
        i = rng.randrange(len(text))
        return text[:i] + chr(rng.randrange(32, 127)) + text[i + 1:]
    if u < 0.9:
        i = rng.randrange(len(text))
        return text[:i] + text[i + rng.randrange(1, 40):]
    return rng.choice(['', '\n', '# nothing\n', '5', 'wl,D\n', '{}', '[1, 2]', '\x00' * 20])


def gen_db(rng):
    fibres = {}
    for k in range(rng.choice([1, 2, 3]) if rng.random() < 0.95 else 30):
        d = {'name': 'f%d' % k, 'gamma': rng.choice([0, rng.uniform(0, 2), rng.uniform(0, 2)]), 'is_gain': rng.random() < 0.3}
        if rng.random() < 0.5:
            d.update(dispersion_format='D', dispersion_x_units='nm', dispersion_y_units='ps/nm/km',
                     dispersion_x_data=[1200 + 50.5 * i for i in range(8)],
                     dispersion_y_data=[rng.uniform(-50, 50) for _ in range(8)])
        else:
            d.update(dispersion_format='GVD', dispersion_gvd_units=rng.choice(['ps^n/km', 'ps^n/m']),
                     dispersion_gvd_center_wavelength=rng.uniform(700, 1700),
                     dispersion_data=[rng.uniform(-20, 20) for _ in range(rng.choice([1, 3]))])
        if d['is_gain']:
            d['gain'] = 1.0
        if rng.random() < 0.3:
            d.pop(rng.choice(sorted(set(d) - {'name', 'is_gain', 'gain', 'dispersion_x_units', 'dispersion_y_units'})))
        fibres['f%d' % k] = d
    return json.dumps(fibres, indent=rng.choice([None, 4]))


def gen_fault(rng, write=False):
    u = rng.random()
    f = {'kind': 'disk', 'chunk': rng.choice([None, 1, 7, 64, 512])}
    if u < 0.25:
        return f            # only short reads
    if u < 0.4:
        return dict(f, what='open', at=rng.randrange(2 if write else 1), err=rng.choice(['EACCES', 'EMFILE', 'EIO']))
    if u < 0.75:
        return dict(f, what='write' if write else 'read', at=rng.choice([0, 1, rng.randrange(300), rng.randrange(4000)]),
                    err='ENOSPC' if write else 'EIO')
    if u < 0.8 and write:
        return dict(f, what='close', at=rng.randrange(2), err='EIO')
    return cm.async_fault(rng, 1, 120)


def gen_grid(rng):
    T = round(rng.uniform(1.05, 6), 3)
    return {'kind': rng.choice(['sech', 'gauss', 'field']), 'n': rng.choice([32, 64, 128]) if rng.random() < 0.93 else rng.choice([10, 100, 500, 1024]), 'wl': round(rng.uniform(700, 1600), 3),
            'T': T, 'power': float('%.6g' % cm.loguniform(rng, 1, 1000) if rng.random() < 0.9 else '%.6g' % cm.loguniform(rng, 1e-9, 1e9)), 'T0': round(T * rng.uniform(0.03, 0.1), 5),
            'frep': rng.choice([1.0, 80.0, 0.012345]), 'chirp2': round(rng.uniform(-5, 5), 3),
            'field': {'seed': rng.randrange(1 << 30), 'kind': 'noise'}}


def generate(rng, tier):
    nt = rng.choice([1, 1, 2])
    pulses, tasks = [gen_grid(rng) for _ in range(2)], []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([2, 4, 6])):
            u = rng.random()
            if u < 0.3:
                f = rng.randrange(2)
                ops.append({'op': 'save', 'p': rng.randrange(2), 'f': f, 'flip': rng.random() < 0.5})
                if rng.random() < 0.4:
                    ops[-1]['fault'] = gen_fault(rng, True)
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append({'op': 'frog', 'p': rng.randrange(2), 'f': f, 'flip': rng.random() < 0.5,
                                'avg': rng.random() < 0.3})
                    if rng.random() < 0.4:
                        ops[-1]['fault'] = gen_fault(rng)
                    if rng.random() < 0.3:
                        ops.insert(-1, {'op': 'hurt', 'f': 'p%d' % f, 'seed': rng.randrange(1 << 30)})
                continue
            kind = rng.choice(['frog', 'fibre', 'fibre', 'dtab', 'db'])
            sep = ',' if kind == 'dtab' else None if kind == 'frog' else rng.choice([',', ',', None])
            header = 1 if kind == 'dtab' else 0 if kind == 'frog' else rng.choice([0, 0, 1, 2])
            text = gen_db(rng) if kind == 'db' else gen_table(rng, 3 if kind == 'frog' else 2, sep, header)
            op = {'op': kind, 'text': text, 'p': rng.randrange(2)}
            if rng.random() < 0.45:
                op.update(text=damage(rng, text), hurt=True)
            if kind == 'frog':
                op.update(flip=rng.random() < 0.5, avg=rng.random() < 0.3)
            else:
                op.update(obj=rng.randrange(2), sep=sep, header=header, order=rng.choice([1, 2, 3]),
                          L=round(rng.uniform(0.1, 9), 3), gamma=round(rng.uniform(0, 3), 3) if rng.random() < 0.9 else 0,
                          gain=rng.choice([0, 0, 1.5]), name=rng.choice([None, None, 'x', 'x', 'a fibre']))
            if kind == 'db':
                op['pick'] = rng.choice(['f0', 'f0', 'f1', 'f2', 'nope', 'F0', 'f', 'f10', 'f29', 'f00'])
            if rng.random() < 0.35:     # a file of this name was, or will be, used before
                op['slot'] = rng.randrange(3)
            if rng.random() < 0.04:
                op['gone'] = rng.choice(['missing', 'directory'])
            if rng.random() < 0.35:
                op['fault'] = gen_fault(rng)
            ops.append(op)
        tasks.append(ops)
    return {'pulses': pulses, 'tasks': tasks}


# ---------------------------------------------------------- reading by hand
class Malformed(Exception):
    pass


def parse(data, sep, skip, cols, exact, nans=False):
    """The rows of a table: what anyone would read from these bytes."""
    text = data.decode('latin1').replace('\r\n', '\n').replace('\r', '\n')
    rows = []
    for line in text.split('\n')[skip:]:
        line = line.split('#')[0]
        if not line.strip():
            continue
        w = [v.strip() for v in line.split(sep)]
        try:
            row = [float(v) for v in w]
        except ValueError:
            raise Malformed('value in %r' % line)
        if not nans and not np.all(np.isfinite(row)):
            raise Malformed('value in %r' % line)
        if rows and len(row) != len(rows[0]) or len(row) < cols or exact and len(row) != cols:
            raise Malformed('columns in %r' % line)
        rows.append(row)
    if not rows:
        raise Malformed('empty')
    return np.array(rows)


def content(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None


def frog_of(table, p, flip, power):
    """The spectrum of a FROG table on the grid of p."""
    o = np.argsort(table[:, 0], kind='stable')
    wl, a, ph = table[o, 0], table[o, 1], table[o, 2] * (-1 if flip else 1)
    n = p['n']
    F = cm.C_NMPS / p['wl'] + (np.arange(n) - n // 2) / p['T']
    lam = cm.C_NMPS / F
    inside = (lam >= wl[0]) & (lam <= wl[-1])
    W = np.where(inside, np.interp(lam, wl, a) * np.exp(1j * np.interp(lam, wl, ph)), 0)
    return W, lam, wl


class World:
    def __init__(self, sim, sc, scratch):
        from pynlo.media.fibers.fiber import FiberInstance
        self.sim, self.sc, self.scratch = sim, sc, scratch
        self.disk = simio.Disk(sim, scratch)
        self.pulses = [cm.make_pulse(p) for p in sc['pulses']]
        self.before = [cm.pulse_state(p) for p in self.pulses]
        self.count = 0
        self.fibres = {}
        self.saved = {}
        self.damaged = set()
        self.FiberInstance = FiberInstance

    def call(self, op, fn, *a, **k):
        self.disk.set(op.get('fault'))
        kind, v = self.sim.call(fn, *a, fault=op.get('fault'), **k)
        fired = self.disk.clear()
        return kind, v, fired

    def path(self, t, name):
        return os.path.join(self.scratch, '%d_%s' % (t, name))

    def place(self, t, op, name=None):
        """The file of an operation, on disk."""
        if 'text' not in op:
            return self.path(t, 'p%d' % op['f'])
        self.count += 1
        path = self.path(t, name or 'f%d' % self.count)
        if 'slot' in op:
            path = self.path(t, '%s%d' % (op['op'], op['slot']))
            if op['op'] == 'db':    # the same name in different directories
                os.makedirs(path, exist_ok=True)
                path = os.path.join(path, 'mine.txt')
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.remove(path)
            self.damaged.discard(path)
        if op.get('gone') == 'missing':
            return path
        if op.get('gone') == 'directory':
            os.mkdir(path)
            return path
        with open(path, 'wb') as f:
            f.write(op['text'].encode('latin1', 'replace'))
        if op.get('hurt'):
            self.damaged.add(path)      # may be rejected, must not be misread
        return path

    def failed(self, op, path, kind, v, fired, bad):
        """Whether a load failed; complains if it should not have."""
        if kind == 'ok':
            return False
        if fired or isinstance(v, engine.INJECTED):
            self.sim.probe('load-abandoned')
        elif bad is None and path not in self.damaged:
            raise engine.Violation('failed', '%s of a good file raised %s: %s' % (op, type(v).__name__, v))
        else:
            self.sim.probe('load-rejected')
        return True

    # ------------------------------------------------------------ pulses
    def save(self, t, op):
        path = self.place(t, op)
        p = self.pulses[op['p']]
        self.saved.pop(path, None)
        self.damaged.add(path)
        kind, v, fired = self.call(op, p.write_frog, path, flip_phase=op['flip'])
        if kind == 'exc':
            if not (fired or isinstance(v, engine.INJECTED)):
                raise engine.Violation('failed', 'write_frog raised %s: %s' % (type(v).__name__, v))
            self.sim.probe('save-failed')
            return
        if fired:
            raise engine.Violation('swallowed', 'write_frog succeeded although the disk failed: %s' % op)
        self.sim.probe('saved')
        self.saved[path] = (op['p'], op['flip'])
        self.damaged.discard(path)

    def hurt(self, t, op):
        import random
        path = self.path(t, op['f'])
        data = content(path)
        if data:
            text = damage(random.Random(op['seed']), data.decode('latin1'))
            with open(path, 'wb') as f:
                f.write(text.encode('latin1', 'replace'))
            self.saved.pop(path, None)
            self.damaged.add(path)

    def frog(self, t, op):
        from pynlo.light.DerivedPulses import FROGPulse
        path = self.place(t, op)
        d = self.sc['pulses'][op['p']]
        data = content(path)
        bad, table = None, None
        if data is None:
            bad = 'unreadable'
        else:
            try:
                table = parse(data, None, 0, 3, False)
                if len(table) < 2 or len(set(table[:, 0])) < len(table):
                    bad = 'too few rows'
            except Malformed as e:
                bad = str(e)
        power = 1e-9 * d['power']
        kind, v, fired = self.call(op, FROGPulse, d['T'], d['wl'], power * (d['frep'] * 1e6 if op['avg'] else 1),
                                   frep_MHz=d['frep'], NPTS=d['n'], power_is_avg=op['avg'], fileloc=path,
                                   flip_phase=op['flip'])
        if self.failed(op, path, kind, v, fired, bad):
            return
        st = cm.pulse_state(v)
        if st['AW'] is None:
            if not (fired or data is None):
                raise engine.Violation('failed', '%s: the pulse of a good file is not ready' % op)
            self.sim.probe('not-ready')
            return
        if fired:
            raise engine.Violation('swallowed', '%s: a pulse in spite of a disk error' % op)
        if table is None:
            raise engine.Violation('accepted', '%s: a pulse from a file that is %s' % (op, bad))
        if bad:
            return
        W, lam, wl = frog_of(table, d, op['flip'], power)
        edge = np.min(np.abs(lam[:, None] - wl[[0, -1]])) < 1e-9 * wl[-1]
        kept = self.saved.get(path)
        if not np.any(W) or np.abs(W).max() < 1e-150 or np.abs(table[:, 2]).max() > 1e5 or np.ptp(wl) <= 0:
            return
        if edge and not (kept and kept[0] == op['p']):
            return
        if kept and kept[0] == op['p']:
            # saved on this very grid: the pulse itself (conjugated if the flips differ)
            W = self.before[op['p']]['AW']
            W = W if kept[1] == op['flip'] else np.conj(W)
            self.sim.probe('round-trips')
        n, T = d['n'], d['T']
        W = W * math.sqrt(power / 1.0)
        # energy of a field with this spectrum
        A = np.fft.ifftshift(np.fft.fft(np.fft.fftshift(W)))
        dt = T * 1e-12 / n
        e = np.trapz(np.abs(A) ** 2) * dt
        W = W * math.sqrt(power / e)
        r = cm.bad(st['AW'], W, 1e-7)
        if r:
            raise engine.Violation('wrong-data', '%s: not the pulse in the file: %s' % (op, r))
        if (st['n'], st['T'], st['frep']) != (n, T, d['frep']):
            raise engine.Violation('wrong-data', '%s: not the requested grid: %s' % (op, st))
        self.sim.probe('pulses-loaded')

    # ------------------------------------------------------------ fibres
    def fibre_of(self, t, op):
        k = (t, op['obj'])
        if k not in self.fibres:
            x = self.FiberInstance()
            x.generate_fiber(1.25, 1000 + 100 * op['obj'], [0.5, 0.25], 0.125, 0.0625)
            self.fibres[k] = x
        return self.fibres[k]

    def unchanged(self, op, x, before, why):
        r = fibre_diff(before, fibre_state(x))
        if r:
            raise engine.Violation('half-loaded', '%s: %s changed the fibre: %s' % (op, why, r))

    def rolled_back(self, op, x, before, exc):
        if isinstance(exc, engine.INJECTED) and not isinstance(exc, engine.InjectedIOError):
            return      # interrupted between two assignments: the next load has to mend it
        self.unchanged(op, x, before, 'a failed load')

    def fibre(self, t, op):
        path = self.place(t, op)
        x = self.fibre_of(t, op)
        before = fibre_state(x)
        data = content(path)
        bad, table = None, None
        try:
            if data is None:
                raise Malformed('unreadable')
            table = parse(data, op['sep'], op['header'], 2, True, nans=True)
            if len(table) < 2:
                bad = 'one row'
            elif any(c > 127 or c < 9 for c in data):
                bad = 'unusual characters'
        except Malformed as e:
            bad = str(e)
        kind, v, fired = self.call(op, x.load_from_file, path, op['L'], op['name'], op['gamma'], op['gain'],
                                   delimiter=op['sep'], skiprows=op['header'], poly_order=op['order'])
        if self.failed(op, path, kind, v, fired, bad):
            self.rolled_back(op, x, before, v)
            return
        if fired:
            raise engine.Violation('swallowed', '%s: loaded in spite of a disk error' % op)
        if table is None:
            raise engine.Violation('accepted', '%s: a fibre from a file that is %s' % (op, bad))
        xy = np.atleast_1d(x.x), np.atleast_1d(x.y)
        for got, exp, q in ((xy[0], table[:, 0], 'wavelengths'), (xy[1], table[:, 1], 'dispersion')):
            if not cm.same(np.asarray(got, float), exp):
                raise engine.Violation('wrong-data', '%s: %s are %s, in the file %s' % (op, q, got, exp))
        for q, exp in (('length', op['L']), ('gamma', op['gamma']), ('gain', op['gain']), ('poly_order', op['order'])):
            if getattr(x, q) != exp:
                raise engine.Violation('wrong-data', '%s: %s is %r' % (op, q, getattr(x, q)))
        if bad or not np.isfinite(table).all() or len(set(table[:, 0])) <= op['order'] + 1 or table[:, 0].min() < 50:
            return
        self.used(op, x, table, op['order'])
        self.sim.probe('fibres-loaded')

    def used(self, op, x, table, order):
        from pynlo.media.fibers.calculators import DTabulationToBetas
        p = self.pulses[op['p']]
        mine = table.copy()
        betas = DTabulationToBetas(p.center_wavelength_nm, mine, order, DDataIsFile=False)
        if not cm.same(mine, table):
            raise engine.Violation('caller-array', 'DTabulationToBetas changed its table')
        B = sum(b / math.factorial(i + 2) * np.array(p.V_THz) ** (i + 2) for i, b in enumerate(betas))
        r = cm.bad(x.get_betas(p), B, 1e-9)
        if r:
            raise engine.Violation('wrong-data', '%s: dispersion is not that of the file: %s' % (op, r))

    def dtab(self, t, op):
        from pynlo.media.fibers.calculators import DTabulationToBetas
        path = self.place(t, op)
        data = content(path)
        bad, table = None, None
        try:
            if data is None:
                raise Malformed('unreadable')
            table = parse(data, ',', 1, 2, False)
            if len(set(table[:, 0])) < max(2, op['order'] + 1) or table[:, 0].min() < 50:
                bad = 'too few rows'
            elif any(c > 127 or c < 9 for c in data):
                bad = 'unusual characters'
        except Malformed as e:
            bad = str(e)
        lam = self.sc['pulses'][op['p']]['wl']
        kind, v, fired = self.call(op, DTabulationToBetas, lam, path, op['order'])
        if self.failed(op, path, kind, v, fired, bad):
            return
        if fired:
            raise engine.Violation('swallowed', '%s: coefficients in spite of a disk error' % op)
        if table is None:
            raise engine.Violation('accepted', '%s: coefficients %s from a file that is %s' % (op, v, bad))
        if bad:
            return
        mine = table[:, :2].copy()
        exp = DTabulationToBetas(lam, mine, op['order'], DDataIsFile=False)
        if not cm.same(mine, table[:, :2]):
            raise engine.Violation('caller-array', 'DTabulationToBetas changed its table')
        if cm.bad(v, exp, 1e-9):
            raise engine.Violation('wrong-data', '%s: %s, from the same table in memory %s' % (op, v, exp))
        self.sim.probe('tables-loaded')

    def db(self, t, op):
        path = self.place(t, op, 'db%d.txt' % (self.count + 1))
        data = content(path)
        bad, d = None, None
        if data is None:
            bad = 'unreadable'
        else:
            try:
                d = json.loads(data.decode('latin1'))
                if not isinstance(d, dict):
                    bad = 'not a database'
                if any(c > 127 or c < 9 for c in data):
                    bad = 'unusual characters'
            except ValueError as e:
                bad = str(e)
        kind, v, fired = self.call(op, self.FiberInstance, os.path.basename(path)[:-4], os.path.dirname(path))
        if self.failed(op, path, kind, v, fired, bad):
            return
        if fired:
            raise engine.Violation('swallowed', '%s: a database in spite of a disk error' % op)
        if d is None:
            raise engine.Violation('accepted', '%s: a database from a file that is %s' % (op, bad))
        if bad:
            return
        x = v
        x.generate_fiber(1.25, 1000, [0.5, 0.25], 0.125, 0.0625)
        before = fibre_state(x)
        fault = op.get('fault') if (op.get('fault') or {}).get('kind') in ('interrupt', 'nomem') else None
        e = d.get(op['pick'])
        need = {'D': ['dispersion_x_data', 'dispersion_y_data', 'dispersion_x_units', 'dispersion_y_units'],
                'GVD': ['dispersion_gvd_units', 'dispersion_gvd_center_wavelength', 'dispersion_data']}
        good = isinstance(e, dict) and 'gamma' in e and e.get('dispersion_format') in need and \
            all(k in e for k in need[e['dispersion_format']])
        kind, v = self.sim.call(x.load_from_db, op['L'], op['pick'], op['order'], fault=fault)
        if kind == 'exc':
            if good and not isinstance(v, engine.INJECTED):
                raise engine.Violation('failed', '%s: %s: %s' % (op, type(v).__name__, v))
            self.rolled_back(op, x, before, v)
            self.sim.probe('entry-rejected')
            return
        if not good:
            if not isinstance(e, dict) or 'gamma' not in e:
                raise engine.Violation('accepted', '%s: entry %s' % (op, e))
            return
        if x.length != op['L'] or x.gamma != e['gamma'] or x.fibertype != op['pick']:
            raise engine.Violation('wrong-data', '%s: length %r gamma %r type %r' % (op, x.length, x.gamma, x.fibertype))
        if e['dispersion_format'] == 'D':
            for q, k in (('x', 'dispersion_x_data'), ('y', 'dispersion_y_data')):
                if not np.array_equal(np.asarray(getattr(x, q), float), np.asarray(e[k], float)):
                    raise engine.Violation('wrong-data', '%s: %s is %s' % (op, q, getattr(x, q)))
        else:
            k = 1e-3 if e['dispersion_gvd_units'] == 'ps^n/km' else 1.0
            r = cm.bad(x.betas, np.array(e['dispersion_data']) * k, 1e-12)
            if r or x.center_wavelength != e['dispersion_gvd_center_wavelength']:
                raise engine.Violation('wrong-data', '%s: coefficients: %s' % (op, r))
        self.sim.probe('entries-loaded')


def execute(sc, sim):
    scratch = tempfile.mkdtemp(prefix='c16_')
    out = []
    try:
        w = World(sim, sc, scratch)

        def task(t, ops):
            def run():
                for op in ops:
                    others = {k: fibre_state(x) for k, x in w.fibres.items() if k != (t, op.get('obj'))} \
                        if len(sc['tasks']) == 1 else {}
                    getattr(w, op['op'])(t, op)
                    for k, st in others.items():
                        w.unchanged(op, w.fibres[k], st, 'another load')
                    out.append(op['op'])
            return run
        with w.disk.mounted():
            sim.run_tasks([task(t, ops) for t, ops in enumerate(sc['tasks'])])
        if w.count and not w.disk.opened:
            sim.probe('absent: open()')
        for i, p in enumerate(w.pulses):
            r = cm.state_diff(cm.pulse_state(p), w.before[i])
            if r:
                raise engine.Violation('input-changed', 'pulse %d: %s' % (i, r))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out
