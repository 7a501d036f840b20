"""C14: the DFG run store keeps every complete run and never a mixture."""
import contextlib
import os
import shutil
import tempfile
import types

import numpy as np

from sim import engine, seams
from props import common as cm

ID = 'C14'
QUICK = 1500
THOROUGH = 60000
SWITCH_P = [0.02, 0.1, 0.3]
OPCODE_P = 0.35
ORACLE = 'a list of the runs whose adding succeeded, per file and parameter name'
RULE = ('Seeded histories on 1-2 files with several parameter names: opening for writing (also over existing data), adding '
        'runs of different sizes, closing, reopening, reading planes in any order, with a storage call failing before or '
        'after it took effect, torn array writes, full disk, failed reads, interrupts and failed allocations at chosen '
        'lines and opcodes; sometimes two threads with a file each.')
COMPONENTS = {'real': ['DFGWriter, DFGReader', 'PyTables and HDF5 on scratch files', 'ODEint with its Output', 'Pulse'],
              'stub': ['storage calls of PyTables wrapped so that a chosen one fails', 'right-hand side (harness)',
                       'thread scheduler (simulated)']}
ASSUMPTIONS = ['one storage failure per call: removing what a failed call left behind works',
               'a caller that interrupts the opening of a file closes it', 'the process survives (HDF5 files are not crash-consistent)', 'one file is used by one thread']

PARAMS = ['power', 'area', 'poling']
WRITES = ['create_group', 'create_carray', '__setitem__', 'flush']


def gen_run(rng):
    n = rng.choice([4, 8, 16, 32])
    T = round(rng.uniform(1.1, 9), 4)
    return {'n': n, 'T': [T] * 3 if rng.random() < 0.6 else [T, round(T * 1.25, 4), round(T * 0.8, 4)], 'wl': [round(rng.uniform(1000, 1100), 3), round(rng.uniform(1400, 1600), 3),
                                   round(rng.uniform(2800, 4500), 3)],
            'frep': rng.choice([80.0, 100.0, 76.1234567, 1e-3]), 'seed': rng.randrange(1 << 30), 'nsave': rng.choice([0, 1, 2, 5, 5, 12, 40]) if rng.random() < 0.99 else 600,
            'dense': rng.random() < 0.5, 'rtol': rng.choice([1e-3, 1e-8]),
            'param': rng.choice([rng.uniform(-10, 10), float(rng.randrange(5)), 1e-300, 0.1])}


def gen_fault(rng):
    u = rng.random()
    if u < 0.6:
        return {'kind': 'storage', 'call': rng.choice(WRITES), 'at': rng.randrange(1, 12), 'when': rng.choice(
            ['before', 'after', 'torn']), 'err': rng.choice(['disk-full', 'io', 'hdf5'])}
    return cm.async_fault(rng, 1, 400)


def generate(rng, tier):
    nt = 2 if rng.random() < 0.25 else 1
    tasks = []
    for t in range(nt):
        ops = []
        files = [2 * t, 2 * t + 1] if nt == 1 and rng.random() < 0.3 else [t]
        for _ in range(rng.choice([2, 3, 5])):
            f = rng.choice(files)
            name = rng.choice(PARAMS[:rng.choice([1, 2, 3])])
            w = {'op': 'open', 'f': f, 'name': name}
            if rng.random() < 0.2:
                w['fault'] = gen_fault(rng)
                w['fault']['at'] = rng.randrange(1, 4) if w['fault']['kind'] == 'storage' else w['fault']['at'] % 20 + 1
            ops.append(w)
            many = rng.random() < 0.03
            for _ in range(rng.choice([11, 12, 15] * 4 + [105]) if many else rng.choice([0, 1, 2, 3, 4])):
                a = {'op': 'add', 'run': gen_run(rng)}
                if many:
                    a['run'].update(n=4, nsave=0)
                if rng.random() < (0.1 if many else 0.4):
                    a['fault'] = gen_fault(rng)
                ops.append(a)
            ops.append({'op': 'close'})
            for _ in range(rng.choice([0, 1, 2])):
                ops.append({'op': 'read', 'f': f, 'name': rng.choice([name] + PARAMS), 'seed': rng.randrange(1 << 20),
                            'fail': rng.choice([0, 0, 0, 1, 2, 5])})
                if rng.random() < 0.2:
                    ops[-1]['fault'] = cm.async_fault(rng, 1, 80)
        tasks.append(ops)
    return {'tasks': tasks}


def shrink(sc):
    import copy
    for i, t in enumerate(sc['tasks']):
        for j, op in enumerate(t):
            if op['op'] == 'add' and op['run']['n'] > 4:
                c = copy.deepcopy(sc)
                c['tasks'][i][j]['run'].update(n=4, nsave=0)
                yield c


class Still:
    """A right-hand side that turns the phases."""
    def deriv(self, x, y, dydx):
        dydx[:] = 1j * y


def make_run(r):
    from pynlo.light.PulseBase import Pulse
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853
    n = r['n']
    rng = np.random.RandomState(r['seed'])
    ps = []
    for wl, T in zip(r['wl'], r['T']):
        p = Pulse(frep_MHz=r['frep'], n=n)
        p.set_center_wavelength_nm(wl)
        p.set_time_window_ps(T)
        p.set_AW(rng.standard_normal(n) + 0j)
        ps.append(p)
    y = rng.standard_normal(3 * n) + 1j * rng.standard_normal(3 * n)
    dense = r['dense'] and r['nsave'] > 0
    ode = ode_solve.ODEint(y, 0.0, 1.0, r['rtol'], r['rtol'], 0.1, 0.0, ode_solve.Output(r['nsave'] or 1),
                           dopr853.StepperDopr853, Still(), dense=dense)
    ode.integrate()
    return types.SimpleNamespace(pump=ps[0], sgnl=ps[1], idlr=ps[2]), ode


def stored(r, ode):
    n = r['n']
    c = ode.out.count
    ys = np.array(ode.out.ysave[:c])
    return {'n': n, 'T': r['T'], 'wl': r['wl'], 'frep': r['frep'], 'param': r['param'],
            'ys': [ys[:, :n], ys[:, n:2 * n], ys[:, 2 * n:]], 'count': c}


class Storage:
    """Failing storage calls, chosen per operation and counted on its own task."""
    def __init__(self, sim):
        self.sim, self.armed = sim, {}

    def arm(self, f):
        if f and f['kind'] == 'storage':
            self.armed[self.sim.cur.tid] = dict(f)

    def disarm(self):
        self.armed.pop(self.sim.cur.tid, None)

    def error(self, f):
        import tables
        self.sim.fault_fired('storage-%s-%s' % (f['err'], f['when']), f['call'])
        if f['err'] == 'hdf5':
            class InjectedHDF5(tables.HDF5ExtError, engine.CallbackFault):
                pass
            return InjectedHDF5('injected')
        return engine.InjectedIOError(28 if f['err'] == 'disk-full' else 5, 'injected')

    def wrap(self, call):
        def make(real):
            def f(*a, **k):
                s = self.armed.get(self.sim.cur.tid)
                if s is None or s['call'] != call or not self.sim.cur.active:
                    return real(*a, **k)
                s['at'] -= 1
                if s['at'] != 0:
                    return real(*a, **k)
                self.disarm()
                if s['when'] == 'torn' and call == '__setitem__':
                    arr, v = a[0], np.asarray(a[2])
                    if v.ndim == 2:
                        h = (v.shape[0] + 1) // 2
                        real(arr, (slice(0, h), slice(None)), v[:h])
                elif s['when'] == 'after':
                    real(*a, **k)
                raise self.error(s)
            return f
        return make

    @contextlib.contextmanager
    def seams(self):
        import tables
        with contextlib.ExitStack() as st:
            for call in ('create_group', 'create_carray', 'flush'):
                st.enter_context(seams.patched(tables.File, call, self.wrap(call)))
            st.enter_context(seams.patched(tables.CArray, '__setitem__', self.wrap('__setitem__')))
            st.enter_context(seams.patched(tables.CArray, '__getitem__', self.wrap('__getitem__')))
            yield


def execute(sc, sim):
    import logging
    d = tempfile.mkdtemp(prefix='c14_')
    try:
        return _execute(sc, sim, d)
    finally:
        import tables
        tables.file._open_files.close_all()
        shutil.rmtree(d, ignore_errors=True)


def _execute(sc, sim, d):
    from pynlo.interactions.ThreeWaveMixing import multi_run_rw as rw
    st = Storage(sim)
    log = []

    def task(ops):
        def run():
            w, name, f = None, None, None
            model = {}      # (file, name) -> list of stored runs; absent: never made
            unsure = set()
            for op in ops:
                if op['op'] == 'open':
                    if w is not None:
                        w.tables_file.close()
                    f, name = op['f'], op['name']
                    st.arm(op.get('fault'))
                    kind, v = sim.call(rw.DFGWriter, path(d, f), name, fault=op.get('fault'))
                    st.disarm()
                    w = None
                    if kind == 'ok':
                        w = v
                        model[f, name] = []
                        unsure.discard((f, name))
                    elif isinstance(v, engine.INJECTED):
                        if kind_of(op) != 'storage':
                            close(path(d, f))
                        # the old data may or may not have been dropped
                        sim.probe('open-failed')
                        unsure.add((f, name))
                    else:
                        raise engine.Violation('failed', 'opening for writing raised %s: %s' % (type(v).__name__, v))
                elif op['op'] == 'close':
                    if w is not None:
                        w.tables_file.close()
                        w = None
                elif op['op'] == 'add':
                    if w is None:
                        continue
                    prob, ode = make_run(op['run'])
                    before = np.array(ode.out.ysave[:ode.out.count])
                    st.arm(op.get('fault'))
                    kind, v = sim.call(w.add_run, prob, ode, op['run']['param'], fault=op.get('fault'))
                    st.disarm()
                    if not cm.same(before, ode.out.ysave[:ode.out.count]):
                        raise engine.Violation('input-changed', 'saving a run changed it')
                    if kind == 'ok':
                        model[f, name].append(stored(op['run'], ode))
                        sim.probe('added')
                    elif isinstance(v, engine.INJECTED):
                        sim.probe('add-failed')
                        if kind_of(op) != 'storage' and \
                                len(w.tables_file.list_nodes('/' + name)) == len(model[f, name]) + 1:
                            # the interrupt may have come when the run was complete
                            model[f, name].append(stored(op['run'], ode))
                            sim.probe('added-all-the-same')
                    else:
                        raise engine.Violation('failed', 'add_run raised %s: %s' % (type(v).__name__, v))
                elif op['op'] == 'read':
                    if w is not None or (op['f'], op['name']) in unsure:
                        continue
                    exp = model.get((op['f'], op['name']))
                    if not os.path.exists(path(d, op['f'])):
                        continue
                    if op['fail']:
                        st.arm({'kind': 'storage', 'call': '__getitem__', 'at': op['fail'], 'when': 'before', 'err': 'io'})
                    read(sim, rw, path(d, op['f']), op['name'], exp, op)
                    st.disarm()
            if w is not None:
                w.tables_file.close()
            for (ff, name), exp in sorted(model.items()):
                if (ff, name) not in unsure:
                    read(sim, rw, path(d, ff), name, exp, {'seed': 1}, final=True)
            log.append([len(v) for _, v in sorted(model.items())])
        return run
    with st.seams():
        sim.run_tasks([task(t) for t in sc['tasks']])
    return log


def kind_of(op):
    return (op.get('fault') or {'kind': 'storage'})['kind']


def close(file):
    import tables
    for h in list(tables.file._open_files.get_handlers_by_name(file)):
        h.close()


def path(d, f):
    return os.path.join(d, 'runs%d.h5' % f)


def read(sim, rw, file, name, exp, op, final=False):
    kind, r = sim.call(rw.DFGReader, file, name, fault=op.get('fault'))
    if kind == 'exc':
        if isinstance(r, engine.INJECTED):
            sim.probe('read-failed')
            if kind_of(op) != 'storage':
                close(file)
            return
        if exp is None:
            return
        raise engine.Violation('unreadable', 'opening for reading (%d runs) raised %s: %s' % (len(exp), type(r).__name__, r))
    try:
        if exp is None:
            raise engine.Violation('appeared', 'data under a name that was never written')
        if r.run_ctr != len(exp):
            raise engine.Violation('wrong-runs', 'the file has %d runs, %d were added' % (r.run_ctr, len(exp)))
        rng = np.random.RandomState(op['seed'])

        def ask(fn, *a):
            kind, v = sim.call(fn, *a)
            if kind == 'exc':
                if isinstance(v, engine.INJECTED):
                    sim.probe('read-failed')
                    return None
                raise engine.Violation('unreadable', 'reading %s raised %s: %s' % (a, type(v).__name__, v))
            return v
        for i in range(len(exp)):
            z = -1 if final or rng.random() < 0.5 else rng.randint(-exp[i]['count'], exp[i]['count'])
            v = ask(r.get_next_run, *([] if z == -1 and rng.random() < 0.8 else [z]))
            if v is not None:
                same(v, exp[i], z, 'run %d read in sequence' % i)
            elif not op.get('fail'):
                raise engine.Violation('wrong-runs', 'reading in sequence ended after %d of %d runs' % (i, len(exp)))
        for _ in range(2 * len(exp) if not final else 0):
            i = rng.randint(len(exp))
            z = rng.randint(-exp[i]['count'], exp[i]['count'])
            v = ask(r.get_run, i, z)
            if v is not None:
                same(v, exp[i], z, 'run %d plane %d' % (i, z))
            v = ask(r.get_run_param, i)
            if v is not None and not v == exp[i]['param']:
                raise engine.Violation('wrong-data', 'parameter of run %d is %r, saved %r' % (i, v, exp[i]['param']))
        for i in range(len(exp) if final else 0):
            for z in (0, -1):
                v = ask(r.get_run, i, z)
                if v is not None:
                    same(v, exp[i], z, 'run %d plane %d' % (i, z))
            v = ask(r.get_run_param, i)
            if v is not None and not v == exp[i]['param']:
                raise engine.Violation('wrong-data', 'parameter of run %d is %r, saved %r' % (i, v, exp[i]['param']))
        if exp:
            v = ask(r.get_run)
            if v is not None:
                same(v, exp[-1], -1, 'last run')
            v = ask(r.get_run_param)
            if v is not None and not v == exp[-1]['param']:
                raise engine.Violation('wrong-data', 'last parameter is %r, saved %r' % (v, exp[-1]['param']))
        for bad in (len(exp), -1):
            kind, v = sim.call(r.get_run, bad)
            if kind == 'ok' or not isinstance(v, IndexError):
                raise engine.Violation('wrong-runs', 'get_run(%d) of %d runs gave %r' % (bad, len(exp), v))
        sim.probe('files-read')
    finally:
        r.tables_file.close()


def same(pulses, e, z, what):
    for p, ys, wl, T, name in zip(pulses, e['ys'], e['wl'], e['T'], ('pump', 'signal', 'idler')):
        if p.NPTS != e['n'] or not cm.same(p.AW, ys[z]):
            raise engine.Violation('wrong-data', '%s: the %s field is not the one saved' % (what, name))
        for q, v in (('time_window_ps', T), ('center_wavelength_nm', wl)):
            if abs(getattr(p, q) - v) > 1e-12 * v:
                raise engine.Violation('wrong-data', '%s: %s %s is %r, saved %r' % (what, name, q, getattr(p, q), v))
        if abs(p.frep_MHz - e['frep']) > 1e-12 * e['frep']:
            raise engine.Violation('wrong-data', '%s: %s repetition rate is %r, saved %r' % (what, name, p.frep_MHz, e['frep']))
