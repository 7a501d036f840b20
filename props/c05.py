"""C05: ODE integrations do not influence each other."""
import numpy as np

from sim import engine
from props import common as cm
from props import odes

ID = 'C05'
QUICK = 900
THOROUGH = 60000
OPCODE_P = 0.1
SWITCH_P = [0.01, 0.05, 0.2, 0.5]
ORACLE = 'the same integration run alone in a pristine process, bit for bit'
RULE = ('Seeded sets of adaptive integrations over ten equations: in 1-4 threads, started from inside each other\'s '
        'right-hand side, failing in the right-hand side, interrupted, out of memory, retried from the same start '
        'array. Each result is compared bit for bit with the same integration alone in a pristine process.')
COMPONENTS = {'real': ['ODEint, Output, StepperDopr853, Controller'], 'stub': ['right-hand sides (harness)',
                                                                               'thread scheduler (simulated)']}
ASSUMPTIONS = ['integrations that run at the same time have Output objects and start arrays of their own', 'right-hand sides are pure functions']


def gen_op(rng, depth=0, faults=True):
    op = {'ode': odes.gen_ode(rng, small=True)}
    if rng.random() < 0.12:
        op['ode']['hmin'] = cm.loguniform(rng, 1e-4, 1e-1)
    if faults and rng.random() < 0.3:
        f = cm.async_fault(rng, 0.5, 3000) if depth == 0 else None
        op['fault'] = f or {'kind': 'callback', 'at': int(cm.loguniform(rng, 1, 120))}
    if depth < 2 and rng.random() < (0.4 if depth == 0 else 0.25):
        op['nest'] = [dict(gen_op(rng, depth + 1), at=int(cm.loguniform(rng, 1, 80)))
                      for _ in range(rng.choice([1, 1, 2]))]
        for n in op['nest']:
            n['swallow'] = rng.random() < 0.8
    return op


def generate(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 4])
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            if ops and rng.random() < 0.25:
                ops.append({'again': rng.randrange(len(ops))})
            else:
                ops.append(gen_op(rng))
                j = rng.randrange(len(ops))
                if j < len(ops) - 1 and 'ode' in ops[j] and rng.random() < 0.4:
                    # the output object of an earlier one is used again
                    if rng.random() < 0.6:
                        a = ops[j]['ode']
                        ops[-1]['ode'] = dict(a, seed=rng.randrange(1 << 20), rtol=ops[-1]['ode']['rtol'] if
                                              rng.random() < 0.5 else a['rtol'])
                    ops[-1]['ode']['nsave'] = ops[j]['ode']['nsave']
                    ops[-1]['ode']['dense'] = ops[j]['ode']['dense']
                    ops[-1]['out'] = j
        tasks.append(ops)
    if rng.random() < 0.4:      # the same problem in every thread, at other tolerances
        base = tasks[0][0]['ode']
        for t in tasks[1:]:
            t[0]['ode'] = dict(base, rtol=t[0]['ode']['rtol'] if 'ode' in t[0] else 1e-4)
            t[0].pop('again', None)
    return {'tasks': tasks}


class RHS:
    def __init__(self, w, d, op):
        self.w, self.f, self.op, self.calls = w, odes.rhs(d), op, 0

    def deriv(self, x, y, dydx):
        w, op = self.w, self.op
        self.calls += 1
        if w is not None:
            f = op.get('fault')
            if f and f['kind'] == 'callback' and self.calls == f['at']:
                w.sim.fault_fired('callback')
                raise engine.CallbackFault('right-hand side failed')
            for n in op.get('nest', ()):
                if n['at'] == self.calls:
                    w.sim.probe('nested')
                    try:
                        w.integrate(n, None)
                    except Exception as e:
                        if not n['swallow']:
                            if isinstance(e, engine.INJECTED):
                                raise
                            raise engine.CallbackFault('inner integration failed')
            w.sim.yield_point('rhs', 0.1)
        dydx[:] = self.f(x, y)


class World:
    def __init__(self, sim):
        self.sim = sim
        self.rec = []
        self.kept = []
        self.used = []      # (output, the integration which last got it)

    def integrate(self, op, y, out=None):
        """Runs one integration where it is (nested, or under sim.call)."""
        d = op['ode']
        if y is None:
            y = odes.start(d)
        y0 = y.copy()
        r = RHS(self, d, op)
        ent = {'d': d, 'y0': y0}
        try:
            if out is not None:
                self.used.append((out, None))
            ode = odes.integrator(d, y, r, out)
            self.used.append((ode.out, ode))
            ode.integrate()
        except engine.NoProgress:
            raise
        except BaseException as e:
            ent['exc'] = type(e).__name__
            ent['injected'] = isinstance(e, engine.INJECTED)
            ent['async'] = isinstance(e, (engine.Interrupt, engine.NoMemory))
            ent['yafter'] = y.copy()
            self.rec.append(ent)
            raise
        ent['res'] = dict(odes.outcome(ode, y), calls=r.calls)
        self.rec.append(ent)
        # the arrays handed out, which stay the caller's
        o = ode.out
        self.kept.append((ode, y, ent['res'], None if o.xsave is None else o.xsave[:o.count],
                          None if o.ysave is None else o.ysave[:o.count]))
        return y


def execute(sc, sim):
    w = World(sim)

    def task(ops):
        def run():
            ys, outs = [], []
            for op in ops:
                out = None
                if 'again' in op:
                    if op['again'] >= len(ys):
                        continue
                    y, src = ys[op['again']]
                    o = {'ode': src['ode']}
                else:
                    y, o = odes.start(op['ode']), op
                    if op.get('out') is not None and op['out'] < len(outs) and \
                            outs[op['out']][1] == op['ode']['nsave']:
                        out = outs[op['out']][0]
                        sim.probe('output-again')
                if out is None:
                    out = odes.output(o['ode'])
                outs.append((out, o['ode']['nsave']))
                sim.call(w.integrate, o, y, out, fault=o.get('fault'))
                ys.append((y.copy() if 'again' in op else y, o))
        return run
    sim.run_tasks([task(t) for t in sc['tasks']])
    # nothing that was handed out has changed since
    owner, last = {}, {}
    for i, k in enumerate(w.kept):
        owner[id(k[1])] = i
    for out, rec in w.used:
        last[id(out)] = rec
    for i, (ode, y, res, x, ys) in enumerate(w.kept):
        now = odes.outcome(ode, y)
        if owner[id(y)] != i:
            now['y'] = res['y']
        if last[id(ode.out)] is not ode:
            now.update(x=x, ys=ys, count=res['count'])
        for k, v in (('x', x), ('ys', ys)):
            if res[k] is not None and not cm.same(v, res[k]):
                raise engine.Violation('changed-later', 'the array %s that an integration handed out was changed by a later one' % k)
        for k in ('x', 'ys', 'y'):
            if res[k] is not None and not cm.same(now[k], res[k]):
                raise engine.Violation('changed-later', 'result %s of a finished integration was changed by a later one' % k)
        if now['count'] != res['count']:
            raise engine.Violation('changed-later', 'number of saved points changed later')
    return w.rec


def solo(cases):
    out = []
    for d, y0 in cases:
        y = y0.copy()
        r = RHS(None, d, {})
        try:
            ode = odes.integrator(d, y, r)
            ode.integrate()
        except Exception as e:
            out.append({'exc': type(e).__name__})
            continue
        out.append({'res': dict(odes.outcome(ode, y), calls=r.calls)})
    return out


def differs(a, e):
    if a.get('exc') != e.get('exc'):
        return 'ended with %s, alone it ends with %s' % (a.get('exc') or 'a result', e.get('exc') or 'a result')
    if 'exc' in a:
        return None
    for k in ('nok', 'nbad', 'calls', 'count'):
        if a['res'][k] != e['res'][k]:
            return '%s is %r, alone it is %r' % (k, a['res'][k], e['res'][k])
    for k in ('x', 'ys', 'y'):
        p, q = a['res'][k], e['res'][k]
        if (p is None) != (q is None) or (p is not None and not cm.same(p, q)):
            return '%s differs from the same integration alone (%s)' % (k, cm.bad(p, q, 0))
    return None


def check(sc, rec, ref, violate):
    for a in rec:
        # an interrupt may hit between handing the result over and returning
        if 'exc' in a and not a.get('async') and not cm.same(a['yafter'], a['y0']):
            violate('left-behind', 'an integration that failed (%s) changed the caller\'s start values' % a['exc'])
            return
    todo = [a for a in rec if not a.get('injected')]
    exp = cm.references(ref, solo, [(a['d'], a['y0']) for a in todo])
    for a, e in zip(todo, exp):
        r = differs(a, e)
        if r:
            e = ref(solo, [(a['d'], a['y0'])])[0]
            r = differs(a, e)
        if r:
            violate('not-isolated', '%s: %s' % (a['d'], r))
            return
