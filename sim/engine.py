"""Deterministic simulator for a single-process Python library.

One run executes a *scenario* (plain JSON data) under a *schedule*.  Tasks are
caller threads of the library; they are real threads, but exactly one is ever
released, and which one is decided here at every traced line (or opcode) of the
code under test.  The same hook delivers asynchronous faults (an interrupt, a
failed allocation) at a chosen traced event, and bounds every run in steps.
"""
import sys
import os
import random
import hashlib
import threading
import _thread

SRC = os.environ.get('VERIF_SRC', '/repo/src')
ROOT = os.path.join(SRC, 'pynlo') + os.sep


class Interrupt(KeyboardInterrupt):
    """An injected Ctrl-C."""


class NoMemory(MemoryError):
    """An injected allocation failure."""


class InjectedIOError(OSError):
    """An injected I/O failure."""


class CallbackFault(RuntimeError):
    """A user callback that fails."""


class NoProgress(BaseException):
    """The step budget of the run is used up."""


class HarnessError(Exception):
    """The machinery itself is broken: never reported as a violation."""


INJECTED = (Interrupt, NoMemory, InjectedIOError, CallbackFault)
ASYNC = {'interrupt': Interrupt, 'nomem': NoMemory}


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls + ': ' + msg)
        self.cls, self.msg = cls, msg


TOOL = 3
_codes = None


def code_objects():
    """Every code object of the code under test, collected once."""
    global _codes
    if _codes is None:
        import gc
        found, todo = set(), []
        for o in gc.get_objects():
            c = getattr(o, '__code__', None) if type(o).__name__ == 'function' else None
            if c is not None and c.co_filename.startswith(ROOT):
                todo.append(c)
        while todo:
            c = todo.pop()
            if c not in found:
                found.add(c)
                todo.extend(k for k in c.co_consts if hasattr(k, 'co_consts'))
        _codes = sorted(found, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return _codes


class Task:
    def __init__(self, sim, tid, name):
        self.sim, self.tid, self.name = sim, tid, name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.error = None
        self.fault = None          # [countdown, kind]
        self.active = False        # inside code under test


class Sim:
    """Scheduler, clock (in steps), fault delivery and event log of one run."""
    current = None     # the Sim that is running in this process, if any

    def __init__(self, sched=None, max_steps=3_000_000):
        sched = sched or {}
        self.mode = sched.get('mode', 'none')
        self.p = sched.get('p', 0.02)
        self.rare = sched.get('rare', True)
        self.gran = sched.get('gran', 'line')
        self.rng = random.Random(sched.get('seed', 0))
        self.plan = {int(a): b for a, b in sched.get('switches', [])}
        self.max_steps = max_steps
        self.steps = 0
        self.switches = []
        self.where = []
        self.tasks = []
        self.cur = None
        self.hits = {}
        self.faults = {}           # kind -> fired
        self.fault_sites = {}
        self.probes = {}
        self.violations = []
        self.log = []
        self.exhausted = False
        self._main = Task(self, -1, 'main')
        self.cur = self._main
        self.simtime = 0.0         # metres of fibre/crystal, where that is the clock

    # ---- bookkeeping -------------------------------------------------
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault_fired(self, kind, site=None):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        if site:
            self.fault_sites[site] = self.fault_sites.get(site, 0) + 1

    def violate(self, cls, msg):
        self.violations.append({'cls': cls, 'msg': msg[:2000]})

    def event(self, *a):
        self.log.append(a)

    # ---- tracing -----------------------------------------------------
    def instrument(self):
        """Have every line (or instruction) of the code under test report here.
        sys.monitoring rather than sys.settrace: an exception that leaves a trace
        function ends tracing (and CPython 3.12 may crash); one that leaves a
        monitoring callback is just raised in the code under test."""
        m = sys.monitoring
        m.use_tool_id(TOOL, 'simulator')
        ev = m.events.INSTRUCTION if self.gran == 'opcode' else m.events.LINE
        m.register_callback(TOOL, ev, self._point)
        for code in code_objects():
            m.set_local_events(TOOL, code, ev)

    def _point(self, code, at):
        t = self.cur
        if not t.active:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.exhausted = True
            raise NoProgress('more than %d steps' % self.max_steps)
        if t.fault is not None:
            t.fault[0] -= 1
            if t.fault[0] <= 0:
                kind = t.fault[1]
                t.fault = None
                self.fault_fired(kind, '%s:%s' % (os.path.basename(code.co_filename), code.co_name))
                raise ASYNC[kind]('injected')
        if len(self.tasks) > 1:
            self._maybe_switch(code, at)

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t is not self.cur]

    def _maybe_switch(self, code, line, p=None):
        nxt = None
        if self.mode == 'random':
            if p is None:
                p = self.p
                if self.rare:
                    k = (code, line)
                    h = self.hits[k] = self.hits.get(k, 0) + 1
                    p = max(p, 0.3 / h)
            if self.rng.random() < p:
                r = self._runnable()
                if r:
                    nxt = r[self.rng.randrange(len(r))]
        elif self.mode == 'list':
            tid = self.plan.get(self.steps)
            if tid is not None:
                for t in self._runnable():
                    if t.tid == tid:
                        nxt = t
        if nxt is not None:
            self.switches.append([self.steps, nxt.tid])
            self.where.append('%s:%s' % (getattr(code, 'co_name', code), line))
            self._switch(nxt)

    def _switch(self, nxt):
        me = self.cur
        self.cur = nxt
        nxt.lock.release()
        me.lock.acquire()

    def yield_point(self, tag='callback', p=0.5):
        """A scheduling point in harness code (user callbacks, I/O seams)."""
        self.steps += 1
        if self.steps > self.max_steps:
            self.exhausted = True
            raise NoProgress('more than %d steps' % self.max_steps)
        if len(self.tasks) > 1 and self.cur is not self._main:
            self._maybe_switch(tag, 0, p=p)

    def block(self):
        """The running task can't go on (it waits for a lock): let another run."""
        self.steps += 1
        if self.steps > self.max_steps:
            self.exhausted = True
            raise NoProgress('deadlock')
        r = self._runnable()
        if not r:
            self.exhausted = True
            raise NoProgress('deadlock: every task waits')
        # round robin: independent of the schedule's random stream
        later = [t for t in r if t.tid > self.cur.tid]
        self._switch((later or r)[0])

    # ---- running -----------------------------------------------------
    def arm(self, fault):
        """fault: {'kind': 'interrupt'|'nomem', 'at': n} for the op that follows."""
        if fault and fault.get('kind') in ASYNC:
            self.cur.fault = [fault['at'], fault['kind']]

    def disarm(self):
        fired = self.cur.fault is None
        self.cur.fault = None
        return fired

    def call(self, fn, *args, **kw):
        """Run code under test under the tracer; returns ('ok', value) or
        ('exc', exception).  NoProgress ends the task."""
        fault = kw.pop('fault', None)
        if fault and fault.get('kind') in ASYNC:
            self.cur.fault = [fault['at'], fault['kind']]
        me = self.cur
        was, me.active = me.active, True
        try:
            r = ('ok', fn(*args, **kw))
        except NoProgress:
            raise
        except (KeyboardInterrupt, Exception) as e:
            if isinstance(e, HarnessError):
                raise
            r = ('exc', e)
        finally:
            me.active = was
            me.fault = None
        if self.exhausted:
            raise NoProgress('more than %d steps' % self.max_steps)
        return r

    def run_tasks(self, fns):
        """Run the callables as tasks to completion.  One callable runs inline."""
        assert self.cur is self._main
        if len(fns) == 1:
            self.tasks = []
            try:
                fns[0]()
            except NoProgress as e:
                self.violate('no-progress', str(e))
            return
        self.tasks = [Task(self, i, 'task%d' % i) for i in range(len(fns))]
        old = threading.stack_size(16 * 1024 * 1024)
        threads = []
        for t, fn in zip(self.tasks, fns):
            th = threading.Thread(target=self._body, args=(t, fn), daemon=True)
            threads.append(th)
            th.start()
        threading.stack_size(old)
        first = self.tasks[0]
        if self.mode == 'random':
            first = self.tasks[self.rng.randrange(len(self.tasks))]
            self.switches.append([0, first.tid])
        elif self.mode == 'list':
            first = self.tasks[self.plan.get(0, 0) % len(self.tasks)]
        self._switch(first)
        for th in threads:
            th.join()
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        self.tasks = []

    def _body(self, t, fn):
        t.lock.acquire()
        try:
            fn()
        except NoProgress as e:
            if not any(v['cls'] == 'no-progress' for v in self.violations):
                self.violate('no-progress', str(e))
        except BaseException as e:          # harness error: re-raised by run_tasks
            t.error = e
        finally:
            t.active = False
            t.done = True
            r = [x for x in self.tasks if not x.done]
            if r:
                nxt = r[0]
                if self.mode == 'random':
                    nxt = r[self.rng.randrange(len(r))]
                    self.switches.append([-t.tid - 1, nxt.tid])
                elif self.mode == 'list':
                    tid = self.plan.get(-t.tid - 1)
                    nxt = next((x for x in r if x.tid == tid), r[0])
                self.cur = nxt
                nxt.lock.release()
            else:
                self.cur = self._main
                self._main.lock.release()

    def signature(self):
        return hashlib.sha1(repr((self.where, len(self.switches))).encode()).hexdigest()[:16]


class SimLock:
    """What threading.Lock()/RLock() give the code under test: a lock whose
    waiters let the simulator run somebody else."""
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = Sim.current
        if s is None or len(s.tasks) < 2 or s.cur is s._main or not blocking:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            s.block()
        return True

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError('cannot pickle lock object')

    def __reduce__(self):
        raise TypeError('cannot pickle lock object')


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def wrap(real):
        def factory():
            if sys._getframe(1).f_code.co_filename.startswith(ROOT):
                return SimLock(real())
            return real()
        return factory
    threading.Lock = wrap(real_lock)
    threading.RLock = wrap(real_rlock)
