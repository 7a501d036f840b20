"""Command line of the checks: seeded batches, minimisation, replay, evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXIT_ERROR = 3


def setup_environment():
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    src = os.environ.get('VERIF_SRC', '/repo/src')
    # An edit of the same size in the same second would be hidden by an old .pyc
    from importlib import _bootstrap_external as boot
    cached = boot.cache_from_source
    own = os.path.join(os.path.abspath(src), '')

    def cache_from_source(path, *a, **k):
        if os.path.abspath(path).startswith(own):
            raise NotImplementedError       # no bytecode file is kept for it
        return cached(path, *a, **k)
    boot.cache_from_source = cache_from_source
    sys.path.insert(0, src)
    from . import engine, seams
    engine.install_locks()
    import numpy as np
    np.seterr(all='ignore')
    seams.deterministic_fftw()
    import pynlo
    if not pynlo.__file__.startswith(engine.ROOT):
        raise SystemExit('pynlo imported from %s, not %s' % (pynlo.__file__, engine.ROOT))
    import numpy
    numpy.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    # Everything is imported before the first run: an import inside a run would
    # hold the interpreter's import lock across a simulated context switch.
    import pkgutil
    for m in pkgutil.walk_packages(pynlo.__path__, 'pynlo.', onerror=lambda n: None):
        if m.name.endswith(('.test', '.example')):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    engine.code_objects()
    # what exists now is never garbage: gc.collect() in the library then costs little
    import gc
    gc.collect()
    gc.freeze()
    import scipy.linalg, scipy.optimize, scipy.interpolate, scipy.fftpack  # noqa: F401,E401


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower())


# ---------------------------------------------------------------- one run
def _seed_generators(scenario, k):
    """The global generators start anew in each run, and elsewhere in each reference."""
    import numpy as np
    s = (zlib.crc32(json.dumps(scenario, sort_keys=True).encode()) + 7919 * k) & 0xffffffff
    random.seed(s)
    np.random.seed(s)


def _reference(scenario, k, fn, *args):
    _seed_generators(scenario, k)
    return fn(*args)


def _simulate(prop, scenario, sched):
    from . import engine
    import numpy as np
    sys.stdout = open(os.devnull, 'w')
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    _seed_generators(scenario, 0)
    sim = engine.Sim(sched, max_steps=getattr(prop, 'MAX_STEPS', 3_000_000))
    engine.Sim.current = sim
    sim.instrument()
    hist = None
    try:
        hist = prop.execute(scenario, sim)
    except engine.Violation as v:
        sim.violate(v.cls, v.msg)
    except engine.NoProgress as e:
        sim.violate('no-progress', str(e))
    except engine.HarnessError:
        raise
    except Exception:
        sim.violate('unexpected-exception', traceback.format_exc()[-1500:])
    return {'hist': hist, 'violations': sim.violations, 'steps': sim.steps,
            'switches': sim.switches, 'sig': sim.signature(), 'faults': sim.faults,
            'sites': sim.fault_sites, 'probes': sim.probes, 'log': sim.log,
            'simtime': sim.simtime, 'where': sim.where}


def _verify(prop, scenario, hist):
    from . import engine, forks
    import numpy as np
    np.seterr(all='ignore')
    sys.stdout = open(os.devnull, 'w')
    out = []

    count = [0]

    def ref(fn, *args):
        count[0] += 1
        return forks.forked(_reference, scenario, count[0], fn, *args, timeout=300)

    def violate(cls, msg):
        out.append({'cls': cls, 'msg': str(msg)[:2000]})
    try:
        prop.check(scenario, hist, ref, violate)
    except engine.Violation as v:
        violate(v.cls, v.msg)
    except engine.HarnessError:
        raise
    except Exception:
        violate('unexpected-exception', traceback.format_exc()[-1500:])
    return out


def digest(res):
    import pickle
    h = hashlib.sha1()
    h.update(pickle.dumps((_canon(res['hist']), res['steps'], res['switches'],
                           [v['cls'] for v in res['violations']], _canon(res['log'])), protocol=4))
    return h.hexdigest()


def _canon(x):
    import numpy as np
    if isinstance(x, dict):
        return tuple(sorted((str(k), _canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(_canon(v) for v in x)
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return repr(x.item())
    return repr(x)


def run_one(prop, scenario, sched):
    from . import forks
    t = getattr(prop, 'RUN_TIMEOUT', 240)
    try:
        res = forks.forked(_simulate, prop, scenario, sched, timeout=t)
    except (forks.Died, forks.TimedOut) as e:
        cls = 'process-died' if isinstance(e, forks.Died) else 'no-progress'
        res = {'hist': None, 'violations': [{'cls': cls, 'msg': str(e)}], 'steps': 0,
               'switches': [], 'sig': '', 'faults': {}, 'sites': {}, 'probes': {}, 'log': [],
               'simtime': 0.0, 'where': []}
    res['digest'] = digest(res)
    if hasattr(prop, 'check') and res['hist'] is not None:
        res['violations'] = res['violations'] + forks.forked(
            _verify, prop, scenario, res['hist'], timeout=t)
    return res


def make_case(prop, seed, i, tier):
    rng = random.Random('%s/%s/%s' % (prop.ID, seed, i))
    scenario = prop.generate(rng, tier)
    scenario = json.loads(json.dumps(scenario))
    ntasks = len(scenario.get('tasks', [0]))
    sched = {'mode': 'none'}
    if ntasks > 1:
        sched = {'mode': 'random', 'seed': rng.randrange(1 << 48),
                 'p': rng.choice(getattr(prop, 'SWITCH_P', [0.003, 0.01, 0.03, 0.1, 0.3])),
                 'rare': rng.random() < 0.7,
                 'gran': 'opcode' if rng.random() < getattr(prop, 'OPCODE_P', 0.0) else 'line'}
    elif rng.random() < getattr(prop, 'OPCODE_P', 0.0):
        sched = {'mode': 'none', 'gran': 'opcode'}
    if scenario.get('gran'):
        sched['gran'] = scenario['gran']
    return scenario, sched


# ------------------------------------------------------------- batches
def _limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass


def _worker(prop, seed, tier, w, counter, total, wfd):
    out = os.fdopen(wfd, 'w')
    try:
        try:    # one core per worker: simulated threads hand over faster
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[w % len(cpus)]})
        except OSError:
            pass
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= total:
                break
            scenario, sched = make_case(prop, seed, i, tier)
            t0 = time.monotonic()
            try:
                res = run_one(prop, scenario, sched)
            except Exception:
                out.write(json.dumps({'i': i, 'error': traceback.format_exc()}) + '\n')
                out.flush()
                return
            rec = {'i': i, 'steps': res['steps'], 'sig': res['sig'], 'faults': res['faults'],
                   'sites': res['sites'], 'probes': res['probes'], 'nsw': len(res['switches']),
                   'digest': res['digest'], 'violations': res['violations'],
                   'simtime': res['simtime'], 't': time.monotonic() - t0,
                   'shape': hashlib.sha1(json.dumps(scenario, sort_keys=True).encode()).hexdigest()[:16]}
            if res['violations']:
                rec['switches'] = res['switches']
            out.write(json.dumps(rec) + '\n')
            out.flush()
    finally:
        try:
            out.close()
        finally:
            os._exit(0)


def run_batch(prop, seed, tier, total, workers, budget, stop_on_violation=True, known=()):
    """Runs cases 0..total-1; returns (records, errors, complete)."""
    recs, errors, pids, fds, bufs = [], [], {}, {}, {}
    sys.stdout.flush()
    workers = max(1, min(workers, total))
    import multiprocessing
    counter = multiprocessing.get_context('fork').Value('q', 0)
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            os.setpgid(0, 0)
            _limit_memory()
            _worker(prop, seed, tier, w, counter, total, wr)
        os.close(wr)
        fds[r] = pid
        bufs[r] = b''
    end = time.monotonic() + budget
    stopping = False
    complete = True
    try:
        while fds:
            left = end - time.monotonic()
            if left <= 0:
                complete = False
                break
            rd, _, _ = select.select(list(fds), [], [], min(left, 5))
            for r in rd:
                b = os.read(r, 1 << 16)
                if not b:
                    os.close(r)
                    os.waitpid(fds.pop(r), 0)
                    continue
                bufs[r] += b
                *lines, bufs[r] = bufs[r].split(b'\n')
                for ln in lines:
                    rec = json.loads(ln)
                    if 'error' in rec:
                        errors.append(rec)
                        stopping = True
                        continue
                    recs.append(rec)
                    if stop_on_violation and any(v['cls'] not in known for v in rec['violations']):
                        stopping = True
            if stopping:
                break
    finally:
        for r, pid in fds.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.close(r)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
    return recs, errors, complete and not stopping


# --------------------------------------------------------- minimisation
def _classes(res):
    return [v['cls'] for v in res['violations']]


def generic_shrinks(sc):
    """Candidate simplifications of a scenario, biggest cuts first."""
    tasks = sc.get('tasks')
    if tasks and len(tasks) > 1:
        for i in range(len(tasks)):
            c = copy.deepcopy(sc)
            del c['tasks'][i]
            yield c
    if tasks:
        for i, t in enumerate(tasks):
            ops = t['ops'] if isinstance(t, dict) else t
            n = len(ops)
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    if n - size < 1 and len(tasks) == 1:
                        continue
                    c = copy.deepcopy(sc)
                    o = c['tasks'][i]['ops'] if isinstance(t, dict) else c['tasks'][i]
                    del o[a:a + size]
                    yield c
                size //= 2
        for i, t in enumerate(tasks):
            ops = t['ops'] if isinstance(t, dict) else t
            for j, op in enumerate(ops):
                if isinstance(op, dict) and op.get('fault'):
                    c = copy.deepcopy(sc)
                    o = c['tasks'][i]['ops'] if isinstance(t, dict) else c['tasks'][i]
                    del o[j]['fault']
                    yield c
    if sc.get('faults'):
        for i in range(len(sc['faults'])):
            c = copy.deepcopy(sc)
            del c['faults'][i]
            yield c


def minimise(prop, scenario, sched, cls, budget):
    """Greedy shrinking that keeps a violation of the same class."""
    end = time.monotonic() + budget

    def fails(sc, sd):
        try:
            res = run_one(prop, sc, sd)
        except Exception:
            return None
        return res if cls in _classes(res) else None

    cur, cs = scenario, sched
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        cands = generic_shrinks(cur)
        if hasattr(prop, 'shrink'):
            import itertools
            cands = itertools.chain(cands, prop.shrink(cur))
        for c in cands:
            if time.monotonic() > end:
                break
            tried += 1
            sd = cs
            if len(c.get('tasks', [0])) < 2:
                sd = {'mode': 'none', 'gran': cs.get('gran', 'line')}
            res = fails(c, sd)
            if res is None and sd.get('mode') == 'list' and len(c['tasks']) == len(cur['tasks']):
                pass
            if res is not None:
                cur = c
                if sd.get('mode') == 'random':
                    sd = {'mode': 'list', 'gran': sd.get('gran', 'line'), 'switches': res['switches']}
                    if fails(c, sd) is None:
                        sd = cs
                cs = sd
                progress = True
                break
    # fewer context switches
    if cs.get('mode') == 'list':
        sw = cs['switches']
        size = max(1, len(sw) // 2)
        while size >= 1 and time.monotonic() < end:
            a = 0
            while a < len(sw) and time.monotonic() < end:
                cand = sw[:a] + sw[a + size:]
                tried += 1
                if fails(cur, dict(cs, switches=cand)) is not None:
                    sw = cand
                else:
                    a += size
            size //= 2
        cs = dict(cs, switches=sw)
    return cur, cs, tried


# -------------------------------------------------------- known findings
def known_findings(pid):
    """Lines 'KNOWN-FINDING: property=<id> class=<violation class> <text>' and
    'fixed: property=<id> ...' of known_findings.txt; only the first kind matters
    here, and only to its exact violation class."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            if ln.startswith('KNOWN-FINDING: property=%s ' % pid):
                cls = ln.split('class=', 1)[1].split()[0]
                out[cls] = ln.strip()
    return out


def evidence(prop, tier, seed, recs, wall, violations, total, extra=None):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    faults, sites, probes = {}, {}, {}
    for r in recs:
        for src, dst in ((r['faults'], faults), (r['sites'], sites), (r['probes'], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    nontrivial = {(r['shape'], r['sig'] if r['nsw'] else '') for r in recs
                  if r['nsw'] or r['faults'] or r['steps'] > 20}
    samples = []
    for r in recs[:2]:
        sc, sd = make_case(prop, seed, r['i'], tier)
        samples.append({'case': r['i'], 'scenario': sc, 'schedule': sd, 'steps': r['steps'],
                        'switches': r['nsw'], 'faults': r['faults']})
    s = json.dumps(samples)
    if len(s) > 40000:
        samples = [{'case': r['i'], 'steps': r['steps'], 'switches': r['nsw'], 'faults': r['faults'],
                    'scenario': json.dumps(make_case(prop, seed, r['i'], tier)[0])[:4000]} for r in recs[:2]]
    comp = getattr(prop, 'COMPONENTS', {})
    cov = {
        'evaluations': len(recs),
        'distinct_nontrivial': len(nontrivial),
        'rule': getattr(prop, 'RULE', 'seeded scenarios') +
        ' Non-trivial: at least one fault fired, one context switch taken or 20 traced '
        'steps of the code under test; distinct: by scenario content and sequence of '
        'switch locations.',
        'samples': samples,
        'runs_planned': total,
        'runs_and_seeds_per_hour': int(len(recs) / wall * 3600) if wall > 0 else 0,
        'simulated_steps': sum(r['steps'] for r in recs),
        'longest_run_steps': max([r['steps'] for r in recs] or [0]),
        'step_limit_per_run': getattr(prop, 'MAX_STEPS', 3_000_000),
        'simulated_time': ({'unit': prop.SIMTIME, 'covered': sum(r['simtime'] for r in recs)}
                           if hasattr(prop, 'SIMTIME') else
                           'the code has no clock: its time is simulated_steps, traced lines or opcodes'),
        'context_switches': sum(r['nsw'] for r in recs),
        'distinct_interleavings': len({r['sig'] for r in recs if r['nsw']}),
        'distinct_interleavings_measure': 'hash of the sequence of (function, line) at which a switch was taken',
        'distinct_histories': len({r['digest'] for r in recs}),
        'faults_injected': faults,
        'fault_sites': dict(sorted(sites.items(), key=lambda kv: -kv[1])[:40]),
        'probes': probes,
        'real_components': comp.get('real', []),
        'stub_components': comp.get('stub', []),
    }
    if extra:
        cov.update(extra)
    ev = {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(prop, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': violations}
    tmp = os.path.join(d, '.%s.tmp' % prop.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop.ID + '.json'))


def report(prop, seed, tier, rec, minimise_budget):
    """Minimise, write the replay file, confirm it in a fresh process."""
    scenario, sched = make_case(prop, seed, rec['i'], tier)
    cls = rec['violations'][0]['cls']
    msg = rec['violations'][0]['msg']
    full = sched
    if sched.get('mode') == 'random':
        full = {'mode': 'list', 'gran': sched.get('gran', 'line'), 'switches': rec.get('switches', [])}
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (prop.ID, seed, rec['i']))
    msc, msd, tried = minimise(prop, scenario, full, cls, minimise_budget)
    for sc, sd, how in ((msc, msd, 'minimised'), (scenario, full, 'unminimised'),
                        (scenario, sched, 'seeded')):
        with open(path, 'w') as f:
            json.dump({'property': prop.ID, 'seed': seed, 'case': rec['i'], 'tier': tier,
                       'class': cls, 'form': how, 'shrink_attempts': tried,
                       'scenario': sc, 'schedule': sd, 'message': msg}, f, indent=1)
        p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'sim', 'main.py'),
                            '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=600)
        if p.returncode == 1:
            for ln in p.stdout.splitlines():
                print(ln)
            return path
    print('not reproducible in a fresh process: %s %s' % (cls, msg))
    return None


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = load_prop(r['property'])
    if hasattr(prop, 'warm'):
        prop.warm()
    res = run_one(prop, r['scenario'], r['schedule'])
    hit = [v for v in res['violations'] if v['cls'] == r['class']]
    print('replay %s: %s' % (r['property'], 'reproduced' if hit else 'not reproduced'))
    for v in res['violations']:
        print('  %s: %s' % (v['cls'], v['msg']))
    print('  steps=%d switches=%d faults=%s digest=%s' % (res['steps'], len(res['switches']),
                                                          res['faults'], res['digest']))
    if hit:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1 if hit else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int, help='run one case and print its result')
    ap.add_argument('--digests', help='write the digest of every case to this file')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    setup_environment()
    if a.replay:
        return replay(a.replay)
    prop = load_prop(a.id)
    if hasattr(prop, 'warm'):
        prop.warm()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.case is not None:
        sc, sd = make_case(prop, a.seed, a.case, tier)
        print(json.dumps(sc)[:6000])
        print(json.dumps(sd))
        t0 = time.monotonic()
        res = run_one(prop, sc, sd)
        print('steps', res['steps'], 'switches', len(res['switches']), 'faults', res['faults'],
              'probes', res['probes'], 'wall %.3f' % (time.monotonic() - t0))
        for v in res['violations']:
            print('  V', v['cls'], v['msg'])
        return 1 if res['violations'] else 0
    total = a.runs or (prop.QUICK if tier == 'quick' else prop.THOROUGH)
    budget = 700 if tier == 'quick' else 6 * 3600
    known = known_findings(prop.ID)
    t0 = time.monotonic()
    print('%s tier=%s seed=%d runs=%d workers=%d' % (prop.ID, tier, a.seed, total, a.workers))
    sys.stdout.flush()
    recs, errors, complete = run_batch(prop, a.seed, tier, total, a.workers, budget,
                                       stop_on_violation=not a.keep_going, known=known)
    recs.sort(key=lambda r: r['i'])
    wall = time.monotonic() - t0
    if a.digests:
        with open(a.digests, 'w') as f:
            for r in recs:
                f.write('%d %s %s\n' % (r['i'], r['digest'], r['sig']))
    bad = [r for r in recs if r['violations']]
    new, seen = [], set()
    for r in bad:
        fresh = [v for v in r['violations'] if v['cls'] not in known]
        seen.update(v['cls'] for v in r['violations'] if v['cls'] in known)
        if fresh:
            r['violations'] = fresh
            new.append(r)
    if a.keep_going and new:
        hist = {}
        for r in new:
            for v in r['violations']:
                hist.setdefault(v['cls'], []).append((r['i'], v['msg']))
        for k, v in hist.items():
            print('%s: %d runs, e.g. case %d: %s' % (k, len(v), v[0][0], v[0][1][:600]))
    evidence(prop, tier, a.seed, recs, wall, len(new), total)
    for c in sorted(known):
        print(known[c])
    if new:
        path = report(prop, a.seed, tier, new[0], 60 if tier == 'quick' else 300)
        if path is None:
            for r in new[1:4]:
                path = report(prop, a.seed, tier, r, 60)
                if path:
                    break
        if path is None:
            return EXIT_ERROR
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR in case %d:\n%s' % (e['i'], e['error']))
        return EXIT_ERROR
    if len(recs) < total:
        print('incomplete: %d of %d runs' % (len(recs), total))
        return EXIT_ERROR
    f = {}
    for r in recs:
        for k, v in r['faults'].items():
            f[k] = f.get(k, 0) + v
    pr = {}
    for r in recs:
        for k, v in r['probes'].items():
            pr[k] = pr.get(k, 0) + v
    print('%s held on %d runs in %.1f s: %d steps, %d switches, faults %s' % (
        prop.ID, len(recs), wall, sum(r['steps'] for r in recs), sum(r['nsw'] for r in recs), f))
    print('probes', pr)
    return 0
