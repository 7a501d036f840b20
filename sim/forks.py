"""Fork helpers: every simulated run, and every reference computation, happens
in a process forked from a parent that has only imported the library."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


class ChildFailed(Exception):
    """The child died, timed out or raised: an error of the machinery."""


class Died(ChildFailed):
    """The child was killed by a signal (a crash of the interpreter)."""


class TimedOut(ChildFailed):
    pass


def _child(w, fn, args):
    code = 0
    try:
        try:
            out = ('ok', fn(*args))
        except BaseException:
            out = ('err', traceback.format_exc())
        try:
            data = pickle.dumps(out, protocol=4)
        except BaseException:
            data = pickle.dumps(('err', 'unpicklable result\n' + traceback.format_exc()), protocol=4)
        off = 0
        while off < len(data):
            off += os.write(w, data[off:off + (1 << 20)])
    except BaseException:
        code = 70
    finally:
        os._exit(code)


def forked(fn, *args, timeout=300.0):
    """Run fn(*args) in a forked child and return its (pickled) result."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(w, fn, args)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise TimedOut('no result after %.0f s' % timeout)
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        raise
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if not chunks:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT,
                                                              signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            raise Died('killed by signal %d' % os.WTERMSIG(status))
        raise ChildFailed('child died without a result')
    kind, val = pickle.loads(b''.join(chunks))
    if kind == 'err':
        raise ChildFailed(val)
    return val
