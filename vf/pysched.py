"""Controlled execution of Python threads: every schedule up to a preemption bound, switching at line granularity.

run_all(make, bound) - make() returns (list of thread bodies, final check); threads are stopped before every line
of the traced files and on contended CoopLocks; the explorer enumerates all schedules with at most `bound`
preemptions (switches away from a thread that could continue), by depth-first search with replay.
"""
import sys, threading

_local = threading.local()


class Deadlock(Exception):
    pass


class _T:
    def __init__(self, sched, fn, files):
        self.sched, self.fn, self.files = sched, fn, files
        self.go = threading.Semaphore(0)
        self.blocked_on = None
        self.done = False
        self.exc = None
        self.th = threading.Thread(target=self.main, daemon=True)

    def main(self):
        _local.t = self
        self.go.acquire()
        if not self.sched.abandon:
            sys.settrace(self.trace)
            try:
                self.fn()
            except BaseException as e:  # noqa
                self.exc = e
            finally:
                sys.settrace(None)
        self.done = True
        self.sched.ctl.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.files):
            return None
        if event == "line":
            self.pause()
        return self.trace

    def pause(self):
        if self.sched.abandon:
            return
        self.sched.ctl.release()
        self.go.acquire()


class CoopLock:
    """A lock known to the scheduler (context manager / acquire / release)."""

    def __init__(self):
        self.owner = None

    def acquire(self, *a, **k):
        t = getattr(_local, "t", None)
        if t is None or t.sched.abandon:
            self.owner = t
            return True
        while self.owner is not None:
            t.blocked_on = self
            t.pause()
            if t.sched.abandon:
                return True
        t.blocked_on = None
        self.owner = t
        return True

    def release(self):
        self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


class _Sched:
    def __init__(self, fns, files):
        self.ctl = threading.Semaphore(0)
        self.abandon = False
        self.ts = [_T(self, f, files) for f in fns]
        for t in self.ts:
            t.th.start()

    def step(self, i):
        self.ts[i].go.release()
        self.ctl.acquire()

    def enabled(self):
        return [i for i, t in enumerate(self.ts)
                if not t.done and (t.blocked_on is None or t.blocked_on.owner is None)]


def run_all(make, bound, files, limit=200000):
    """Returns (schedules, steps, exhaustive).  make() -> (bodies, check); check(excs) raises on violation."""
    stack = [[]]          # schedule prefixes still to run: list of thread choices
    n = steps = 0
    while stack:
        prefix = stack.pop()
        if n >= limit:
            return n, steps, False
        bodies, check = make()
        s = _Sched(bodies, files)
        trace, cur, pre = [], None, 0
        while True:
            en = s.enabled()
            if not en:
                if all(t.done for t in s.ts):
                    break
                s.abandon = True
                for t in s.ts:
                    t.go.release()
                raise Deadlock(f"threads wait for each other after schedule {trace}")
            if len(trace) < len(prefix):
                c = prefix[len(trace)]
            else:
                c = cur if cur in en else en[0]
                for o in en:
                    if o != c and (cur not in en or pre < bound):
                        stack.append(trace + [o])
            if cur in en and c != cur:
                pre += 1
            trace.append(c)
            cur = c
            s.step(c)
            steps += 1
        n += 1
        for t in s.ts:
            t.th.join()
        check([t.exc for t in s.ts], trace)
    return n, steps, True
