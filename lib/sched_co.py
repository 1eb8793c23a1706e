"""A scheduler for the threads of one process: only one runs at a time, and another one may
take over at every executed line (or byte code) of the code under test and at every operation
on a lock.  `install()` must be called before the code under test is imported: its locks,
conditions, events, sleeps and threads are then those of the scheduler.

A schedule is decided by a policy: a function (current, enabled) -> chosen."""

import _thread
import os
import sys
import threading
import time

PART = "/earthkit/regrid/"
UNTRACED = None  # a function of the frame: True for frames without switches
COARSE = ("gridspec.py", "hash.py", "utils/matrix.py", "humanize.py")
_real_start = _thread.start_new_thread
_alloc = _thread.allocate_lock


class T:
    def __init__(self, name):
        self.name = name
        self.sem = _alloc()
        self.sem.acquire()
        self.pred = None  # blocked until pred()
        self.sleeping = False
        self.done = False
        self.n = self.naps = 0
        self.outer = None  # the outermost frame of the code under test


class Sched:
    def __init__(self):
        self.main = self.cur = T("main")
        self.all = [self.main]
        self.byident = {_thread.get_ident(): self.main}
        self.policy = None
        self.opcodes = False
        self.lines = True
        self.steps = 0
        self.nap = 10**9  # the number of steps a sleeping thread sleeps while others can go on
        self.on_stuck = None
        self.idle = 0

    # -- choice ---------------------------------------------------------------------------
    def choose(self):
        en = [t for t in self.all if not t.done and (t.pred is None or t.pred())]
        awake = [t for t in en if not t.sleeping or t.sleeping <= self.steps]
        if awake:
            self.idle = 0
            en = awake
        elif en:
            self.idle += 1
            for t in en:
                t.sleeping = False
        if not en or self.idle > 3000:
            self.on_stuck([t.name for t in self.all if not t.done])
            os._exit(7)
        if len(en) == 1:
            return en[0]
        if self.policy is not None:
            return self.policy(self.cur, en)
        return self.cur if self.cur in en else en[0]

    def switch(self):
        """The current thread lets the policy decide who goes on."""
        me = self.cur
        self.steps += 1
        me.n += 1
        t = self.choose()
        if t is not me:
            self.cur = t
            t.sem.release()
            me.sem.acquire()

    def block(self, pred):
        me = self.cur
        if pred():
            return
        me.pred = pred
        try:
            while not pred():
                self.switch()
        finally:
            me.pred = None

    def sleep(self, s=0):
        self.cur.naps += 1  # longer and longer, so that the others can go on
        self.cur.sleeping = self.steps + self.nap + self.cur.naps
        self.switch()
        self.cur.sleeping = False

    # -- threads --------------------------------------------------------------------------
    def spawn(self, fn, name, trace=True):
        t = T(name)
        self.all.append(t)

        def boot():
            t.sem.acquire()
            self.byident[_thread.get_ident()] = t
            if trace:
                sys.settrace(self.trace)
            try:
                fn()
            finally:
                sys.settrace(None)
                t.done = True
                self.all.remove(t)
                del self.byident[_thread.get_ident()]
                n = self.choose()
                self.cur = n
                n.sem.release()

        _real_start(boot, ())
        return t

    def join(self, ts):
        self.block(lambda: all(t.done for t in ts))

    def trace(self, frame, event, arg):
        if not self.lines or PART not in frame.f_code.co_filename or frame.f_code.co_name == "<module>":
            return None
        if UNTRACED is not None and UNTRACED(frame):
            return None
        if frame.f_code.co_filename.endswith(COARSE):
            # no shared state: one switch per call
            if self.policy is not None:
                self.switch()
            return None
        if self.cur.outer is None:
            self.cur.outer = frame
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.policy is not None:
                self.switch()
        return self.local


S = None


class Lock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        S.switch()
        if self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if timeout is not None and timeout > 0:
                for _ in range(50):
                    S.sleep()
                    if self.owner is None:
                        break
                else:
                    return False
            else:
                S.block(lambda: self.owner is None)
        self.owner = S.cur
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if S.policy is not None:
            S.switch()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock = acquire, release

    def _at_fork_reinit(self):
        self.owner = None


class RLock:
    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not S.cur:
            S.switch()
            if self.owner is not None:
                if not blocking or timeout == 0:
                    return False
                if timeout is not None and timeout > 0:
                    for _ in range(50):
                        S.sleep()
                        if self.owner is None:
                            break
                    else:
                        return False
                else:
                    S.block(lambda: self.owner is None)
            self.owner = S.cur
        self.n += 1
        return True

    def release(self):
        if self.owner is not S.cur:
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None
            if S.policy is not None:
                S.switch()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is S.cur

    def _release_save(self):
        n, self.n, self.owner = self.n, 0, None
        return n

    def _acquire_restore(self, n):
        S.block(lambda: self.owner is None)
        self.owner, self.n = S.cur, n

    def _at_fork_reinit(self):
        self.owner, self.n = None, 0


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        save = getattr(self.lock, "_release_save", None)
        n = save() if save else self.lock.release()
        try:
            if timeout is None:
                S.block(lambda: tok[0])
            else:
                for _ in range(50):
                    S.sleep()
                    if tok[0]:
                        break
            return tok[0]
        finally:
            if tok in self.waiters:
                self.waiters.remove(tok)
            if save:
                self.lock._acquire_restore(n)
            else:
                self.lock.acquire()

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        k = 0
        while not r:
            self.wait(timeout)
            r = predicate()
            k += 1
            if timeout is not None and k > 3:
                break
        return r

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
            self.waiters.remove(tok)

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


def _start(self):
    done = []

    def run():
        self._co_started = True
        try:
            self.run()
        except SystemExit:
            pass
        finally:
            done.append(1)

    self._co_done = done
    self._co_t = S.spawn(run, self.name)
    S.switch()


def install():
    global S
    S = Sched()
    threading.Lock, threading.RLock, threading.Condition = Lock, RLock, Condition
    threading._allocate_lock_co = Lock
    threading.Thread.start = _start
    threading.Thread.join = lambda self, timeout=None: S.block(lambda: bool(self._co_done)) if timeout is None else S.sleep()
    threading.Thread.is_alive = lambda self: hasattr(self, "_co_done") and not self._co_done
    time.sleep = S.sleep
    return S


# -- policies -------------------------------------------------------------------------------
def preempt(points, order):
    """Threads run in the given order of priorities; at the given steps (counted from now) the
    running one goes to the end of the queue (PCT)."""
    n = [0]
    rank = {}
    low = [0]
    points = set(points)

    def f(cur, en):
        n[0] += 1
        for t in en:
            if t.name not in rank:
                rank[t.name] = order.index(t.name) if t.name in order else -1
        if n[0] in points and cur.name in rank:
            low[0] += 1
            rank[cur.name] = 1000 + low[0]
        return min(en, key=lambda t: rank[t.name])

    f.count = n
    return f


def at_points(points, order):
    """As preempt, at the given (thread, number of its step)."""
    points = set(points)
    rank = {c: k for k, c in enumerate(order)}
    low = [0]

    def f(cur, en):
        if (cur.name, cur.n) in points:
            low[0] += 1
            rank[cur.name] = 1000 + low[0]
        return min(en, key=lambda t: rank.get(t.name, -1))

    return f


def walk(rng, p):
    def f(cur, en):
        if cur in en and rng.random() >= p:
            return cur
        return rng.choice(en)

    return f
