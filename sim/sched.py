"""Deterministic scheduling of real threads.

Each simulated client is a real thread parked on its own semaphore; exactly one
is released at a time.  The running client can be switched out at any executed
line of causalnex code (and at factor callbacks); who runs next and for how many
lines is drawn from the run's tape.
"""
import threading
import types

from . import core


class Abort(BaseException):
    pass


class Client:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.blocked_on = None
        self.steps = 0
        self.thread = None


CURRENT = None   # the active scheduler


class Scheduler:
    def __init__(self, sim, slices=(1, 2, 3, 5, 9, 20, 60, 400), budget=2_000_000):
        self.sim = sim
        self.slices = slices
        self.clients = []
        self.cur = None
        self.left = 0
        self.switches = 0
        self.steps = 0
        self.budget = budget
        self.main = threading.Semaphore(0)
        self.aborting = False
        self.problem = None

    def spawn(self, name, fn):
        self.clients.append(Client(name, fn))

    # -- run ----------------------------------------------------------------
    def run(self):
        global CURRENT
        for c in self.clients:
            c.thread = threading.Thread(target=self._body, args=(c,), daemon=True)
        saved = (core.STEP.active, core.STEP.scheduler)
        core.STEP.active, core.STEP.scheduler = True, self
        CURRENT = self
        for c in self.clients:
            c.thread.start()
        try:
            self._dispatch(None)
            if not self.main.acquire(timeout=120):
                self.problem = ("real-stall", "a client blocked outside the simulator for 120 s")
                self.aborting = True
        finally:
            CURRENT = None
            core.STEP.active, core.STEP.scheduler = saved
            for c in self.clients:
                c.thread.join(30 if self.problem is None else 2)
            self.sim.total_steps += self.steps
        if self.problem is not None:
            raise core.Violation(*self.problem)

    def _body(self, c):
        c.sem.acquire()
        try:
            if not self.aborting:
                c.fn()
        except Abort:
            pass
        except BaseException as e:  # noqa: recorded and judged by the property
            c.error = e
        c.done = True
        self.sim.sched("end", c.name)
        self._dispatch(c)

    def _runnable(self):
        return [c for c in self.clients if not c.done and (c.blocked_on is None or c.blocked_on())]

    def _dispatch(self, me):
        """Pick who runs next.  Called by the running thread (or main at start)."""
        if all(c.done for c in self.clients):
            self.main.release()
            return
        ready = self._runnable()
        if self.aborting:
            nxt = next(c for c in self.clients if not c.done)
        elif not ready:
            self.problem = ("deadlock", "every unfinished client is blocked: %s"
                            % ",".join(c.name for c in self.clients if not c.done))
            self.aborting = True
            nxt = next(c for c in self.clients if not c.done)
        else:
            nxt = ready[self.sim.draw(len(ready))]
        self.left = self.slices[self.sim.draw(len(self.slices))]
        if nxt is not me:
            self.switches += 1
        self.cur = nxt
        if nxt is me:
            return
        nxt.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.aborting:
                raise Abort()

    def on_line(self, code, line):
        c = self.cur
        if c is None or threading.current_thread() is not c.thread:
            return
        if self.aborting:
            raise Abort()
        self.steps += 1
        c.steps += 1
        if self.steps > self.budget:
            self.problem = ("no-progress", "clients did not finish within %d steps" % self.budget)
            self.aborting = True
            raise Abort()
        self.left -= 1
        if self.left <= 0:
            self.sim.sched("sw", c.name, code.co_name, c.steps)
            self._dispatch(c)

    def yield_now(self, label=""):
        c = self.cur
        if c is not None and threading.current_thread() is c.thread:
            self.sim.sched("yield", c.name, label)
            self._dispatch(c)

    def block_until(self, cond):
        c = self.cur
        if c is None or threading.current_thread() is not c.thread:
            return cond()
        while not cond():
            c.blocked_on = cond
            self._dispatch(c)
            c.blocked_on = None
        return True


def _me():
    return threading.current_thread()


class SimLock:
    """Lock whose waiting is a scheduling decision; plain bookkeeping when single-threaded."""
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if self._reentrant and self.owner is me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            if CURRENT is None or self.owner is me and len(CURRENT.clients) == 0:
                raise core.Violation("deadlock", "lock acquired twice by one thread")
            CURRENT.block_until(lambda: self.owner is None)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


def make_threading_proxy():
    m = types.ModuleType("threading")
    for name in dir(threading):
        if not name.startswith("_"):
            setattr(m, name, getattr(threading, name))
    m.Lock = SimLock
    m.RLock = SimRLock
    return m
