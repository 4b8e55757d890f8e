"""One simulated run: decisions, steps, faults, history, verdict."""
import atexit
import collections
import hashlib
import random as _random
import sys
import threading as _threading
import traceback
import types

from . import loader, simset
from .tape import Tape


class Violation(Exception):
    """The property is broken.  ``kind`` is the class preserved while minimising."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class SimStop(BaseException):
    """Raised inside the code under test when a step budget runs out."""


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    """Injected fault that models an abrupt interruption (like KeyboardInterrupt)."""


class InjectedError(Exception):
    """Injected fault that models a failing callback or collaborator."""


class Sim:
    def __init__(self, tape, tier="quick", run_index=0):
        self.tape = tape
        self.tier = tier
        self.run_index = run_index
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.units = collections.Counter()
        self.trace = []
        self.trace_dropped = 0
        self._h = hashlib.blake2b(digest_size=12)
        self._sched = hashlib.blake2b(digest_size=12)
        self.sched_events = 0
        self.total_steps = 0
        self.nontrivial = False
        self.sample = None
        self.last_names = []
        self.inconclusive = None    # the run hit something the stand-ins do not implement

    # -- decisions ---------------------------------------------------------
    def draw(self, n):
        return self.tape.draw(n)

    def between(self, lo, hi):
        return lo + self.tape.draw(hi - lo + 1)

    def size(self, lo, hi, long=(60, 130, 1100), one_in=40):
        """A number of rows: usually small, now and then large enough for code that treats long data in parts."""
        if self.tape.draw(one_in) == one_in - 1:
            self.probe("long_data")
            return self.pick(long)
        return self.between(lo, hi)

    def chance(self, num, den):
        """True with probability num/den; the plain (replay-zero) outcome is False."""
        return self.tape.draw(den) >= den - num

    def pick(self, seq):
        seq = list(seq)
        return seq[self.tape.draw(len(seq))]

    def shuffled(self, seq):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.tape.draw(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]

    def substream(self):
        """A PRNG for bulk randomness; one tape entry decides all of it."""
        return _random.Random(self.tape.draw(2 ** 32) + 1)

    # -- history -----------------------------------------------------------
    def note(self, *event):
        s = " ".join(str(e) for e in event)
        self._h.update(s.encode("utf-8", "backslashreplace") + b"\n")
        if len(self.trace) < 400:
            self.trace.append(s if len(s) < 600 else s[:600] + "...")
        else:
            self.trace_dropped += 1

    def sched(self, *event):
        """Note an event that identifies the interleaving / schedule taken."""
        s = " ".join(str(e) for e in event)
        self._sched.update(s.encode("utf-8", "backslashreplace") + b"\n")
        self.sched_events += 1
        self.note("|", s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    @property
    def digest(self):
        return self._h.hexdigest()

    @property
    def sched_digest(self):
        return self._sched.hexdigest()

    # -- environment ---------------------------------------------------------
    def choose_set_order(self):
        mode = self.draw(4)
        seed = self.draw(2 ** 20) if mode >= 2 else 0
        simset.POLICY.reset(mode, seed)
        self.probe("set_order:" + simset.MODE_NAMES[mode])
        self.note("set-order", simset.MODE_NAMES[mode], seed)
        if mode:
            self.fault("set_iteration_reordered")
        return mode


# --------------------------------------------------------------------------
# Line-level stepping of causalnex code
# --------------------------------------------------------------------------
_mon = sys.monitoring
_TOOL = 4
_installed = False


class Stepper:
    """Counts executed causalnex lines, enforces budgets, injects faults, yields."""

    def __init__(self):
        self.active = False
        self.steps = 0
        self.budget = None
        self.inject_at = None
        self.inject_exc = None
        self.injected = 0
        self.where = None
        self.scheduler = None
        self.lines = None
        self.call_at = None         # fail the n-th entry of a causalnex function from now
        self.call_exc = None
        self.call_where = None


STEP = Stepper()


def _on_line(code, line):
    if not loader.is_sut(code.co_filename):
        return _mon.DISABLE
    st = STEP
    if not st.active:
        return None
    st.steps += 1
    if st.lines is not None:
        st.lines.add((code.co_name, line))
    if st.inject_at is not None and st.steps == st.inject_at:
        st.inject_at = None
        st.injected += 1
        st.where = "%s:%d" % (code.co_name, line)
        exc = st.inject_exc
        raise exc() if isinstance(exc, type) else exc
    if st.budget is not None and st.steps > st.budget:
        raise SimStop("step budget %d exhausted at %s:%d" % (st.budget, code.co_name, line))
    if st.scheduler is not None:
        st.scheduler.on_line(code, line)
    return None


def _on_call(code, offset):
    if not loader.is_sut(code.co_filename):
        return _mon.DISABLE
    st = STEP
    if st.active and st.call_at is not None:
        st.call_at -= 1
        if st.call_at <= 0:
            st.call_at = None
            st.call_where = code.co_qualname
            raise st.call_exc
    return None


def install_calls():
    """Let calls of causalnex functions fail (STEP.call_at, STEP.call_exc)."""
    if not _mon.get_tool(_TOOL + 1):
        _mon.use_tool_id(_TOOL + 1, "verif-calls")
        _mon.register_callback(_TOOL + 1, _mon.events.PY_START, _on_call)
        _mon.set_events(_TOOL + 1, _mon.events.PY_START)
        atexit.register(_mon.set_events, _TOOL + 1, 0)


def install_stepper():
    global _installed
    if _installed:
        return
    _mon.use_tool_id(_TOOL, "verif-sim")
    _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
    _mon.set_events(_TOOL, _mon.events.LINE)
    atexit.register(_mon.set_events, _TOOL, 0)
    _installed = True


class stepping:
    """Context manager: count causalnex lines inside, optionally with budget / injection."""

    def __init__(self, sim=None, budget=None, inject_at=None, exc=None, lines=False):
        self.sim, self.budget, self.inject_at, self.exc, self.want_lines = sim, budget, inject_at, exc, lines

    def __enter__(self):
        self.saved = (STEP.active, STEP.steps, STEP.budget, STEP.inject_at, STEP.inject_exc, STEP.injected,
                      STEP.where, STEP.lines)
        STEP.active, STEP.steps, STEP.budget = True, 0, self.budget
        STEP.inject_at, STEP.inject_exc, STEP.injected, STEP.where = self.inject_at, self.exc, 0, None
        STEP.lines = set() if self.want_lines else None
        return self

    def __exit__(self, et, ev, tb):
        self.steps = STEP.steps
        self.injected = STEP.injected
        self.where = STEP.where
        self.lines = STEP.lines
        (STEP.active, STEP.steps, STEP.budget, STEP.inject_at, STEP.inject_exc, STEP.injected,
         STEP.where, STEP.lines) = self.saved
        if self.sim is not None:
            self.sim.total_steps += self.steps
        if self.saved[0]:
            STEP.steps += self.steps
        return False


# --------------------------------------------------------------------------
# Randomness seam
# --------------------------------------------------------------------------
class SimRandom(_random.Random):
    """Replaces the ``random`` module for causalnex code.

    ``source(kind, k)`` may return a float for random() / an int for getrandbits(k),
    or None to fall through to a seeded generator.
    """

    def __init__(self, seed=0):
        self.source = None
        self.calls = 0
        super().__init__(seed)

    def random(self):
        self.calls += 1
        if self.source is not None:
            v = self.source("random", 0)
            if v is not None:
                return v
        return super().random()

    def getrandbits(self, k):
        self.calls += 1
        if self.source is not None:
            v = self.source("bits", k)
            if v is not None:
                return v & ((1 << k) - 1)
        return super().getrandbits(k)


SIMRANDOM = SimRandom(0)


def _make_random_proxy():
    m = types.ModuleType("random")
    for name in dir(_random):
        if not name.startswith("_"):
            setattr(m, name, getattr(_random, name))
    for name in ("random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices",
                 "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss",
                 "betavariate", "binomialvariate", "paretovariate", "weibullvariate", "getstate", "setstate",
                 "getrandbits", "randbytes", "seed"):
        if hasattr(SIMRANDOM, name):
            setattr(m, name, getattr(SIMRANDOM, name))

    class Random(_random.Random):
        def __new__(cls, *a):
            if not a or a[0] is None:
                return SIMRANDOM
            return super().__new__(cls)

    m.Random = Random
    m.SystemRandom = lambda *a: SIMRANDOM
    m._inst = SIMRANDOM
    return m


class SimClock:
    def __init__(self):
        self.now = 1.6e9

    def tick(self):
        self.now += 1e-3
        return self.now


CLOCK = SimClock()


def _make_time_proxy():
    import time
    m = types.ModuleType("time")
    for name in dir(time):
        if not name.startswith("_"):
            setattr(m, name, getattr(time, name))
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(m, n, CLOCK.tick)
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
        setattr(m, n, lambda: int(CLOCK.tick() * 1e9))

    def sleep(s):
        CLOCK.now += max(0.0, s)
    m.sleep = sleep
    return m


def install_seams():
    loader.install()
    loader.PROXIES["random"] = _make_random_proxy()
    loader.PROXIES["time"] = _make_time_proxy()
    from . import sched
    loader.PROXIES["threading"] = sched.make_threading_proxy()
    install_stepper()


def begin_run(sim, seed):
    simset.POLICY.reset(0, 0)
    SIMRANDOM.source = None
    SIMRANDOM.seed(seed)
    SIMRANDOM.calls = 0
    CLOCK.now = 1.6e9
    _random.seed(seed)
    STEP.__init__()
    pg = sys.modules.get("sim.stubs.minipgmpy")
    if pg is not None:
        pg.PLAN.reset()
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed(seed & 0xFFFFFFFF)


def describe(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:300])


def sut_frame(exc):
    """file:function of the innermost causalnex frame of an exception (or None)."""
    out = None
    for f, _ in traceback.walk_tb(exc.__traceback__):
        if loader.is_sut(f.f_code.co_filename):
            out = "%s:%s" % (f.f_code.co_filename.rsplit("/", 1)[-1], f.f_code.co_name)
    return out


def stub_gap(e):
    """The StubGap (missing stand-in feature) behind an exception, if any."""
    from .stubs.minipandas import StubGap
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, StubGap):
            return x
        todo += [x.__cause__, x.__context__]
    return None


def run_one(prop_run, tape, tier, run_index):
    """Execute one run.  Returns (sim, violation or None)."""
    sim = Sim(tape, tier, run_index)
    begin_run(sim, 12345)
    loader.KEEP = False
    try:
        prop_run(sim)
        if sim.inconclusive is None and sim.draw(8) == 7:
            # a second history in the same process: module and class state is what the first one left
            loader.KEEP = True
            begin_run(sim, 54321)
            sim.sched("second history")
            sim.probe("second_history")
            prop_run(sim)
        return sim, None
    except Violation as v:
        gap = stub_gap(v)
        if gap is not None:
            sim.inconclusive = str(gap)
            return sim, None
        return sim, v
    except SimStop as e:
        return sim, Violation("no-progress", str(e))
    except HarnessError:
        raise
    except RecursionError as e:
        return sim, Violation("unexpected-exception:RecursionError", describe(e))
    except MemoryError as e:
        return sim, Violation("unexpected-exception:MemoryError", describe(e))
    except (Exception, SimCrash, KeyboardInterrupt) as e:
        gap = stub_gap(e)
        if gap is not None:
            sim.inconclusive = str(gap)
            return sim, None
        where = sut_frame(e)
        if where is None:
            # raised by the check itself while interpreting what the code under test handed back
            at = traceback.extract_tb(e.__traceback__)[-1]
            return sim, Violation("malformed-result:%s" % type(e).__name__, "the check cannot interpret what causalnex returned: "
                                  "%s (%s:%d)" % (describe(e), at.filename.rsplit("/", 1)[-1], at.lineno))
        return sim, Violation("unexpected-exception:%s" % type(e).__name__, "%s at %s" % (describe(e), where))
    finally:
        loader.KEEP = False
        STEP.__init__()
