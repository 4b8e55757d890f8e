"""C32: a Discretiser answers from its last completed fit, whatever failed before or runs around it."""
import copy
from fractions import Fraction

from .. import loader, sched, stubs
from ..core import HarnessError, InjectedError, SimCrash, SimStop, Violation, stepping
from .c06 import caused_by
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of fit/transform histories over several discretisers: refused and interrupted fits, threads "
        "switched at executed lines; each history must be a linearisation of a reference register of exact split points")
NOTE = "causalnex.discretiser and numpy are real; sklearn.base is a stand-in (get_params, fit_transform)."
RUNS = {"quick": 10000, "thorough": 300000}
RULE = ("one run = 1-3 discretisers (every method, drawn parameters) and 2-7 steps: fit, transform, fit_transform, a refused "
        "constructor or fit, a fit or transform interrupted at a chosen line, 2-3 threads fitting and transforming the same "
        "object, a copied object; buckets are compared with split points computed in rationals; non-trivial = a second fit, "
        "an interrupted fit or an overlapping pair; distinct = distinct history")
REAL = ["causalnex.discretiser (from /repo's working tree)", "numpy"]
STUB = ["sklearn.base", "thread scheduler", "asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = ["quantiles are numpy's default (linear interpolation between order statistics)",
               "values within rounding of a split point that is not exact in floats may fall on either side",
               "switch points and asynchronous exceptions are at line boundaries of causalnex code",
               "sampled histories and faults: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
METHODS = ["uniform", "quantile", "outlier", "fixed", "percentiles"]
TOL = Fraction(1, 10 ** 9)


def setup():
    stubs.install()


def run(sim):
    D = loader.fresh("causalnex.discretiser")
    sim.choose_set_order()
    sim.kept = []
    objs = [Obj(sim, D) for _ in range(sim.between(1, 3))]
    sim.note("objects", [(o.method, o.args) for o in objs])
    if sim.run_index % 50 == 0:
        sim.sample = {"objects": str([(o.method, o.args) for o in objs])}
    for step in range(sim.between(2, 7)):
        where = "step %d" % step
        objs = [o for o in objs if not o.dead] or [Obj(sim, D)]
        kind = sim.draw(10)
        o = sim.pick(objs)
        sim.sched("step", kind, o.method)
        if kind == 0:
            constructor(sim, D, where)
        elif kind == 1:
            refused(sim, o, where)
        elif kind in (2, 3):
            interrupted(sim, o, where)
        elif kind in (4, 5):
            together(sim, o, where)
        elif kind == 6:
            objs.append(o.twin(copy.deepcopy(o.d)))
        elif kind == 7:
            fit(sim, o, where, both=True)
        elif kind == 8 or o.split is None:
            fit(sim, o, where)
        for p in objs:
            if not p.dead:
                transform(sim, p, where)


class Obj:
    def __init__(self, sim, D):
        self.method = sim.pick(METHODS)
        a = {}
        if self.method in ("uniform", "quantile"):
            a["num_buckets"] = sim.between(1, 8) if sim.draw(5) else 20
        elif self.method == "outlier":
            a["outlier_percentile"] = sim.pick([0.0, 0.25, 0.125, 0.1, 0.3, 0.01, 0.49, 0.45])
        elif self.method == "fixed":
            a["numeric_split_points"] = sorted(number(sim) for _ in range(sim.draw(6)))
        else:
            a["percentile_split_points"] = sorted(sim.pick([0, 1, 0.5, 0.25, 0.75, 0.1, 0.9, 0.33, 0.0, 1.0])
                                                  for _ in range(sim.draw(5)))
        self.args = copy.deepcopy(a)
        if self.method == "uniform" and sim.draw(2):
            self.d = D.Discretiser(**a)
        else:
            self.d = D.Discretiser(method=self.method, **a)
        self.split = None
        if self.method == "fixed":
            self.split = [(Fraction(p), 0) for p in a["numeric_split_points"]]
        self.fits = 0
        self.dead = False

    def twin(self, d):
        t = copy.copy(self)
        t.d = d
        return t

    def points(self, data):
        """Split points by the documented definition: (rational, tolerance of the float computation)."""
        xs = sorted(Fraction(v) for v in data.ravel().tolist())
        tol = max(map(abs, xs), default=0) + 1
        tol *= Fraction(1, 10 ** 5) if str(data.dtype) == "float32" else TOL
        small = all(x.denominator <= 64 and abs(x) < 10 ** 4 for x in xs)
        if self.method == "uniform":
            n = self.args["num_buckets"]
            lo, hi = xs[0], xs[-1]
            w = (hi - lo) / n
            return [(lo + w * (k + 1), 0 if small and pow2(w.denominator) else tol) for k in range(n - 1)]
        if self.method == "quantile":
            n = self.args["num_buckets"]
            qs = [(Fraction(k + 1, n), pow2(n)) for k in range(n - 1)]
        elif self.method == "outlier":
            q = self.args["outlier_percentile"]
            qs = [(Fraction(q), pow2(Fraction(q).denominator)), (1 - Fraction(q), pow2(Fraction(q).denominator))]
        else:
            qs = [(Fraction(q), pow2(Fraction(q).denominator)) for q in self.args["percentile_split_points"]]
        out = []
        for q, exact in qs:
            at = q * (len(xs) - 1)
            i = min(int(at), len(xs) - 1)
            j = min(i + 1, len(xs) - 1)
            out.append((xs[i] + (xs[j] - xs[i]) * (at - i), 0 if exact and small else tol))
        return out


def pow2(n, most=1 << 8):
    return n & (n - 1) == 0 and n <= most


def number(sim):
    k = sim.draw(4)
    if k == 0:
        return sim.between(-6, 6)
    if k == 1:
        return sim.between(-40, 40) / 4.0
    if k == 2:
        return sim.between(-10 ** 6, 10 ** 6) / 1000.0
    return float(sim.between(0, 3))


def array(sim, o=None, n=None, change=True):
    """An array of one of the shapes and types users pass; sometimes an earlier one, with or without other values in it."""
    if n is None and sim.kept and sim.draw(4) == 3:
        a = sim.pick(sim.kept)
        if change and a.flags.writeable and sim.draw(3):
            a[...] = invent(sim, o, a.size).reshape(-1)[:a.size].reshape(a.shape)
        sim.probe("array_again")
        return a
    sim.kept.append(invent(sim, o, n))
    return sim.kept[-1]


def invent(sim, o=None, n=None):
    import numpy as np
    n = sim.size(1, 12) if n is None else n
    kind = sim.draw(3)
    vals = [number(sim) for _ in range(n)]
    if sim.draw(4) == 3:
        vals = [vals[0]] * n
    if o is not None and o.split:                       # land on and next to the split points
        for i in range(n):
            if sim.draw(3) == 2:
                p = float(o.split[sim.draw(len(o.split))][0])
                vals[i] = [p, p, float(np.nextafter(p, 1e9)), float(np.nextafter(p, -1e9))][sim.draw(4)]
    if kind == 0:
        vals = [int(v) for v in vals]
    a = np.array(vals)
    if kind == 2 and sim.draw(2):
        a = a.astype(np.float32)
    shape = sim.draw(5)
    if shape == 1:
        a = a.reshape(-1, 1)
    elif shape == 2 and n % 2 == 0:
        a = a.reshape(2, -1)
    elif shape == 3:
        a = np.repeat(a, 2)[::2]
    elif shape == 4 and n % 2 == 0:
        a = np.asfortranarray(a.reshape(-1, 2))
    if sim.draw(4) == 3:
        a.setflags(write=False)
    return a


def snap(a):
    return (a.shape, str(a.dtype), a.tolist(), a.flags.writeable)


def bucket(split, v):
    """Admissible bucket numbers of one value: how many split points it has reached."""
    x = Fraction(v)
    lo = hi = 0
    for p, tol in split:
        lo += x >= p + tol
        hi += x >= p - tol
    return lo, hi


def fits_split(split, data, out):
    return all(lo <= int(b) <= hi for v, b in zip(data.ravel().tolist(), out.ravel().tolist())
               for lo, hi in [bucket(split, v)])


def judge(sim, o, data, out, where):
    sim.check(out.shape == data.shape, "wrong-shape", lambda: "%s: shape %r for %r" % (where, out.shape, data.shape))
    for v, b in zip(data.ravel().tolist(), out.ravel().tolist()):
        lo, hi = bucket(o.split, v)
        sim.check(lo <= b <= hi and int(b) == b, "wrong-bucket",
                  lambda: "%s: %s%r puts %r in bucket %r, expected %r (split points %r)" % (
                      where, o.method, o.args, v, b, lo if lo == hi else (lo, hi), [float(p) for p, _ in o.split]))
        sim.units["values"] += 1


def transform(sim, o, where):
    if o.split is None:
        if sim.draw(3):
            return
        data = array(sim, o)
        try:
            with stepping(sim, budget=QUERY_BUDGET):
                out = o.d.transform(data)
        except (SimStop, Violation):
            raise
        except Exception:
            sim.probe("not_fitted")
            return
        sim.fail("answer-without-fit", "%s: transform before any fit returned %r" % (where, out))
    data = array(sim, o)
    before = snap(data)
    with stepping(sim, budget=QUERY_BUDGET):
        out = o.d.transform(data)
    sim.check(snap(data) == before, "data-changed", lambda: "%s: transform turned %r into %r" % (where, before, snap(data)))
    judge(sim, o, data, out, where + " transform")


def fit(sim, o, where, both=False):
    data = array(sim, o if sim.draw(2) else None)
    before = snap(data)
    fixed = o.method == "fixed"
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            out = o.d.fit_transform(data) if both else o.d.fit(data)
    except RuntimeError as e:
        if not fixed or isinstance(e, (RecursionError, NotImplementedError)):
            raise
        sim.fault("invalid_input")
        return
    sim.check(not fixed, "invalid-input-accepted", "%s: fit with method='fixed' was accepted" % where)
    sim.check(snap(data) == before, "data-changed", lambda: "%s: fit turned %r into %r" % (where, before, snap(data)))
    o.split = o.points(data)
    sim.note("fit", o.method, o.args, data.tolist())
    if both:
        judge(sim, o, data, out, where + " fit_transform")
    else:
        sim.check(out is o.d, "wrong-return", "%s: fit did not return the discretiser" % where)
    o.fits += 1
    sim.nontrivial = sim.nontrivial or o.fits > 1
    sim.units["fits"] += 1


def constructor(sim, D, where):
    bad = [dict(method="nope"), dict(method="uniform"), dict(method="quantile"), dict(method="outlier"), dict(method="fixed"),
           dict(method="percentiles"), dict(method="outlier", outlier_percentile=0.5),
           dict(method="outlier", outlier_percentile=-0.01), dict(method="outlier", outlier_percentile=0.9),
           dict(method="fixed", numeric_split_points=[2, 1]), dict(method="fixed", numeric_split_points=[0, 5, 3, 9]),
           dict(method="percentiles", percentile_split_points=[0.2, 1.01]),
           dict(method="percentiles", percentile_split_points=[-0.1, 0.5]),
           dict(method="percentiles", percentile_split_points=[0.5, 0.4]), dict(method="Uniform", num_buckets=3)]
    kw = sim.pick(bad)
    sim.fault("invalid_input")
    try:
        D.Discretiser(**kw)
    except ValueError:
        return
    sim.fail("invalid-input-accepted", "%s: Discretiser(%r) was accepted" % (where, kw))


def refused(sim, o, where):
    """fit on something it cannot learn from: the discretiser keeps answering from the last completed fit."""
    import numpy as np
    bad = sim.pick([np.array([]), np.array(["a", "b"]), [1, 2, 3], None, np.array([{}, {}], dtype=object)])
    if o.method == "fixed":
        bad = array(sim)
    sim.fault("invalid_input")
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            o.d.fit(bad)
    except (SimStop, Violation):
        raise
    except Exception:
        return
    if o.method == "fixed":
        sim.fail("invalid-input-accepted", "%s: fit with method='fixed' was accepted" % where)
    o.dead = True               # no documented outcome: this object is not asked again


def interrupted(sim, o, where):
    data = array(sim, o)
    before = snap(data)
    which = sim.draw(4) if o.split is not None else 0
    call = o.d.transform if which == 3 else o.d.fit
    at, exc = 1 + sim.draw(12), sim.pick(EXCS)("injected")
    err = None
    try:
        with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as st:
            call(data)
    except (SimStop, Violation):
        raise
    except BaseException as e:
        err = e
    sim.check(snap(data) == before, "data-changed", "%s: an interrupted call changed its data" % where)
    if st.injected:
        sim.sched("interrupted at", st.where)
        sim.fault("async_exception:" + type(exc).__name__)
        sim.check(err is not None, "failure-swallowed", "%s: %r at %s vanished" % (where, exc, st.where))
        if err is not exc and not caused_by(err, exc):
            raise err
    elif err is not None:
        if not (o.method == "fixed" and which != 3 and isinstance(err, RuntimeError)):
            raise err
        return
    if which == 3 or o.method == "fixed":
        return
    new = o.points(data)
    if err is None:
        o.split, o.fits = new, o.fits + 1
        return
    sim.nontrivial = True
    # it took effect or it did not: one probe decides, every later answer must agree
    probe = array(sim, o, 12)
    try:
        out = o.d.transform(probe)
    except (SimStop, Violation):
        raise
    except Exception as e:
        sim.check(o.split is None, "wrong-bucket", lambda: "%s: transform fails after an interrupted fit: %r" % (where, e))
        return
    cands = [s for s in (o.split, new) if s is not None]
    good = [s for s in cands if out.shape == probe.shape and fits_split(s, probe, out)]
    sim.check(good, "wrong-bucket", lambda: "%s: after a fit interrupted at %s, %r becomes %r: neither the old nor the new "
              "split points" % (where, st.where, probe.tolist(), out.tolist()))
    settle(sim, o, good, where)


def settle(sim, o, good, where):
    """Which of the candidate fits is in force?  Ask at the split points that tell them apart."""
    import numpy as np
    if len(good) == 2:
        pts = sorted({float(p) for s in good for p, _ in s})
        ask = np.array([p - 1 for p in pts] + pts + [p + 1 for p in pts] + [(a + b) / 2 for a, b in zip(pts, pts[1:])] or [0.0])
        out = o.d.transform(ask)
        good = [s for s in good if fits_split(s, ask, out)]
        sim.check(good, "wrong-bucket", lambda: "%s: %r becomes %r: neither the old nor the new split points" % (
            where, ask.tolist(), out.tolist()))
    o.split = good[0]


def together(sim, o, where):
    """Concurrent fits and transforms of one object: the history must have a sequential explanation."""
    s = sched.Scheduler(sim, [(1, 2, 3, 5), (1, 1, 2), (2, 6, 12)][sim.draw(3)])
    history, clock, shared = [], [0], array(sim, o)

    def client(jobs):
        def body():
            for kind, data in jobs:
                rec = {"kind": kind, "data": data, "start": tick(clock), "out": None, "err": None}
                history.append(rec)
                try:
                    rec["out"] = o.d.fit(data) if kind == "fit" else o.d.transform(data)
                except Exception as e:
                    rec["err"] = e
                rec["end"] = tick(clock)
        return body
    jobs_all, total = [], 0
    for k in range(sim.between(2, 3)):
        jobs = [("fit" if o.method != "fixed" and sim.draw(2) else "transform", shared if sim.draw(3) == 2 else array(sim, o, 6))
                for _ in range(sim.between(1, 2))]
        if o.split is None and not any(j[0] == "fit" for j in jobs_all + jobs):
            jobs[0] = ("fit", jobs[0][1]) if o.method != "fixed" else jobs[0]
        jobs_all += jobs
        total += len(jobs)
        s.spawn("c%d" % k, client(jobs))
    snaps = [(d, snap(d)) for _, d in jobs_all]
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %s: %r" % (where, c.name, c.error)) from c.error
    sim.check(len(history) == total and all("end" in r for r in history), "lost-operation", "%s: a call did not return" % where)
    for d, before in snaps:
        sim.check(snap(d) == before, "data-changed", "%s: data changed by concurrent calls" % where)
    for r in history:
        if r["kind"] == "fit":
            if r["err"] is not None:
                raise r["err"]
            r["new"] = o.points(r["data"])
        elif r["err"] is None:
            sim.check(r["out"].shape == r["data"].shape, "wrong-shape", "%s: shape %r" % (where, r["out"].shape))
    sim.fault("thread_switch", s.switches)
    if any(a is not b and a["start"] < b["end"] and b["start"] < a["end"] for a in history for b in history):
        sim.probe("overlapping_histories")
        sim.nontrivial = True
    finals = linearise(history, o.split)
    sim.check(finals, "not-linearisable", lambda: "%s: no order of %r explains the answers (%s%r)" % (
        where, [(r["kind"], r["data"].tolist(), r["start"], r["end"],
                 None if r["kind"] == "fit" else (r["out"].tolist() if r["err"] is None else repr(r["err"]))) for r in history],
        o.method, o.args))
    finals = [f for f in finals if f is not None]
    if finals:
        settle_many(sim, o, finals, where)


def settle_many(sim, o, finals, where):
    import numpy as np
    pts = sorted({float(p) for s in finals for p, _ in s})
    ask = np.array([p - 1 for p in pts] + pts + [p + 1 for p in pts] + [(a + b) / 2 for a, b in zip(pts, pts[1:])] or [0.0])
    out = o.d.transform(ask)
    good = [s for s in finals if fits_split(s, ask, out)]
    sim.check(good, "wrong-bucket", lambda: "%s: after concurrent fits %r becomes %r, which no fit explains" % (
        where, ask.tolist(), out.tolist()))
    o.split, o.fits = good[0], o.fits + 1


def tick(clock):
    clock[0] += 1
    return clock[0]


def linearise(history, state):
    """Final states of all sequential orders that respect real time and explain every answer."""
    finals, seen = [], set()

    def go(left, state):
        key = (tuple(left), id(state))
        if key in seen:
            return
        seen.add(key)
        if not left:
            if not any(f is state for f in finals):
                finals.append(state)
            return
        for i in left:
            r = history[i]
            if any(history[j]["end"] < r["start"] for j in left if j != i):
                continue
            rest = [j for j in left if j != i]
            if r["kind"] == "fit":
                go(rest, r["new"])
            elif r["err"] is not None:
                if state is None:
                    go(rest, state)
            elif state is not None and fits_split(state, r["data"], r["out"]):
                go(rest, state)
    go(list(range(len(history))), state)
    return finals
