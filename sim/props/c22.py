"""C22: lagged data never spans a gap in the observed stream."""
import numpy as np

from .. import loader, sched, stubs
from ..core import HarnessError, InjectedError, SimCrash, Violation, stepping, stub_gap
from . import learn as L

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of a measured stream with lost, repeated, reordered and split samples, interruptions and "
        "concurrent calls; each output row is matched with the windows of the fault-free ground truth")
NOTE = "transformers.py is real; pandas and scikit-learn base classes are stand-ins."
RUNS = {"quick": 8000, "thorough": 300000}
RULE = ("one run = 1-4 realisations of a process with uniquely numbered samples, delivered with losses, repeats and splits, "
        "then a history of fit / transform / rejected / interrupted calls on one transformer; non-trivial = some sample was "
        "lost or repeated and some window survived, or a call was rejected; distinct = distinct delivered index patterns")
REAL = ["causalnex.structure.transformers (from /repo's working tree)", "numpy"]
STUB = ["pandas and sklearn.base (minimal stand-ins)", "measurement stream (simulated)", "torch (absent)"]
ASSUMPTIONS = ["p >= 1", "re-fitting one transformer on other columns is not exercised",
               "sampled histories: a clean batch is evidence, not proof"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]
setup = L.setup


class Stream:
    """Delivers uniquely numbered samples; loses, repeats and splits them."""

    def __init__(self, sim, cols, kind):
        self.sim, self.cols, self.kind, self.next = sim, cols, kind, 1
        self.longer = 0

    def values(self):
        out = {}
        for c in self.cols:
            out[c] = 2 ** 40 + self.next if self.kind[c] == "int" else self.next / 7
            self.next += 1
        return out

    def realisation(self):
        sim = self.sim
        n = sim.size(1, 12) + self.longer
        t0 = sim.pick([0, 1, -3, 100])
        loss = sim.pick([0, 0, 6, 3, 2])
        dup = sim.pick([0, 0, 0, 6])
        rows = []
        for k in range(n):
            if loss and sim.chance(1, loss):
                sim.fault("sample_lost")
                continue
            rows.append((t0 + k, self.values()))
            if dup and sim.chance(1, dup):
                sim.fault("sample_repeated")
                rows.append((t0 + k, self.values() if sim.draw(2) else rows[-1][1]))
        if not rows:
            rows.append((t0, self.values()))
        # split into several delivered frames
        frames, cur = [], []
        split = sim.pick([0, 0, 4])
        for r in rows:
            if cur and split and sim.chance(1, split):
                sim.fault("stream_split")
                frames.append(cur)
                cur = []
            cur.append(r)
        frames.append(cur)
        return frames


def windows(frames, cols, p):
    """Reference: every (t, t-1, ..., t-p) made of consecutive steps of one frame, in order."""
    out = []
    for rows in frames:
        for k in range(p, len(rows)):
            w = rows[k - p:k + 1]
            if all(w[i + 1][0] - w[i][0] == 1 for i in range(p)):
                out.append([float(w[p - lag][1][c]) for lag in range(p + 1) for c in cols])
    return out


def frame(sim, pd, rows, cols, kind):
    data = {c: np.array([v[c] for _, v in rows], dtype=np.int64 if kind[c] == "int" else float) for c in cols}
    return pd.DataFrame(data, index=pd.Index([t for t, _ in rows], dtype=np.int64), columns=list(cols))


def run(sim):
    import pandas as pd
    T = loader.fresh("causalnex.structure.transformers")
    sim.choose_set_order()
    d = sim.between(1, 4)
    cols = sim.pick([["a", "b", "c", "d"], ["z", "a", "m", "b"], ["x_lag1", "lag0", "y", "_"], [3, 1, 2, 0]])[:d]
    cols = sim.shuffled(cols)
    kinds = [sim.pick(["float", "int"]) for _ in range(d)]
    if sim.draw(2):
        kinds = [kinds[0]] * d
    kind = dict(zip(cols, kinds))
    st = Stream(sim, cols, kind)
    p = sim.between(1, 4)
    if sim.draw(10) == 9:       # lags of more than one digit
        p = sim.pick([9, 10, 11])
        st.longer = 10
    tr = T.DynamicDataTransformer(p=p)
    if sim.draw(6) == 5:
        fs = [frame(sim, pd, r, cols, kind) for r in st.realisation()]
        try:
            tr.transform(fs)
        except Exception as e:
            if type(e).__name__ != "NotFittedError":
                raise
        else:
            sim.fail("unfitted-transform", "transform before fit returned a result")
    fitted = False
    return_df = True
    for step in range(sim.between(1, 4)):
        rows = [f for _ in range(sim.between(1, 3)) for f in st.realisation()]
        # at transform the columns may come in another order
        order = sim.shuffled(cols) if fitted and sim.draw(3) == 2 else list(cols)
        fs = [frame(sim, pd, r, order, kind) for r in rows]
        arg = fs[0] if len(fs) == 1 and sim.draw(2) else fs
        pattern = [[t for t, _ in r] for r in rows]
        where = "p=%d step %d index patterns %r" % (p, step, pattern)
        sim.sched("frames", p, pattern, order)
        if sim.run_index % 50 == 0 and sim.sample is None:
            sim.sample = {"p": p, "columns": [str(c) for c in cols], "index": pattern}
        what = sim.pick(["fit_transform", "fit_then_transform", "transform"] if fitted
                        else ["fit_transform", "fit_then_transform"])
        if order != cols:
            what = "transform"
        if what != "transform":
            return_df = bool(sim.draw(2))
        if sim.draw(4) == 3:
            reject(sim, pd, tr, fs, cols, kind, fitted, where)
        before = L.snap(fs)

        # a data frame is the default
        kw = {} if return_df and sim.draw(3) == 2 else {"return_df": return_df}

        def call():
            if what == "fit_transform":
                return tr.fit_transform(arg, **kw)
            if what == "fit_then_transform":
                tr.fit(arg, **kw)
            return tr.transform(arg)
        for _ in range(sim.pick([0, 0, 0, 1, 2])):
            at, exc = 1 + sim.draw(60), sim.pick(EXCS)("injected")
            try:
                with stepping(sim, inject_at=at, exc=exc) as s:
                    call()
            except BaseException as e:
                if e is not exc:
                    raise
                sim.fault("async_exception:" + type(exc).__name__)
                sim.sched("interrupted at", s.where)
        if what == "transform" and sim.draw(6) == 5:
            out = concurrent(sim, pd, tr, st, cols, kind, p, return_df, call, where)
        else:
            with stepping(sim, budget=1_000_000):
                out = call()
        fitted = True
        judge(sim, pd, out, windows(rows, cols, p), cols, p, return_df, where + " " + what)
        sim.check(L.snap(fs) == before, "input-changed", "%s: the caller's frames were changed" % where)
        sim.units[what] += 1


def judge(sim, pd, out, want, cols, p, return_df, where):
    d = len(cols)
    if return_df:
        sim.check(hasattr(out, "columns"), "wrong-result", "%s: %r is not a frame" % (where, type(out)))
        names = ["%s_lag%d" % (c, lag) for lag in range(p + 1) for c in cols]
        sim.check(list(out.columns) == names, "wrong-columns", lambda: "%s: columns %r" % (where, list(out.columns)))
        got = np.asarray(out.values, dtype=float)
    else:
        sim.check(isinstance(out, tuple) and len(out) == 2, "wrong-result", "%s: %r is not a pair" % (where, type(out)))
        X, Xl = out
        sim.check(X.shape[1:] == (d,) and Xl.shape == (len(X), d * p), "wrong-shape",
                  lambda: "%s: shapes %r %r" % (where, X.shape, Xl.shape))
        got = np.concatenate([np.asarray(X, dtype=float), np.asarray(Xl, dtype=float)], axis=1)
    got = [list(map(float, r)) for r in got]
    if got != want:
        ok = {tuple(w) for w in want}
        extra = [r for r in got if tuple(r) not in ok]
        if extra:
            sim.fail("window-spans-a-gap", "%s: row %r is no window of consecutive samples" % (where, extra[0]))
        if len(got) == len(want) and sorted(got) == sorted(want):
            sim.fail("windows-out-of-order", "%s: got %r expected %r" % (where, got, want))
        sim.fail("windows-lost-or-repeated", "%s: %d rows, expected %d" % (where, len(got), len(want)))
    if want and (sim.faults["sample_lost"] or sim.faults["sample_repeated"]):
        sim.nontrivial = True
    sim.probe("windows", len(want))


def reject(sim, pd, tr, fs, cols, kind, fitted, where):
    """Bad input is rejected and leaves a fitted transformer as it was."""
    bad = list(fs)
    k = sim.draw(len(bad))
    f = bad[k]
    rows = list(f.index)
    what = sim.pick(["unsorted", "text", "float_index", "columns", "dtypes", "not_a_frame", "empty", "missing"])
    if what == "unsorted":
        if len(set(rows)) < 2:
            return
        g = f.copy()
        idx = list(rows)
        i, j = [(i, j) for i in range(len(idx)) for j in range(i) if idx[i] != idx[j]][0]
        idx[i], idx[j] = idx[j], idx[i]
        g.index = pd.Index(idx, dtype=np.int64)
        bad[k] = g
    elif what == "text":
        g = f.copy()
        g[cols[0]] = ["s%d" % i for i in range(len(g))]
        bad[k] = g
    elif what == "float_index":
        g = f.copy()
        g.index = pd.Index([float(t) for t in rows], dtype=float)
        bad[k] = g
    elif what == "columns":
        g = pd.DataFrame(np.array(f.values), columns=["other%d" % i for i in range(len(f.columns))], index=f.index)
        bad = [f, g]
    elif what == "dtypes":
        c = cols[0]
        g = f.copy()
        g[c] = np.array(f[c].values, dtype=float if kind[c] == "int" else np.int64)
        bad = [f, g]
    elif what == "not_a_frame":
        bad = [f, np.array(f.values)] if sim.draw(2) else [np.array(f.values)]
    elif what == "missing":
        if not fitted or len(cols) < 2:
            return
        bad = [pd.DataFrame(np.array(f.values)[:, 1:], columns=list(f.columns)[1:], index=f.index)]
    else:
        bad = []
    sim.sched("reject", what)
    sim.fault("bad_input:" + what)
    sim.nontrivial = True
    call = tr.transform if fitted and (what == "missing" or sim.draw(2)) else tr.fit
    try:
        call(bad)
    except (ValueError, TypeError) as e:
        if stub_gap(e) is not None:
            raise
        return
    sim.fail("accepted-bad-input", "%s: %s accepted input with %s" % (where, call.__name__, what))


def concurrent(sim, pd, tr, st, cols, kind, p, return_df, call, where):
    """Two more threads transform other streams with the same fitted transformer meanwhile."""
    s = sched.Scheduler(sim, sim.pick([(1, 2, 3, 5), (5, 20, 60)]))
    res = {}

    def client(name, f):
        def body():
            res[name] = f()
        return body
    s.spawn("main", client("main", call))
    others = {}
    for k in range(sim.between(1, 2)):
        rows = st.realisation()
        others["o%d" % k] = rows
        fs = [frame(sim, pd, r, cols, kind) for r in rows]
        s.spawn("o%d" % k, client("o%d" % k, lambda fs=fs: tr.transform(fs)))
    s.run()
    for c in s.clients:
        if c.error is not None:
            if isinstance(c.error, (Violation, HarnessError)):
                raise c.error
            raise Violation("exception-in-client:%s" % type(c.error).__name__, "%s: %r" % (c.name, c.error)) from c.error
    for name, rows in others.items():
        judge(sim, pd, res[name], windows(rows, cols, p), cols, p, return_df, where + " concurrent " + name)
    sim.fault("thread_switch", s.switches)
    return res["main"]
