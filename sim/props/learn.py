"""Shared by C16, C17, C24: NOTEARS / DYNOTEARS under a simulated numerical solver.

``scipy.optimize.minimize`` is the seam: every solver call of the code under test is answered by the run's ``Solver``,
whose behaviour (feasible points of every kind, stalls, shrinking steps, a genuine L-BFGS-B run cut short, exceptions) is
drawn from the tape.  The solver keeps the history of what it was given and what it returned.
"""
import sys
import threading
import copy
import warnings

import numpy as np

from .. import loader, stubs
from ..core import HarnessError, InjectedError, SimCrash, SimStop, stepping

REAL = ["causalnex.structure.{notears,dynotears,transformers,structuremodel} (from /repo's working tree)", "numpy",
        "scipy.linalg", "networkx"]
STUB = ["scipy.optimize.minimize (simulated solver; part of its answers come from the genuine L-BFGS-B)",
        "pandas (minimal stand-in)", "set iteration order (SimSet)", "torch/sklearn (absent)"]
ASSUME = ["the solver honours the bounds it is given and returns finite points (L-BFGS-B does)",
          "sampled solver histories: a clean batch is evidence, not proof"]
_real = {}
_active = {}        # thread -> Solver


def _minimize(fun, x0, args=(), method=None, jac=None, bounds=None, **kw):
    s = _active.get(threading.current_thread())
    if s is None:
        raise HarnessError("solver called outside a simulated run")
    return s.call(fun, x0, args, jac, bounds)


def setup():
    stubs.install()
    import scipy.optimize as so
    if "minimize" not in _real:
        _real["minimize"] = so.minimize
        so.minimize = _minimize
        so._minimize.minimize = _minimize


def load(*extra):
    return loader.fresh("causalnex.structure.structuremodel", "causalnex.structure.notears",
                        "causalnex.structure.dynotears", *extra)


class Result(dict):
    __getattr__ = dict.__getitem__


# ---------------------------------------------------------------- decoding
class Shape:
    """How a solver vector encodes the weight matrices (own reading of the papers / docs)."""

    def __init__(self, kind, d, p=0):
        self.kind, self.d, self.p = kind, d, p
        self.size = {"plain": d * d, "lasso": 2 * d * d, "dynamic": 2 * (p + 1) * d * d}[kind]

    def decode(self, x):
        """-> (W, [A_1 .. A_p])"""
        d, q = self.d, self.d * self.d
        x = np.asarray(x, dtype=float)
        if x.shape != (self.size,):
            return None
        if self.kind == "plain":
            return x.reshape(d, d), []
        blocks = [x[k * q:(k + 1) * q].reshape(d, d) for k in range(self.size // q)]
        mats = [blocks[2 * k] - blocks[2 * k + 1] for k in range(len(blocks) // 2)]
        return mats[0], mats[1:]

    def cells(self):
        """(lag, i, j, sign) of every vector entry."""
        out = []
        d = self.d
        for b in range(self.size // (d * d)):
            for i in range(d):
                for j in range(d):
                    out.append((b // 2 if self.kind != "plain" else 0, i, j, -1 if self.kind != "plain" and b % 2 else 1))
        return out


def hval(W):
    """trace(exp(W o W)) - d, from the power series."""
    M = W * W
    T, s = np.eye(len(W)), 0.0
    for k in range(1, 400):
        T = T.dot(M) / k
        t = float(np.trace(T))
        s += t
        if k > len(W) and float(np.abs(T).sum()) <= 1e-18 * (s + 1e-300):
            break
    return s


# ---------------------------------------------------------------- solver
class Solver:
    def __init__(self, sim, shape, thr, plan, max_calls, probe=None, scale=2.0):
        self.sim, self.shape, self.thr, self.plan, self.max_calls = sim, shape, thr, plan, max_calls
        self.rng = sim.substream()
        self.history = []       # returned points, in order
        self.calls = 0
        self.probe = probe
        self.raised = None
        self.scale = scale
        self.sched = None

    def __enter__(self):
        self.thread = threading.current_thread()
        self.prev = _active.get(self.thread)
        _active[self.thread] = self
        return self

    def __exit__(self, *a):
        if self.prev is None:
            del _active[self.thread]
        else:
            _active[self.thread] = self.prev
        return False

    def call(self, fun, x0, args, jac, bounds):
        self.calls += 1
        sim = self.sim
        if self.calls > self.max_calls:
            raise SimStop("%d solver calls for max_iter=%s" % (self.calls, self.max_iter))
        x0 = np.array(x0, dtype=float).ravel()
        if bounds is None:
            lo, hi = np.full(x0.size, -np.inf), np.full(x0.size, np.inf)
        elif hasattr(bounds, "lb"):
            lo, hi = np.broadcast_to(bounds.lb, x0.shape), np.broadcast_to(bounds.ub, x0.shape)
        else:
            if len(bounds) != x0.size:
                sim.fail("solver-misused", "%d bounds for a vector of %d entries" % (len(bounds), x0.size))
            lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds], dtype=float)
            hi = np.array([np.inf if b[1] is None else b[1] for b in bounds], dtype=float)
        if (lo > hi).any():
            raise ValueError("LBFGSB - one of the lower bounds is greater than an upper bound.")  # as SciPy does
        if args:
            f = fun

            def fun(x):
                return f(x, *args)
        self.fun, self.jac, self.bounds, self.x0 = fun, jac, (lo, hi), x0
        if self.probe is not None:
            self.probe(self, fun, jac, x0, lo, hi)
        action = self.plan[min(self.calls, len(self.plan)) - 1]
        if self.sched is not None:
            self.sched.yield_now("solver")
        sim.fault("solver:" + action)
        x = getattr(self, "do_" + action)(fun, x0, jac, lo, hi, bounds)
        x = np.array(x, dtype=float)
        if not (np.all(x >= lo) and np.all(x <= hi)):
            raise HarnessError("simulated solver left its bounds")
        self.history.append(x.copy())
        sim.sched("solve", action, " ".join("%.6g" % v for v in x if v != 0) or "0")
        return Result(x=x, fun=0.0, success=self.calls % 2 == 0, status=0, message="simulated", nit=1, nfev=1, jac=x * 0)

    # -- behaviours
    def value(self):
        r = self.rng
        t = self.thr
        k = r.randrange(8)
        if k == 0 and t > 0:
            return t
        if k == 1 and t > 0:
            return float(np.nextafter(t, r.choice([0.0, 10.0])))
        if k == 2:
            return r.choice([1e-9, 1e-5, 1e-300, 0.3, 0.0])
        if k == 3 and t > 0:
            return t * r.choice([0.5, 0.999, 1.001, 1.5])
        return r.random() * self.scale

    def fill(self, x, idx, lo, hi):
        for k in idx:
            v = self.value()
            if self.rng.random() < 0.5:
                v = -v
            v = min(max(v, lo[k]), hi[k])
            if v == 0 and lo[k] < 0 < hi[k] or v == 0 and self.rng.random() < 0.7:
                v = min(max(abs(self.value()), lo[k]), hi[k])
            x[k] = v
        return x

    def zero(self, lo, hi):
        return np.clip(np.zeros(lo.size), lo, hi)

    def do_dense(self, fun, x0, jac, lo, hi, b):
        return self.fill(self.zero(lo, hi), range(lo.size), lo, hi)

    def do_sparse(self, fun, x0, jac, lo, hi, b):
        n = self.rng.randint(1, 4)
        return self.fill(self.zero(lo, hi), [self.rng.randrange(lo.size) for _ in range(n)], lo, hi)

    def do_acyclic(self, fun, x0, jac, lo, hi, b):
        if lo.size != self.shape.size:
            return self.do_sparse(fun, x0, jac, lo, hi, b)
        order = list(range(self.shape.d))
        self.rng.shuffle(order)
        pos = {v: k for k, v in enumerate(order)}
        idx = [k for k, (lag, i, j, s) in enumerate(self.shape.cells())
               if (lag or pos[i] < pos[j]) and self.rng.random() < 0.6]
        return self.fill(self.zero(lo, hi), idx, lo, hi)

    def do_nearly_acyclic(self, fun, x0, jac, lo, hi, b):
        """Acyclic plus weak back edges: h is small but positive."""
        x = self.do_acyclic(fun, x0, jac, lo, hi, b)
        eps = 10.0 ** -self.rng.randint(1, 7)
        for k in range(lo.size):
            if x[k] == 0 and self.rng.random() < 0.6:
                x[k] = min(max(self.rng.choice([-eps, eps]), lo[k]), hi[k]) or min(eps, hi[k])
        return x

    def do_stall(self, fun, x0, jac, lo, hi, b):
        return np.clip(x0, lo, hi)

    def do_repeat(self, fun, x0, jac, lo, hi, b):
        return np.clip(self.history[-1] if self.history else x0, lo, hi)

    def do_shrink(self, fun, x0, jac, lo, hi, b):
        base = self.history[-1] if self.history and np.any(self.history[-1]) else self.do_dense(fun, x0, jac, lo, hi, b)
        return np.clip(base * self.rng.choice([0.9, 0.7, 0.5, 0.1, 0.01]), lo, hi)

    def do_bounds(self, fun, x0, jac, lo, hi, b):
        """Every coordinate as extreme as its bounds allow."""
        big = self.scale
        return np.array([min(max(self.rng.choice([-big, big]), l), h) or min(max(big, l), h) for l, h in zip(lo, hi)])

    def do_genuine(self, fun, x0, jac, lo, hi, b):
        sol = _real["minimize"](fun, x0, method="L-BFGS-B", jac=jac, bounds=b,
                                options={"maxiter": self.rng.choice([1, 2, 5, 20])})
        return np.clip(sol.x, lo, hi)

    def do_converge(self, fun, x0, jac, lo, hi, b):
        sol = _real["minimize"](fun, x0, method="L-BFGS-B", jac=jac, bounds=b,
                                options={"maxiter": 3000, "ftol": 1e-14, "gtol": 1e-9})
        return np.clip(sol.x, lo, hi)

    def do_raise(self, fun, x0, jac, lo, hi, b):
        e = self.rng.choice([InjectedError, SimCrash, MemoryError, KeyboardInterrupt, FloatingPointError,
                             np.linalg.LinAlgError, ValueError])("injected solver failure")
        self.raised = e
        raise e


ACTIONS = ["dense", "sparse", "acyclic", "nearly_acyclic", "stall", "repeat", "shrink", "bounds", "genuine"]


def gen_plan(sim, max_iter, allow_raise=False):
    style = sim.draw(6)
    n = sim.between(1, 8)
    if style == 0:
        plan = [sim.pick(ACTIONS) for _ in range(n)]
    elif style == 1:
        plan = [sim.pick(ACTIONS)] + ["shrink"] * (2 * max_iter + 2)
    elif style == 2:
        plan = ["dense"] + ["stall"] * n
    elif style == 3:
        plan = [sim.pick(["dense", "bounds", "nearly_acyclic"]) for _ in range(n)] + ["acyclic"]
    elif style == 4:
        plan = [sim.pick(["acyclic", "sparse"])]
    else:
        plan = ["shrink"] * n + [sim.pick(ACTIONS)]
    if allow_raise and sim.draw(3) == 0:
        plan.insert(sim.draw(len(plan)), "raise")
    return plan


# ---------------------------------------------------------------- cases
DEFAULTS = {"max_iter": 100, "h_tol": 1e-8, "w_threshold": 0.0, "lambda_w": 0.1, "lambda_a": 0.1}


class Case:
    """One learning call: entry point, data, constraints, options and the reference reading of them."""

    def __init__(self, sim, pd, maxd=4, kinds=(0, 1, 2, 3, 4, 5)):
        self.sim = sim
        kind = sim.pick(kinds)
        self.entry = ["from_numpy", "from_numpy_lasso", "from_pandas", "from_pandas_lasso", "from_numpy_dynamic",
                      "from_pandas_dynamic"][kind]
        d = self.d = sim.between(1, maxd)
        self.dynamic = kind >= 4
        self.pandas = kind in (2, 3, 5)
        self.lasso = kind in (1, 3)
        p = self.p = sim.between(1, 2) if self.dynamic else 0
        if maxd >= 4 and sim.draw(24) == 23:        # indices of more than one digit
            if self.dynamic and sim.draw(2):
                d, p = 2, sim.pick([10, 11])
            else:
                d = sim.pick([11, 12])
            self.d, self.p = d, p
        self.shape = Shape("dynamic" if self.dynamic else "lasso" if self.lasso else "plain", d, p)
        self.n = sim.size(1, 8)
        r = sim.substream()
        rows = self.n + p
        scale = r.choice([1.0, 1.0, 3.0, 0.1])
        A = np.array([[r.gauss(0, 1) * scale for _ in range(d)] for _ in range(rows)])
        if sim.draw(4) == 0:
            A = np.round(A * 3)
        if d > 1 and sim.draw(4) == 0:
            A[:, r.randrange(d)] = A[:, r.randrange(d)] * 2        # collinear columns
        self.A = A
        style = sim.draw(4)
        self.names = [["n%d" % i for i in range(d)], ["b", "a", "d", "c", "z"][:d], list(range(d))[::-1],
                      ["x_lag1", "y_lag0", "_lag", "0", "1"][:d]][style]
        if len(self.names) < d:
            self.names = [["%d" % i for i in range(d)], ["v%d" % i for i in range(d)]][style == 3]
        if not self.pandas:
            self.names = list(range(d))
        self.max_iter = sim.pick([1, 1, 2, 3, 4, 6, 0])
        self.h_tol = sim.pick([1e-8, 1e-8, 1e-6, 1e-3, 0.5, 1e-12])
        self.thr = sim.pick([0.0, 0.3, 0.05, 0.5, 1e-6, 1.0])
        self.reg = [sim.pick([0.1, 0.0, 0.5, 1e-3]), sim.pick([0.1, 0.0, 0.3])]
        self.draw_tabu()
        self.pd = pd
        self.positional = sim.draw(2)
        self.list_of_frames = sim.draw(2)
        self.readonly = sim.draw(3) == 2
        self.as_int = sim.draw(8) == 7
        if sim.draw(24) == 23:
            self.max_iter = 100
        self.omit = sim.draw(2)             # leave out arguments that have their default value

    def draw_tabu(self):
        """Constraints, in index space."""
        sim, p, d = self.sim, self.p, self.d
        self.tabu = {}
        den = sim.pick([2, 4, 10])
        if sim.draw(3):
            cells = [(k, i, j) for k in range(p + 1) for i in range(d) for j in range(d)]
            self.tabu["tabu_edges"] = [c for c in cells if sim.chance(1, den)]
        if sim.draw(3) == 2:
            self.tabu["tabu_parent_nodes"] = [i for i in range(d) if sim.chance(1, 3)]
        if sim.draw(3) == 2:
            self.tabu["tabu_child_nodes"] = [i for i in range(d) if sim.chance(1, 3)]

    def sibling(self):
        """Another call of the same entry point on the same variables: other data, options and constraints."""
        sim = self.sim
        c = copy.copy(self)
        if sim.draw(3):
            r = sim.substream()
            c.A = np.array([[r.gauss(0, 1) for _ in row] for row in self.A])
        if sim.draw(4):
            c.draw_tabu()
        c.max_iter = sim.pick([1, 2, 0])
        c.h_tol = sim.pick([1e-8, 1e-3, 0.5])
        c.thr = sim.pick([0.0, 0.3, 1.0])
        c.reg = [sim.pick([0.1, 0.0, 0.5]), sim.pick([0.1, 0.0, 0.3])]
        c.omit = sim.draw(2)
        return c

    def allowed(self, lag, i, j):
        t = self.tabu
        if lag == 0 and i == j:
            return False
        return not ((lag, i, j) in t.get("tabu_edges", ()) or i in t.get("tabu_parent_nodes", ())
                    or j in t.get("tabu_child_nodes", ()))

    def constraint_args(self):
        out = {}
        nm = self.names
        for k, v in self.tabu.items():
            if k == "tabu_edges":
                out[k] = [((lag, nm[i], nm[j]) if self.dynamic else (nm[i], nm[j])) for lag, i, j in v]
            else:
                out[k] = [nm[i] for i in v]
        return out

    def data(self):
        A, p, n = self.A, self.p, self.n
        if self.as_int:
            A = np.round(A * 4).astype(int)
        if self.dynamic:
            X = A[p:]
            L = np.concatenate([A[p - k:len(A) - k] for k in range(1, p + 1)], axis=1)
            self.X, self.L = X.astype(float), L.astype(float)
        else:
            X = A[:n]
            self.X, self.L = X.astype(float), None
        if self.pandas:
            if self.dynamic:
                df = self.pd.DataFrame(A.copy(), columns=list(self.names), index=list(range(3, 3 + len(A))))
                return ([df] if self.list_of_frames else df,)
            return (self.pd.DataFrame(X.copy(), columns=list(self.names)),)
        out = (X.copy(), L.copy()) if self.dynamic else (X.copy(),)
        if self.readonly:
            for a in out:
                a.flags.writeable = False
        return out

    def call_args(self):
        data = self.data()
        args = list(data)
        kw = self.constraint_args()
        opts = {"max_iter": self.max_iter, "h_tol": self.h_tol, "w_threshold": self.thr}
        if self.entry == "from_pandas_dynamic":
            args.append(self.p)
        if self.dynamic:
            opts = dict(lambda_w=self.reg[0], lambda_a=self.reg[1], **opts)
        elif self.lasso:
            args.append(self.reg[0])
        if self.omit:
            given = list(opts.items())
            if self.positional:             # trailing ones only
                while given and DEFAULTS[given[-1][0]] == given[-1][1]:
                    given.pop()
            else:
                given = [(k, v) for k, v in given if DEFAULTS[k] != v]
            opts = dict(given)
        if self.positional:
            args += list(opts.values())
        else:
            kw.update(opts)
        return data, args, kw

    def node(self, lag, i):
        return "%s_lag%d" % (self.names[i], lag) if self.dynamic else self.names[i]

    def nodes(self):
        return [self.node(k, i) for k in range(self.p + 1) for i in range(self.d)]

    def describe(self):
        return "%s d=%d p=%d n=%d max_iter=%d h_tol=%g thr=%g reg=%s tabu=%s names=%s" % (
            self.entry, self.d, self.p, self.n, self.max_iter, self.h_tol, self.thr, self.reg, self.tabu, self.names)

    def expected(self, x):
        """Edges that the solver's final point must lead to: {(u, v): weight}."""
        dec = self.shape.decode(x)
        if dec is None:
            return None
        out = {}
        for lag, M in enumerate([dec[0]] + dec[1]):
            for i in range(self.d):
                for j in range(self.d):
                    w = M[i, j]
                    keep = abs(w) > self.thr if self.shape.kind == "plain" else abs(w) >= self.thr
                    if w != 0 and keep:
                        out[(self.node(lag, i), self.node(0, j))] = float(w)
        return out

    def W(self, x):
        return self.shape.decode(x)[0]


def snap(x):
    """Comparable value of caller data."""
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, repr(x.tolist()) if x.dtype == object else x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, snap(v)) for k, v in x.items())
    if hasattr(x, "columns"):
        return ("df", tuple(x.columns), tuple(x.index), snap(np.asarray(x.values)))
    return repr(x)


class Outcome:
    pass


def perform(sim, mods, case, solver, strict_warn=False):
    """Run the real entry point once.  Returns Outcome(graph / error, warned, unchanged)."""
    S, N, D = mods[:3]
    fn = getattr(D if case.dynamic else N, case.entry)
    data, args, kw = case.call_args()
    before = snap([args, kw])
    o = Outcome()
    o.graph = o.error = None
    solver.max_iter = case.max_iter
    with warnings.catch_warnings(record=True) as ws, solver:
        warnings.simplefilter("error" if strict_warn else "always")
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        warnings.filterwarnings("ignore", category=RuntimeWarning)
        try:
            o.graph = fn(*args, **kw)
        except SimStop:
            raise
        except BaseException as e:
            o.error = e
    o.warned = sum("converge" in str(w.message) for w in ws)
    o.unchanged = snap([args, kw]) == before
    sim.units[case.entry] += 1
    return o


def earlier(sim, mods, case):
    """Now and then the entry point was called before, with other arguments (and perhaps failed): (case, solver, outcome)."""
    if sim.draw(6) != 5:
        return None
    prev = case.sibling()
    plan = gen_plan(sim, prev.max_iter)
    solver = Solver(sim, prev.shape, prev.thr, plan, budget(prev))
    sim.note("earlier call", prev.describe(), "plan", plan)
    o = perform(sim, mods, prev, solver)
    if o.error is not None:
        raise o.error
    sim.probe("earlier_call")
    return prev, solver, o


def budget(case):
    return 30 * (case.max_iter + 1)
