"""Shared by C27-C29: the PyTorch NOTEARS learner under a simulated solver, on a stand-in tensor library.

The reference model here is an independent float64 reading of the documented network: one (bias-)linear layer whose weights
are the graph, optional locally connected hidden layers behind a sigmoid and a layer normalisation, one loss per data type.
"""
import logging
import math
import warnings

import numpy as np

from .. import loader, stubs
from ..core import SimStop
from ..stubs import minitorch as T
from . import learn as L

REAL = ["causalnex.structure.pytorch (core, notears, nonlinear, dist_type, sklearn), causalnex.structure.structuremodel (from "
        "/repo's working tree)", "numpy", "networkx"]
STUB = ["scipy.optimize.minimize (simulated solver; part of its answers come from the genuine L-BFGS-B)",
        "torch (stand-in: float32 tensors with reverse-mode differentiation over numpy; random initial weights and "
        "uninitialised memory are seams)", "scikit-learn (stand-in: encoders, scaler, input checks)", "pandas (stand-in)",
        "set iteration order (SimSet)"]
ASSUME = ["torch, scikit-learn and pandas are absent here: the stand-ins follow their documented behaviour for what causalnex "
          "uses (the repository's own tests of these modules pass on them, see DESIGN.md)",
          "the solver honours the bounds it is given and returns finite points (L-BFGS-B does)",
          "float32 results are compared within float32 rounding", "sampled histories: a clean batch is evidence, not proof"]
TYPES = ["cont", "bin", "cat", "ord", "poiss"]


def setup():
    L.setup()
    stubs.install(torch=True)


def load(*extra):
    return loader.fresh("causalnex.structure.structuremodel", "causalnex.structure.pytorch.notears",
                        "causalnex.structure.pytorch.dist_type", *extra)


def seams(sim):
    """Random initial weights and the contents of uninitialised memory."""
    r = sim.substream()
    style = sim.draw(4)

    def uniform(shape, lo, hi):
        n = int(np.prod(shape, dtype=int))
        if style == 1:
            v = [r.choice([lo, hi]) for _ in range(n)]
        else:
            v = [lo + (hi - lo) * r.random() for _ in range(n)]
        return np.array(v, dtype=float).reshape(shape)

    def garbage(shape):
        return np.full(shape, r.choice([0.0, np.nan, 1e30, -7.5]))
    T.SEAM.uniform, T.SEAM.garbage = uniform, garbage
    sim.fault("uninitialised_memory")


def column(r, kind, n, wild=True):
    if kind == "cont":
        s = r.choice([1.0, 1.0, 2.0, 0.3])
        return [round(r.gauss(0, 1) * s, 3) for _ in range(n)]
    if kind == "bin":
        return [float(r.random() < 0.5) for _ in range(n)]
    if kind == "poiss":
        return [float(r.randrange(4)) for _ in range(n)]
    values = r.choice([[0, 1], [0, 1, 2], [3, 1, 7], [2, 5], [0, 1, 2, 3]]) if wild else [0, 1, 2]
    out = [float(r.choice(values)) for _ in range(n)]
    if n >= 2 and len(set(out)) < 2:            # at least two classes
        out[0], out[1] = float(values[0]), float(values[1])
    return out


def sigmoid(x):
    return 1.0 / (1.0 + np.exp(-np.clip(x, -500, 500)))


class Params:
    pass


class Model:
    """Reference reading of one learning problem: column types in schema order and the training matrix A (n x d)."""

    def __init__(self, A, types, order, hidden, use_bias, lasso=0.0, ridge=0.0, clamp=1e-2):
        self.A = np.array(A, dtype=float)
        self.d = self.A.shape[1]
        self.types, self.order = list(types), list(order)
        self.hidden = [h for h in (hidden or []) if h]
        self.use_bias, self.lasso, self.ridge, self.clamp = use_bias, lasso, ridge, clamp
        self.cats, self.groups = {}, {}
        at = self.d
        for c in self.order:
            self.groups[c] = [c]
            if types[c] in ("cat", "ord"):
                self.cats[c] = sorted(set(self.A[:, c].tolist()))
            if types[c] == "cat":
                extra = len(self.cats[c]) - 1
                self.groups[c] = [c] + list(range(at, at + extra))
                at += extra
        self.D = at
        self.owner = {i: c for c, g in self.groups.items() for i in g}
        self.dims = [self.D] + self.hidden + [1]
        self.linear = not self.hidden
        self.m1 = self.dims[1]
        self.E = self.expand(self.A)
        sizes = [self.D * self.m1 * self.D]
        if use_bias:
            sizes.append(self.D * self.m1)
        for a, b in zip(self.dims[1:-1], self.dims[2:]):
            sizes.append(self.D * a * b)
            if use_bias:
                sizes.append(self.D * b)
        self.size = sum(sizes)
        self.n_dag = sizes[0]
        self.odds = {}
        for c in self.order:
            if types[c] == "ord":
                p = np.array([float(np.mean(self.A[:, c] == v)) for v in self.cats[c]])
                q = np.cumsum(p)[:-1]
                self.odds[c] = np.log(q / (1 - q))

    def expand(self, A):
        A = np.array(A, dtype=float)
        E = np.zeros((len(A), self.D))
        E[:, :self.d] = A
        for c in self.order:
            if self.types[c] == "cat":
                for k, i in enumerate(self.groups[c]):
                    E[:, i] = (A[:, c] == self.cats[c][k])
            elif self.types[c] == "ord":
                E[:, c] = [self.cats[c].index(v) for v in A[:, c].tolist()]
        return E

    # -- solver vector
    def shape(self):
        return TShape(self)

    def decode(self, x):
        x = np.asarray(x, dtype=float)
        if x.shape != (self.size,):
            return None
        p, at = Params(), 0

        def take(*s):
            nonlocal at
            n = int(np.prod(s))
            v = x[at:at + n].reshape(s)
            at += n
            return v
        p.W = take(self.D, self.m1, self.D)
        p.b = take(self.D, self.m1) if self.use_bias else None
        p.layers = []
        for a, b in zip(self.dims[1:-1], self.dims[2:]):
            w = take(self.D, a, b)
            p.layers.append((w, take(self.D, b) if self.use_bias else None))
        return p

    # -- the network
    def head(self, p, z):
        """Hidden layers: n x D x m1 -> n x D."""
        for w, b in p.layers:
            s = sigmoid(z)
            m = s - s.mean(axis=2, keepdims=True)
            s = m / np.sqrt((m * m).mean(axis=2, keepdims=True) + self.clamp)
            z = np.einsum("njm,jml->njl", s, w)
            if b is not None:
                z = z + b
        return z[:, :, 0]

    def first(self, p, E):
        z = np.einsum("jki,ni->njk", p.W, E)
        return z if p.b is None else z + p.b

    def forward(self, p, E):
        return self.head(p, self.first(p, E))

    def jacobian(self, p, E):
        """d xhat[n, j] / d x[n, i]  ->  n x D(j) x D(i)"""
        if self.linear:
            return np.broadcast_to(p.W[:, 0, :], (len(E), self.D, self.D))
        z = self.first(p, E)
        J = np.zeros((len(E), self.D, self.D))
        e = 1e-5
        for k in range(self.m1):
            dz = np.zeros_like(z)
            dz[:, :, k] = e
            g = (self.head(p, z + dz) - self.head(p, z - dz)) / (2 * e)
            J += g[:, :, None] * p.W[None, :, k, :]
        return J

    def adjacency(self, p):
        """(weight[i, j], mean effect[i, j]) from node i to node j."""
        if self.linear:
            M = p.W[:, 0, :].T
            return np.abs(M), M
        J = self.jacobian(p, self.E)
        return np.abs(J).mean(axis=0).T, J.mean(axis=0).T

    def collapse(self, M):
        out = np.zeros((self.d, self.d))
        for i in range(self.D):
            for j in range(self.D):
                out[self.owner[i], self.owner[j]] += M[i, j]
        return out

    def square(self, p):
        return self.collapse((p.W ** 2).sum(axis=1).T)

    def h(self, p):
        d = self.d
        M = np.eye(d) + self.square(p) / d
        return float(np.trace(np.linalg.matrix_power(M, d))) - d

    def hnoise(self, p):
        d = self.d
        M = np.eye(d) + self.square(p) / d
        return 4e-7 * d * (1 + float(np.trace(np.linalg.matrix_power(M, d))))

    # -- losses
    def ord_probs(self, c, xh):
        cum = sigmoid(self.odds[c][None, :] - xh[:, None])
        full = np.concatenate([np.zeros((len(xh), 1)), cum, np.ones((len(xh), 1))], axis=1)
        return np.diff(full, axis=1)

    def loss(self, p):
        """Sum over the columns; None when a probability is too small for float32."""
        E, n = self.E, len(self.E)
        X = self.forward(p, E)
        tot = 0.0
        if float(np.abs(X).max()) > 60:
            return None
        for c in self.order:
            t, xh = self.types[c], X[:, c]
            if t == "cont":
                tot += 0.5 / n * float(((xh - E[:, c]) ** 2).sum())
            elif t == "bin":
                tot += float(np.mean(np.maximum(xh, 0) - xh * E[:, c] + np.log1p(np.exp(-np.abs(xh)))))
            elif t == "poiss":
                if float(xh.max()) > 12:
                    return None
                tot += float(np.mean(np.exp(xh) - E[:, c] * xh))
            elif t == "cat":
                Z = X[:, self.groups[c]]
                Z = Z - Z.max(axis=1, keepdims=True)
                lse = np.log(np.exp(Z).sum(axis=1))
                pick = Z[np.arange(n), np.argmax(E[:, self.groups[c]], axis=1)]
                tot += float(np.mean(lse - pick))
            else:
                pr = self.ord_probs(c, xh)[np.arange(n), E[:, c].astype(int)]
                if float(pr.min()) < 1e-3:
                    return None
                tot += float(np.mean(-np.log(pr)))
        return tot

    def primal(self, p):
        s = self.loss(p)
        if s is None:
            return None
        sq, n = float((p.W ** 2).sum()), p.W.size
        for w, _ in p.layers:
            sq += float((w ** 2).sum())
            n += w.size
        return s + 0.5 * self.ridge * sq / n * self.D + self.lasso * float(np.abs(p.W).mean()) * self.D

    def link(self, c, X):
        """Reconstruction of column c in data space."""
        t = self.types[c]
        if t == "cont":
            return X[:, c]
        if t == "bin":
            return sigmoid(X[:, c])
        if t == "poiss":
            return np.exp(X[:, c])
        if t == "cat":
            Z = X[:, self.groups[c]]
            Z = np.exp(Z - Z.max(axis=1, keepdims=True))
            return Z / Z.sum(axis=1, keepdims=True)
        return self.ord_probs(c, X[:, c])


class TShape:
    kind = "torch"

    def __init__(self, model):
        self.model, self.d, self.size = model, model.d, model.size

    def cells(self):
        m = self.model
        out = [(0, m.owner[i], m.owner[j], 1) for j in range(m.D) for _ in range(m.m1) for i in range(m.D)]
        return out + [(1, 0, 0, 1)] * (m.size - len(out))


class Solver(L.Solver):
    """The simulated solver of learn.py over this vector layout."""


def max_calls(max_iter):
    return max_iter + 40


class Warned(logging.Handler):
    """Counts the convergence warnings that are logged."""

    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        if record.levelno >= logging.WARNING and "converge" in record.getMessage():
            self.n += 1

    def __enter__(self):
        root = logging.getLogger()
        self.saved = root.level, list(root.handlers)
        root.handlers[:] = [self]
        return self

    def __exit__(self, *a):
        root = logging.getLogger()
        root.handlers[:] = self.saved[1]
        root.setLevel(self.saved[0])
        return False


DEFAULTS = {"lasso_beta": 0.0, "ridge_beta": 0.0, "use_bias": False, "hidden_layer_units": None, "max_iter": 100,
            "w_threshold": None, "nonlinear_clamp": 1e-2}


class Case:
    """One call of from_numpy / from_pandas with its reference reading."""

    def __init__(self, sim, pd, maxd=4, all_types=True, mind=1, free=False):
        self.sim, self.pd = sim, pd
        self.entry = ["from_numpy", "from_pandas"][sim.draw(2)]
        self.pandas = self.entry == "from_pandas"
        d = self.d = sim.between(mind, maxd)
        if maxd >= 4 and sim.draw(24) == 23:        # indices of more than one digit
            d = self.d = 11
        self.n = sim.size(2, 9, (60, 130))
        r = sim.substream()
        mixed = sim.draw(3)
        self.types = [sim.pick(TYPES) if mixed and all_types else "cont" for _ in range(d)]
        self.A = np.array([column(r, t, self.n) for t in self.types], dtype=float).T.reshape(self.n, d)
        self.schema = mixed != 0 or sim.draw(2) == 1
        self.order = sim.shuffled(range(d)) if self.schema else list(range(d))
        style = sim.draw(4)
        self.names = [["n%d" % i for i in range(d)], ["b", "a", "d", "c"][:d], [7, 3, 0, 12][:d],
                      ["x", "x1", "X", "1"][:d] if sim.draw(6) == 5 else ["u", "v", "_", "9"][:d]][style]
        if len(self.names) < d:
            self.names = ["%d" % i for i in range(d)]
        if not self.pandas:
            self.names = list(range(d))
        self.hidden = sim.pick([None, None, [0], [], [1], [2], [3], [2, 2], (2,), (0,)])
        self.use_bias = bool(sim.draw(2))
        self.lasso = sim.pick([0.0, 0.1, 0.5, 0])
        self.ridge = sim.pick([0.0, 0.1, 1.0])
        self.clamp = sim.pick([None, None, 1e-2, 0.1, 1.0])
        self.thr = sim.pick([None, 0.0, 0.3, 0.05, 1.0, 1e-6])
        self.max_iter = sim.pick([1, 2, 3, 1, 0, 100])
        self.tabu = {}
        den = sim.pick([2, 4, 10])
        if sim.draw(4) == 3 if free else sim.draw(3):
            self.tabu["tabu_edges"] = [(i, j) for i in range(d) for j in range(d) if sim.chance(1, den)]
        if sim.draw(9 if free else 3) == 2:
            self.tabu["tabu_parent_nodes"] = [i for i in range(d) if sim.chance(1, 3)]
        if sim.draw(9 if free else 3) == 2:
            self.tabu["tabu_child_nodes"] = [i for i in range(d) if sim.chance(1, 3)]
        self.readonly = sim.draw(3) == 2
        self.omit = sim.draw(2)
        self.as_int = sim.draw(4) == 3 and all(t != "cont" for t in self.types)
        self.model = Model(self.A, self.types, self.order, self.hidden, self.use_bias, self.lasso, self.ridge,
                           1e-2 if self.clamp is None else self.clamp)

    def allowed(self, i, j):
        """Are edges from expanded node i to expanded node j allowed?"""
        a, b = self.model.owner[i], self.model.owner[j]
        t = self.tabu
        return not (a == b or (a, b) in t.get("tabu_edges", ()) or a in t.get("tabu_parent_nodes", ())
                    or b in t.get("tabu_child_nodes", ()))

    def node(self, i):
        c = self.model.owner[i]
        if not self.pandas:
            return i
        k = self.model.groups[c].index(i)
        return "%s%d" % (self.names[c], k) if k else self.names[c]

    def nodes(self):
        return [self.node(i) for i in range(self.model.D)]

    def call_args(self):
        A = self.A.astype(int) if self.as_int else self.A.copy()
        nm = self.names
        kw = {}
        if self.pandas:
            X = self.pd.DataFrame({nm[c]: A[:, c].copy() for c in range(self.d)}, index=list(range(5, 5 + self.n)))
        else:
            X = A
            if self.readonly:
                X.flags.writeable = False
        if self.schema:
            kw["dist_type_schema"] = {nm[c]: self.types[c] for c in self.order}
        for k, v in self.tabu.items():
            kw[k] = [(nm[a[0]], nm[a[1]]) for a in v] if k == "tabu_edges" else [nm[a] for a in v]
        kw.update(lasso_beta=self.lasso, ridge_beta=self.ridge, use_bias=self.use_bias, hidden_layer_units=self.hidden,
                  max_iter=self.max_iter, w_threshold=self.thr)
        if self.clamp is not None:
            kw["nonlinear_clamp"] = self.clamp
        if self.omit:                       # arguments left out have their default value
            kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v is not DEFAULTS[k] and v != DEFAULTS[k]}
        return X, kw

    def describe(self):
        return "%s types=%s order=%s n=%d hidden=%s bias=%s lasso=%g ridge=%g thr=%s max_iter=%d tabu=%s names=%s" % (
            self.entry, self.types, self.order, self.n, self.hidden, self.use_bias, self.lasso, self.ridge, self.thr,
            self.max_iter, self.tabu, self.names)


class Outcome:
    graph = error = None


def perform(sim, mods, case, solver):
    X, kw = case.call_args()
    before = L.snap([X, kw])
    o = Outcome()
    solver.max_iter = case.max_iter
    with warnings.catch_warnings(), Warned() as w, solver, np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            o.graph = getattr(mods[1], case.entry)(X, **kw)
        except SimStop:
            raise
        except BaseException as e:
            o.error = e
    o.warned = w.n
    o.unchanged = L.snap([X, kw]) == before
    sim.units[case.entry] += 1
    return o


def earlier(sim, mods, pd):
    """Now and then something else was learned before, in the same process."""
    if sim.draw(6) != 5:
        return
    prev = Case(sim, pd, maxd=3)
    prev.max_iter = min(prev.max_iter, 2)
    sv = Solver(sim, prev.model.shape(), prev.thr or 0.0, L.gen_plan(sim, prev.max_iter), max_calls(prev.max_iter))
    sim.note("earlier call", prev.describe())
    o = perform(sim, mods, prev, sv)
    if o.error is not None and not isinstance(o.error, ValueError):
        raise o.error
    sim.probe("earlier_call")


def f32(x):
    return np.asarray(x, dtype=np.float32).astype(float)


def final_params(case, solver):
    """Parameters the result must reflect (float32 copies of the solver's last point)."""
    if not solver.history:
        return None
    return case.model.decode(f32(solver.history[-1]))


# ------------------------------------------------------------------ structure
def clash(sim, case, o, solver):
    """A column with the name of an expanded categorical column must be refused."""
    nodes = case.nodes()
    if len(set(nodes)) == len(nodes) or not isinstance(o.error, ValueError):
        return False
    sim.check(o.unchanged, "input-changed", "%s: arguments changed by a refused call" % case.describe())
    sim.probe("clash_refused")
    return True


def judge_structure(sim, mods, case, solver, o, p):
    where = "%s (solver: %d calls)" % (case.describe(), solver.calls)
    m, g = case.model, o.graph
    sim.check(type(g) is mods[0].StructureModel, "wrong-structure", "%s: returned %r" % (where, type(g)))
    sim.check(o.unchanged, "input-changed", "%s: the caller's arguments were changed" % where)
    nodes = case.nodes()
    if len(set(nodes)) < len(nodes):
        sim.check(len(g.nodes) == len(nodes), "ambiguous-node-names",
                  lambda: "%s: %d variables/categories share %d node names %r" % (where, len(nodes), len(g.nodes), list(g.nodes)))
        return
    sim.check(set(g.nodes) == set(nodes) and len(g.nodes) == len(nodes), "wrong-nodes",
              lambda: "%s: nodes %r, expected %r" % (where, list(g.nodes), nodes))
    at = {v: i for i, v in enumerate(nodes)}
    W, E = (np.zeros((m.D, m.D)), np.zeros((m.D, m.D))) if p is None else m.adjacency(p)
    thr = case.thr or 0.0
    tol = 1e-9 if m.linear else 3e-4 * (1 + float(np.abs(W).max()))
    got = {}
    for u, v, a in g.edges(data=True):
        i, j = at[u], at[v]
        sim.check(case.allowed(i, j), "forbidden-edge", "%s: edge %r -> %r is excluded" % (where, u, v))
        w, e = a.get("weight"), a.get("mean_effect")
        sim.check(w is not None and np.isfinite(w) and w > 0, "bad-weight", "%s: edge %r -> %r has weight %r" % (where, u, v, w))
        sim.check(w >= thr, "below-threshold", "%s: edge %r -> %r has weight %r" % (where, u, v, w))
        sim.check(a.get("origin") == "learned", "wrong-origin", "%s: edge %r -> %r has origin %r" % (where, u, v, a.get("origin")))
        sim.check(abs(w - W[i, j]) <= tol, "wrong-weight",
                  lambda: "%s: edge %r -> %r weighs %r, the solution says %r" % (where, u, v, w, W[i, j]))
        sim.check(e is not None and abs(e - E[i, j]) <= tol, "wrong-mean-effect",
                  lambda: "%s: edge %r -> %r has the mean effect %r, the solution says %r" % (where, u, v, e, E[i, j]))
        got[(i, j)] = w
    for i in range(m.D):
        for j in range(m.D):
            need = W[i, j] > 0 and W[i, j] >= thr if m.linear else W[i, j] > max(tol, thr + tol)
            if need and (i, j) not in got:
                sim.fail("missing-edge", "%s: no edge %r -> %r although its weight is %r" % (where, nodes[i], nodes[j], W[i, j]))
    # node attributes
    kinds = mods[2].dist_type_aliases
    share = {}
    for i, v in enumerate(nodes):
        a = g.nodes[v]
        t = a.get("dist_type")
        c = m.owner[i]
        sim.check(type(t) is kinds[case.types[c]], "wrong-type", "%s: node %r has the data type %r" % (where, v, t))
        sim.check(share.setdefault(c, t) is t, "wrong-type", "%s: the columns of %r have different data types" % (where, v))
        b = a.get("bias", "absent")
        if not case.use_bias:
            sim.check(b is None, "wrong-bias", "%s: node %r has the bias %r" % (where, v, b))
        elif m.linear:
            want = 0.0 if p is None else p.b[i, 0]
            sim.check(b is not None and b != "absent" and abs(float(b) - want) <= 1e-9, "wrong-bias",
                      lambda: "%s: node %r has the bias %r, the solution says %r" % (where, v, b, want))
    sim.check(len({id(t) for t in share.values()}) == len(share), "wrong-type", "%s: variables share a data type object" % where)
    # collapsed graph
    cg = g.graph.get("graph_collapsed")
    sim.check(type(cg) is mods[0].StructureModel and set(cg.nodes) == set(case.names), "wrong-collapsed",
              lambda: "%s: collapsed graph has the nodes %r" % (where, None if cg is None else list(cg.nodes)))
    C = m.collapse(W)
    pos = {v: i for i, v in enumerate(case.names)}
    for u, v, a in cg.edges(data=True):
        i, j = pos[u], pos[v]
        sim.check(i != j and case.allowed(i, j), "forbidden-edge", "%s: collapsed edge %r -> %r is excluded" % (where, u, v))
        sim.check(abs(a["weight"] - C[i, j]) <= tol * m.D ** 2 + 1e-5 * C[i, j], "wrong-collapsed",
                  lambda: "%s: collapsed edge %r -> %r weighs %r, expected %r" % (where, u, v, a["weight"], C[i, j]))
    for i in range(case.d):
        for j in range(case.d):
            if C[i, j] > tol * m.D ** 2 and not cg.has_edge(case.names[i], case.names[j]):
                sim.fail("wrong-collapsed", "%s: no collapsed edge %r -> %r although its weight is %r" % (
                    where, case.names[i], case.names[j], C[i, j]))
    if p is not None and np.any(p.W):
        sim.nontrivial = True
        sim.probe("edges", len(got))
    if m.D > m.d:
        sim.probe("categorical_expansion")
    sim.probe("linear" if m.linear else "nonlinear")
    reconstruct(sim, case, g, p, where)


def reconstruct(sim, case, g, p, where):
    """The fitted network kept in the graph reconstructs rows as the solution says, one row at a time or all at once."""
    m = case.model
    learner = g.graph.get("structure_learner")
    if p is None or "ord" in case.types or learner is None or sim.draw(3):
        return
    rows = [sim.draw(case.n) for _ in range(sim.between(1, 4))]
    A = case.A[rows]
    X = m.forward(p, m.expand(A))
    if float(np.abs(X).max()) > 20:
        return
    with np.errstate(all="ignore"):
        out = learner.reconstruct_data(A.copy())
    sim.check(out.shape == X.shape, "wrong-reconstruction", "%s: reconstruction has the shape %r" % (where, out.shape))
    for c in case.order:
        a, b = out[:, m.groups[c]] if case.types[c] == "cat" else out[:, c], m.link(c, X)
        sim.check(np.all(np.abs(a - b) <= 1e-3 * (1 + np.abs(b)) + 2e-5 * float(np.abs(X).max()) * (1 + np.abs(b))),
                  "wrong-reconstruction", lambda: "%s: column %r reconstructs as %r, the solution says %r" % (
                      where, c, a.tolist(), b.tolist()))
    sim.probe("reconstructions")


# ------------------------------------------------------------------ what the solver is handed
def check_box(sim, case, lo, hi, where):
    m = case.model
    if lo.size != m.size:
        sim.inconclusive = "the solver vector has an unknown layout"
        raise SimStop("layout")
    k = 0
    for j in range(m.D):
        for _ in range(m.m1):
            for i in range(m.D):
                if case.allowed(i, j):
                    sim.check(lo[k] == -np.inf and hi[k] == np.inf, "edge-restricted",
                              lambda: "%s: allowed edge %r is confined to [%g, %g]" % (where, (i, j), lo[k], hi[k]))
                else:
                    sim.check(lo[k] == 0 and hi[k] == 0, "forbidden-edge-free",
                              lambda: "%s: excluded edge %r may range over [%g, %g]" % (where, (i, j), lo[k], hi[k]))
                k += 1
    sim.check(np.all(lo[k:] == -np.inf) and np.all(hi[k:] == np.inf), "edge-restricted",
              "%s: a bias or hidden weight is restricted" % where)
