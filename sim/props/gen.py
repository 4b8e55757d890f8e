"""Shared by C18-C21, C25: the data generators under a simulated source of randomness.

The seam is numpy's global generator: every ``np.random.*`` function is wrapped (before causalnex binds them at import).
Inside a run the active ``Rng`` logs each call and may replace drawn elements by outcomes from the far ends of their
distribution (interval ends, deep tails, identity / reversed permutations); ``seed(None)`` takes its seed from the tape.
"""
import inspect
import math
import threading
import types
import warnings

import numpy as np

from .. import loader, stubs
from ..core import HarnessError

REAL = ["causalnex.structure.data_generators.{core,wrappers}, causalnex.structure.{structuremodel,categorical_variable_mapper} "
        "(from /repo's working tree)", "numpy", "networkx", "scipy.sparse"]
STUB = ["numpy's global random generator (wrapped; genuine draws or far-end outcomes)", "pandas (minimal stand-in)",
        "sklearn kernels (RBF and Kernel stand-ins)", "set iteration order (SimSet)"]
ASSUME = ["the random source returns values its documentation allows", "sampled runs: a clean batch is evidence, not proof"]

_real = {}
_active = {}
TINY = 2.0 ** -53


def _ends(name, a, k):
    """(low, high) far-end outcomes of a draw, or None."""
    def arg(pos, key, default):
        return k[key] if key in k else (a[pos] if len(a) > pos else default)
    if name in ("rand", "random", "random_sample", "ranf", "sample"):
        return 0.0, 1 - TINY
    if name == "uniform":
        lo, hi = arg(0, "low", 0.0), arg(1, "high", 1.0)
        return lo + (hi - lo) * 0.0, lo + (hi - lo) * (1 - TINY)
    if name in ("normal", "randn", "standard_normal"):
        loc, sc = (arg(0, "loc", 0.0), arg(1, "scale", 1.0)) if name == "normal" else (0.0, 1.0)
        return loc - 8 * sc, loc + 8 * sc
    if name == "standard_t":
        return -60.0, 60.0
    if name == "gumbel":
        loc, sc = arg(0, "loc", 0.0), arg(1, "scale", 1.0)
        return loc - 3.6 * sc, loc + 36 * sc
    if name in ("exponential", "standard_exponential"):
        sc = arg(0, "scale", 1.0) if name == "exponential" else 1.0
        return 0.0 * sc, 36.0 * sc
    if name == "logistic":
        loc, sc = arg(0, "loc", 0.0), arg(1, "scale", 1.0)
        return loc - 36 * sc, loc + 36 * sc
    return None


def _wrapper(name):
    real = _real[name]

    def f(*a, **k):
        r = _active.get(threading.current_thread())
        if r is None:
            return real(*a, **k)
        return r.call(name, real, a, k)
    f.__name__ = name
    return f


NAMES = ["rand", "randn", "random", "random_sample", "ranf", "sample", "uniform", "normal", "standard_normal", "standard_t",
         "gumbel", "exponential", "standard_exponential", "logistic", "choice", "permutation", "shuffle", "randint",
         "multivariate_normal", "poisson", "binomial", "seed", "default_rng"]


def _method(name, base):
    real = getattr(base, name)

    def f(self, *a, **k):
        r = _active.get(threading.current_thread())
        if r is None:
            return real(self, *a, **k)
        return r.call(name, lambda *a, **k: real(self, *a, **k), a, k)
    f.__name__ = name
    return f


def _owned(base):
    """Generators the library makes for itself (numpy.random.RandomState, Generator) are the same seam."""
    skip = ("seed", "default_rng")
    return type(base.__name__, (base,), {n: _method(n, base) for n in NAMES if n not in skip and hasattr(base, n)})


class _Seeded(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)


def setup():
    if not _real:
        for n in NAMES:
            _real[n] = getattr(np.random, n)
        state, generator = _owned(np.random.RandomState), _owned(np.random.Generator)

        def fresh_seed(seed):
            r = _active.get(threading.current_thread())
            return r.sim.draw(2 ** 32) if seed is None and r is not None else seed

        class RandomState(state, metaclass=_Seeded):
            base = np.random.RandomState

            def __new__(cls, seed=None):
                return state(fresh_seed(seed))

        def default_rng(seed=None):
            if isinstance(seed, np.random.Generator):
                return seed
            return generator(np.random.PCG64(fresh_seed(seed)))
        for n in NAMES:
            setattr(np.random, n, _wrapper(n))
        np.random.RandomState, np.random.default_rng = RandomState, default_rng
    stubs.install()


def load():
    return loader.fresh("causalnex.structure.data_generators", "causalnex.structure.structuremodel")


class Rng:
    """Active source of randomness of one run."""

    def __init__(self, sim, policy="genuine"):
        self.sim, self.policy = sim, policy
        self.log = []
        self.keep = False
        self.fate = sim.substream() if policy != "genuine" else None
        self.calls = 0
        self.hook = None

    def __enter__(self):
        self.saved = _active.get(threading.current_thread())
        _active[threading.current_thread()] = self
        return self

    def __exit__(self, *a):
        if self.saved is None:
            del _active[threading.current_thread()]
        else:
            _active[threading.current_thread()] = self.saved

    def call(self, name, real, a, k):
        self.calls += 1
        if name == "seed":
            seed = k.get("seed", a[0] if a else None)
            if seed is None:
                seed = self.sim.draw(2 ** 32)
                self.sim.fault("os_entropy_seed")
            return real(seed)
        v = real(*a, **k)
        if self.hook is not None:
            v = self.hook(name, a, k, v)
        elif self.policy != "genuine":
            v = self.bend(name, a, k, v)
        if self.keep:
            self.log.append((name, v))
        return v

    def bend(self, name, a, k, v):
        fate = self.fate
        if self.policy == "rare" and fate.random() < 0.7:
            return v
        if name == "permutation":
            x = np.arange(a[0]) if isinstance(a[0], (int, np.integer)) else np.array(a[0])
            return self.count(name, fate.choice([v, x, x[::-1]]))
        if name == "choice":
            pool = np.arange(a[0]) if isinstance(a[0], (int, np.integer)) else np.asarray(a[0])
            out = np.array(v)
            out[...] = pool[fate.choice([0, -1])]
            return self.count(name, out if np.ndim(v) else out[()])
        ends = _ends(name, a, k)
        if ends is None:
            return v
        lo, hi = np.broadcast_to(ends[0], np.shape(v)), np.broadcast_to(ends[1], np.shape(v))
        how = fate.randrange(5)
        if np.ndim(v) == 0:
            return self.count(name, type(v)([lo, hi, lo, hi, v][how]))
        if how == 0:
            out = np.array(lo)
        elif how == 1:
            out = np.array(hi)
        else:
            g = np.random.Generator(np.random.PCG64(fate.getrandbits(32))).integers(0, 3 if how == 2 else 12, size=v.shape)
            out = np.where(g == 0, lo, np.where(g == 1, hi, v))
        return self.count(name, out)

    def count(self, name, v):
        self.sim.fault("extreme_draw:" + name)
        return v


# ---------------------------------------------------------------- inputs
NAMEPOOLS = [["a", "b", "c", "d", "e", "f", "g", "h"], ["x3", "x1", "x2", "x10", "y", "z", "w", "v"],
             [3, 1, 2, 0, 7, 5, 6, 4], ["n_0", "n_1", "n", "m", "m_1", "k", "l", "o"]]


def make_graph(sim, SMmod, lo=1, hi=6, wmax=1.5, unweighted=True, pool=None):
    """(graph, nodes, parents, weights): a random DAG; weights are None where the edge has none."""
    n = sim.between(lo, hi)
    names = (pool or sim.pick(NAMEPOOLS))[:n]
    order = sim.shuffled(names)
    g = sim.pick([SMmod.StructureModel, __import__("networkx").DiGraph])()
    g.add_nodes_from(sim.shuffled(names))
    dens = sim.between(0, 3)
    mode = sim.pick(["weights", "none", "mixed"]) if unweighted else "weights"
    w = {}
    for j in range(n):
        for i in range(j):
            if sim.draw(4) < dens:
                wt = None if mode == "none" or (mode == "mixed" and sim.draw(2)) else \
                    sim.pick([1.0, -1.0, 0.5, -0.7, wmax, -wmax, 0.25])
                if wt is None:
                    g.add_edge(order[i], order[j])
                else:
                    g.add_edge(order[i], order[j], weight=wt)
                w[order[i], order[j]] = wt
    parents = {v: [u for u, x in w if x == v] for v in names}
    return g, names, parents, w


TYPES = ["continuous", "binary", "count", "categorical:2", "categorical:3", "categorical:5", "categorical:12"]


def make_schema(sim, names):
    """(schema argument, default type, complete schema)"""
    default = sim.pick(TYPES)
    full = {v: default for v in names}
    style = sim.draw(4)
    if style == 0:
        return sim.pick([None, {}]), default, full
    schema = {}
    for v in sim.shuffled(names):
        if style == 1 or sim.draw(2):
            schema[v] = full[v] = sim.pick(TYPES)
    if sim.draw(5) == 4:
        schema["not_a_node"] = "binary"
    return schema, default, full


def card(t):
    return int(t.split(":")[1]) if t.startswith("categorical") else 0


def features(v, t):
    return ["%s_%d" % (v, i) for i in range(card(t))] if card(t) else [v]


def collides(full):
    names = [f for v, t in full.items() for f in features(v, t)]
    return len(set(names)) < len(names)


def frozen_graph(g):
    return (type(g).__name__, [(v, dict(d)) for v, d in g.nodes(data=True)],
            [(u, v, dict(d)) for u, v, d in g.edges(data=True)])


def bits(df):
    """Exact content of a frame or array."""
    if isinstance(df, np.ndarray):
        return ("array", df.shape, df.dtype.str, df.tobytes())
    v = np.asarray(df.values)
    return (list(df.columns), list(df.index), v.shape, v.dtype.str, v.tobytes())


def omit(sim, kw, **defaults):
    """Sometimes leave out arguments that have their documented default value."""
    if sim.draw(2):
        for k, v in defaults.items():
            if k in kw and type(kw[k]) is type(v) and kw[k] == v:
                del kw[k]
    return kw


def quiet():
    c = warnings.catch_warnings()
    c.__enter__()
    warnings.simplefilter("ignore")
    return c


def kl_excess(k, n, p):
    """n * KL(k/n || p): a value above 20 has probability below 5e-9 for (Poisson-)binomial counts of mean n*p."""
    if n == 0:
        return 0.0
    p = min(max(p, 0.0), 1.0)
    q = k / n
    out = 0.0
    if q > 0:
        out += math.inf if p == 0 else q * math.log(q / p)
    if q < 1:
        out += math.inf if p == 1 else (1 - q) * math.log((1 - q) / (1 - p))
    return n * max(out, 0.0)


def frequency(sim, kind, k, n, p, what):
    sim.probe("statistical_test")
    sim.check(kl_excess(k, n, p) < 20, kind, lambda: "%s: %d of %d, expected share %.6g" % (what, k, n, p))


def caused_by(e, exc):
    """Whether ``e`` is the injected exception, possibly wrapped by a library on its way up."""
    seen = set()
    while e is not None and id(e) not in seen:
        if e is exc:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False
