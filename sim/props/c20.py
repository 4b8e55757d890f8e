"""C20: generated rows are well-formed, and follow the structure, for every random outcome and schema."""
import itertools
import math

import networkx as nx
import numpy as np
from scipy import stats

from ..core import stepping, stub_gap
from . import gen as G

LEVEL = "fault_enumeration"
TECH = ("seeded simulation of the random source (genuine and far-end outcomes) under the data generators, with the "
        "documented row format, the structural equations and exact-tail frequency tests as oracle")
NOTE = "Generators are real; pandas and the RBF kernel are stand-ins; frequency tests fire only beyond a 1e-8 tail bound."
RUNS = {"quick": 20000, "thorough": 200000}
RULE = ("one run = generator calls on one random DAG and schema under genuine or far-end draws, noise-free equation checks or "
        "frequency tests; non-trivial = the DAG has an edge, or input was rejected; distinct = distinct call parameters")
REAL, STUB = G.REAL, G.STUB
ASSUMPTIONS = G.ASSUME + ["moderate weights (|w| <= 1.5) and at most six nodes"]
setup = G.setup


def load_frame(sim, df, full, n, where):
    """Format of a generated frame; returns {node: column or matrix}."""
    want = [f for v, t in full.items() for f in G.features(v, t)]
    cols = list(df.columns)
    sim.check(len(cols) == len(want) and set(cols) == set(want), "wrong-columns",
              lambda: "%s: columns %r, expected %r" % (where, cols, want))
    vals = np.asarray(df.values, dtype=float)
    sim.check(vals.shape == (n, len(cols)), "wrong-shape", lambda: "%s: shape %r" % (where, vals.shape))
    sim.check(list(df.index) == list(range(n)), "wrong-index", lambda: "%s: index %r" % (where, list(df.index)[:5]))
    sim.check(np.isfinite(vals).all(), "not-finite", lambda: "%s: non-finite values in %r" % (
        where, [c for k, c in enumerate(cols) if not np.isfinite(vals[:, k]).all()]))
    at = {c: vals[:, k] for k, c in enumerate(cols)}
    out = {}
    for v, t in full.items():
        if t == "binary":
            sim.check(np.isin(at[v], (0.0, 1.0)).all(), "binary-not-0-1", lambda: "%s: %r: %r" % (where, v, at[v][:10]))
        elif t == "count":
            sim.check((at[v] >= 0).all() and (at[v] == np.floor(at[v])).all(), "bad-count",
                      lambda: "%s: %r: %r" % (where, v, at[v][:10]))
        elif t != "continuous":
            m = np.stack([at[f] for f in G.features(v, t)], axis=1)
            sim.check(np.isin(m, (0.0, 1.0)).all() and (m.sum(axis=1) == 1).all(), "not-one-hot",
                      lambda: "%s: %r: rows %r" % (where, v, m[:5].tolist()))
            out[v] = m
            continue
        out[v] = at[v]
    return out


def dists(sim):
    return {"continuous": sim.pick(["gaussian", "normal", "student-t", "exponential", "gumbel"]),
            "binary": sim.pick(["logit", "probit", "normal"]),
            "categorical": sim.pick(["logit", "probit", "normal", "gumbel"]),
            "weight": sim.pick(["uniform", "normal", "gaussian"]), "intercept": sim.pick(["uniform", "normal", "gaussian"]),
            "count": sim.pick([0.05, 0, 0.0, 0.5, 1, 1.0])}


def generate(sim, M, g, nonlinear, rng, **kw):
    G.omit(sim, kw, schema=None, default_type="continuous", noise_std=1.0, distributions=None, intercept=True, seed=None)
    c = G.quiet()
    try:
        with rng, stepping(sim, budget=3_000_000):
            if nonlinear:
                from sklearn.gaussian_process.kernels import RBF
                kw.pop("intercept", None)
                return M.nonlinear_sem_generator(g, kernel=RBF(1), **kw)
            return M.sem_generator(g, **kw)
    finally:
        c.__exit__(None, None, None)


def formed(sim, M, SM):
    """Any draws, any schema, noise, size."""
    g, names, parents, w = G.make_graph(sim, SM)
    schema, default, full = G.make_schema(sim, names)
    nonlinear = sim.draw(4) == 3
    n = sim.pick([1, 2, 3, 10, 25, 60, 130] if nonlinear else [1, 2, 3, 10, 25, 60, 130])
    if n == 130 and not nonlinear and sim.draw(2):
        n = 1100
    kw = dict(schema=schema, default_type=default, noise_std=sim.pick([1.0, 0.1, 3, 0.0]), n_samples=n,
              distributions=sim.pick([dists(sim), None]), intercept=bool(sim.draw(2)), seed=sim.pick([None, 0, 5]))
    where = "%s(edges=%r, %r)" % ("nonlinear" if nonlinear else "sem", list(g.edges(data="weight")), kw)
    sim.sched(where)
    rng = G.Rng(sim, "genuine" if nonlinear and sim.draw(2) else sim.pick(["genuine", "extreme", "rare"]))
    if G.collides(full):
        sim.fault("bad_input:ambiguous_columns")
        try:
            generate(sim, M, g, nonlinear, rng, **kw)
        except ValueError as e:
            if stub_gap(e) is not None:
                raise
            return True
        sim.fail("ambiguous-columns", "%s: two features share a column name" % where)
    data = load_frame(sim, generate(sim, M, g, nonlinear, rng, **kw), full, n, where)
    d = kw["distributions"] or {}
    if d.get("count") in (1, 1.0) and rng.policy == "genuine":
        for v, t in full.items():
            if t == "count":
                sim.check(not data[v].any(), "zero-inflation", "%s: %r has counts under full zero inflation" % (where, v))
    if rng.policy == "genuine" and n >= 60 and kw["noise_std"] > 0:
        for v, t in full.items():
            if t == "binary":
                sim.check(0 < data[v].sum() < n, "binary-constant", "%s: %r is constant" % (where, v))
    return bool(w)


def design(data, ps, full):
    return np.concatenate([data[p].reshape(len(data[p]), -1) for p in ps], axis=1)


def equations(sim, M, SM):
    """noise_std=0: every non-root follows its parents exactly; roots keep their unit spread."""
    g, names, parents, w = G.make_graph(sim, SM, lo=2, pool=G.NAMEPOOLS[sim.draw(3)])
    schema, default, full = G.make_schema(sim, names)
    n = 80
    intercept = bool(sim.draw(2))
    d = dists(sim)
    d["count"] = sim.pick([0.0, 0.05])
    kw = dict(schema=schema, default_type=default, noise_std=0.0, n_samples=n, distributions=d, intercept=intercept,
              seed=sim.draw(1000))
    where = "sem(edges=%r, %r)" % (list(g.edges(data="weight")), kw)
    sim.sched(where)
    data = load_frame(sim, generate(sim, M, g, False, G.Rng(sim), **kw), full, n, where)
    for v in names:
        ps, t = parents[v], full[v]
        if not ps or t == "count":
            if not ps and t == "continuous":
                sim.check(data[v].std() > 0.05, "root-without-spread", "%s: %r has spread %r" % (where, v, data[v].std()))
            continue
        X = design(data, ps, full)
        if t == "continuous":
            A = np.concatenate([X, np.ones((n, 1))], axis=1) if intercept else X
            coef = np.linalg.lstsq(A, data[v], rcond=None)[0]
            size = 1 + np.abs(X).max() * 10 + np.abs(data[v]).max()
            sim.check(np.abs(A @ coef - data[v]).max() < 1e-6 * size, "not-linear-in-parents",
                      "%s: %r is no linear function of its parents" % (where, v))
            # explicit weights
            if all(w[p, v] is not None for p in ps):
                rest = data[v].copy()
                for p in ps:
                    if not G.card(full[p]):
                        rest = rest - w[p, v] * data[p]
                cats = [p for p in ps if G.card(full[p])]
                # each categorical parent adds its weight in exactly one of its categories
                best, const = None, None
                for choice in itertools.product(*[range(G.card(full[p])) for p in cats]):
                    r = rest.copy()
                    for p, k in zip(cats, choice):
                        r = r - w[p, v] * data[p][:, k]
                    dev = np.abs(r - r[0]).max() if intercept else np.abs(r).max()
                    if best is None or dev < best:
                        best, const = dev, r[0]
                sim.check(best < 1e-6 * size, "weights-not-applied", lambda: "%s: %r does not follow its weights (off by %g)" % (
                    where, v, best))
                if intercept:
                    sim.check(abs(const) > 1e-9, "intercept-without-effect", "%s: %r has no intercept" % (where, v))
            elif len(ps) == 1 and np.ptp(X, axis=0).max() > 0:
                sim.check(np.ptp(data[v]) > 1e-9, "edge-without-effect", "%s: %r does not depend on %r" % (where, v, ps[0]))
        elif t == "binary":
            if all(w[p, v] is not None and not G.card(full[p]) for p in ps):
                lat = sum(w[p, v] * data[p] for p in ps)
                one, zero = lat[data[v] == 1], lat[data[v] == 0]
                if len(one) and len(zero):
                    sim.check(zero.max() <= one.min() + 1e-9, "binary-not-monotone",
                              "%s: %r is not monotone in its latent mean" % (where, v))
                share = (lat > 0).mean()
                if not intercept and 0.06 < share < 0.94:
                    clear = np.abs(lat) > 1e-9
                    sim.check(((lat > 0) == (data[v] == 1))[clear].all(), "binary-threshold",
                              "%s: %r is not the sign of its latent mean" % (where, v))
        # equal parents, equal child
        seen = {}
        if t != "continuous":
            val = data[v] if t == "binary" else data[v].argmax(axis=1)
            for k in range(n):
                key = X[k].tobytes()
                sim.check(seen.setdefault(key, val[k]) == val[k], "not-a-function-of-parents",
                          "%s: %r differs for equal parents without noise" % (where, v))
    return bool(w)


def smooth(sim, M, SM):
    """Nonlinear data: unit variance, a function of its parents, smooth along one parent, in any number of batches."""
    n = sim.pick([40, 99, 100, 101, 150, 201, 320])
    g = SM.StructureModel()
    two = sim.draw(3) == 2
    g.add_edges_from([("p", "c")] + ([("q", "c")] if two else []))
    kw = dict(noise_std=0.0, n_samples=n, seed=sim.draw(1000),
              distributions={"continuous": sim.pick(["gaussian", "normal", "gumbel", "exponential"])})
    where = "nonlinear(%r)" % (kw,)
    full = {v: "continuous" for v in g.nodes}
    data = load_frame(sim, generate(sim, M, g, True, G.Rng(sim), **kw), full, n, where)
    y, x = data["c"], data["p"]
    sim.sched(where, two)
    sim.check(abs(y.std() - 1) < 1e-6, "not-unit-variance", "%s: %r" % (where, y.std()))
    if not two:
        k = np.argsort(x)
        dx, dy = np.diff(x[k]), np.abs(np.diff(y[k]))
        close = dx < 0.01
        if close.any():
            sim.check(dy[close].max() < 1.0, "not-smooth", lambda: "%s: jumps by %g between parents %g apart" % (
                where, dy[close].max(), 0.01))
    return True


def ppf(dist, q):
    return {"gaussian": stats.norm, "normal": stats.norm, "student-t": stats.t(5), "exponential": stats.expon,
            "gumbel": stats.gumbel_r}[dist].ppf(q)


def frequencies(sim, M, SM):
    """Genuine randomness: marginals and conditionals have the documented distributions."""
    g, names, parents, w = G.make_graph(sim, SM, lo=1, hi=4, unweighted=False, pool=G.NAMEPOOLS[sim.draw(3)])
    schema, default, full = G.make_schema(sim, names)
    n = sim.pick([600, 600, 6000])
    d = dists(sim)
    d["count"] = sim.pick([0.05, 0.0, 0.4])
    sd = sim.pick([1.0, 0.3, 2.5])
    kw = dict(schema=schema, default_type=default, noise_std=sd, n_samples=n, distributions=d, intercept=False,
              seed=sim.draw(2 ** 20))
    where = "sem(edges=%r, %r)" % (list(g.edges(data="weight")), kw)
    sim.sched(where)
    data = load_frame(sim, generate(sim, M, g, False, G.Rng(sim), **kw), full, n, where)
    for v in names:
        t, ps = full[v], parents[v]
        scalar = all(not G.card(full[p]) for p in ps)
        if not scalar:
            continue
        mean = sum((w[p, v] * data[p] for p in ps), np.zeros(n))
        scale = sd if ps else 1.0
        if t == "continuous":
            for q in (0.01, 0.1, 0.5, 0.9, 0.99):
                k = int((data[v] - mean <= scale * ppf(d["continuous"], q)).sum())
                G.frequency(sim, "noise-distribution", k, n, q, "%s: noise of %r below its %g quantile" % (where, v, q))
        elif t == "binary":
            cdf = stats.logistic.cdf if d["binary"] == "logit" else stats.norm.cdf
            pr = cdf(mean / scale)
            if not 0.12 < pr.mean() < 0.88:
                continue        # may be rebalanced
            for name, part in (("all", np.ones(n, bool)), ("high", mean > 0), ("low", mean < 0)):
                G.frequency(sim, "binary-distribution", int(data[v][part].sum()), int(part.sum()), float(pr[part].mean())
                            if part.any() else 0.5, "%s: ones of %r (%s latent mean)" % (where, v, name))
        elif t == "count":
            zif = d["count"]
            if ps:
                lam = np.where(mean < 0, np.exp(mean), mean)
                p0, p1 = np.exp(-lam), np.exp(-lam) * lam
                a, b = p0.mean(), p1.mean()
            else:
                a, b = 1 - math.exp(-1), 1 - 2 * math.exp(-1)
            zero, one = zif + (1 - zif) * a, (1 - zif) * b
            G.frequency(sim, "count-distribution", int((data[v] == 0).sum()), n, float(zero), "%s: zeros of %r" % (where, v))
            G.frequency(sim, "count-distribution", int((data[v] == 1).sum()), n, float(one), "%s: ones of %r" % (where, v))
        elif not ps:
            for k in range(G.card(t)):
                G.frequency(sim, "category-distribution", int(data[v][:, k].sum()), n, 1 / G.card(t),
                            "%s: category %d of %r" % (where, k, v))
    return bool(w)


def correlations(sim, M, SM):
    """An edge without a weight still has an effect; no edge, no effect."""
    g, names, parents, w = G.make_graph(sim, SM, lo=2, hi=5, pool=G.NAMEPOOLS[sim.draw(3)])
    n = 500
    df = generate(sim, M, g, False, G.Rng(sim), n_samples=n, noise_std=1.0, intercept=bool(sim.draw(2)), seed=sim.draw(2 ** 20))
    data = load_frame(sim, df, {v: "continuous" for v in names}, n, "independence")
    anc = {v: nx.ancestors(g, v) | {v} for v in names}
    sim.sched("independence", sorted(map(repr, w.items())))
    for i, u in enumerate(names):
        for v in names[i + 1:]:
            if not anc[u] & anc[v]:
                k = int(((data[u] > np.median(data[u])) == (data[v] > np.median(data[v]))).sum())
                G.frequency(sim, "dependence-without-path", k, n, 0.5, "%r and %r share no ancestor: %r" % (u, v, list(g.edges)))
    return True


def rejected(sim, M, SM):
    what = sim.pick(["cycle", "self loop", "default type", "schema type", "no cardinality", "leading zero", "continuous dist",
                     "binary dist", "categorical dist", "weight dist", "intercept dist", "negative inflation", "inflation above 1",
                     "inflation text"])
    nonlinear = bool(sim.draw(2)) and what not in ("weight dist", "intercept dist")
    g = SM.StructureModel()
    g.add_edges_from([("a", "b"), ("b", "c")])
    kw = dict(n_samples=5, seed=1)
    kind = what.split()[0]
    if what == "cycle":
        g.add_edge("c", "a")
    elif what == "self loop":
        g.add_edge("b", "b")
    elif what == "default type":
        kw["default_type"] = sim.pick(["ordinal", "", "real"])
    elif what == "schema type":
        kw["schema"] = {sim.pick("abc"): sim.pick(["ordinal", "", "real"])}
    elif what in ("no cardinality", "leading zero"):
        t = "categorical" if what == "no cardinality" else sim.pick(["categorical:0", "categorical:03"])
        kw.update(sim.pick([{"schema": {"b": t}}, {"default_type": t}]))
    elif kind in ("continuous", "binary", "categorical"):
        kw["default_type"] = kind + (":3" if kind == "categorical" else "")
        kw["distributions"] = {kind: sim.pick(["nope", "", "poisson"])}
    elif kind in ("weight", "intercept"):
        kw["distributions"] = {kind: sim.pick(["nope", "logit"])}
    else:
        kw["default_type"] = "count"
        kw["distributions"] = {"count": {"negative inflation": -0.1, "inflation above 1": 1.5, "inflation text": "0.5"}[what]}
    sim.fault("bad_input:" + what)
    sim.sched("bad", what, nonlinear)
    try:
        generate(sim, M, g, nonlinear, G.Rng(sim), **kw)
    except ValueError as e:
        if stub_gap(e) is not None:
            raise
        return True
    sim.fail("accepted-bad-input", "%s accepted %s (%r)" % ("nonlinear_sem_generator" if nonlinear else "sem_generator", what, kw))


def run(sim):
    M, SM = G.load()
    sim.choose_set_order()
    np.random.seed(sim.draw(2 ** 32))
    what = sim.pick([formed, formed, formed, equations, equations, smooth, frequencies, frequencies, correlations, rejected])
    if what(sim, M, SM):
        sim.nontrivial = True
    sim.units[what.__name__] += 1
