"""Shared by C11-C13 and C23: a real BayesianNetwork / InferenceEngine for a model network."""
from fractions import Fraction

from .. import bnmodel as M
from .. import loader, stubs
from ..core import Violation, SimStop, stepping
from ..stubs import minipgmpy as PG
from .common import QUERY_BUDGET

REAL = ["causalnex.inference", "causalnex.network", "causalnex.ebaybbn", "causalnex.structure.structuremodel "
        "(all from /repo's working tree)", "networkx"]
STUB = ["set iteration order (SimSet)", "pandas (small stand-in)", "pgmpy (stand-in; hands out the generated tables)",
        "types.CodeType (translated to this interpreter's signature)", "torch/sklearn estimators (absent)"]
ASSUME = ["pandas and pgmpy are absent here: the stand-ins follow their documented behaviour for what causalnex uses",
          "networks stay small enough for exact enumeration (<= ~1000 joint states)",
          "float answers are compared with exact rationals within 1e-9",
          "sampled histories and faults: a clean batch is evidence, not proof"]
DOMAINS = [[False, True], ["lo", "hi"], ["hi", "lo", "mid"], [0, 1, 2], [3, 5], ["x", "y", "z", "w"], [10, 2, 7],
           ["only"], [0.5, 1.5], [1, 0], ["", "a"], list(range(11)), [-2, -1, 0], ["a", "A"]]
NAMES = ["a", "b", "c", "d", "e", "A", "B", "ab", "a_b", "x1", "x10", "1", "0x", "if", "rush_hour", "_p"]


def setup():
    stubs.install()


def load():
    return loader.fresh("causalnex.structure", "causalnex.network", "causalnex.inference")


def gen(sim, lo=2, hi=5, max_joint=300):
    return M.gen_net(sim, lo, hi, max_joint=max_joint, connected=True, domains=DOMAINS, names=NAMES)


def tables(net, rng=None):
    """pgmpy-shaped tables of the model network (parents and states sorted, as pgmpy keeps them)."""
    def make(model):
        out = []
        nodes = list(model.nodes)
        if rng is not None:
            rng.shuffle(nodes)
        for v in nodes:
            pars = sorted(net.par[v])
            axes = [sorted(net.dom[p]) for p in pars]
            vals = []
            for s in sorted(net.dom[v]):
                row = []
                for key in M.product(*axes):
                    a = dict(zip(pars, key))
                    row.append(float(net.cpt[v][tuple(a[p] for p in net.par[v])][s]))
                vals.append(row)
            out.append(PG.TabularCPD(v, len(net.dom[v]), vals, pars, [len(x) for x in axes]))
        return out
    return make


def build_bn(sim, S, N, net, pd, shuffle=True):
    """A fitted BayesianNetwork whose conditionals are exactly the model's."""
    sh = sim.shuffled if shuffle else list
    sm = S.StructureModel()
    sm.add_edges_from(sh([(p, v) for v in net.vars for p in net.par[v]]))
    bn = N.BayesianNetwork(sm)
    n = max(len(d) for d in net.dom.values())
    df = pd.DataFrame({v: [net.dom[v][i % len(net.dom[v])] for i in range(n)] for v in sh(net.vars)})
    PG.PLAN.tables = tables(net, sim.substream() if shuffle else None)
    bn.fit_node_states(df)
    bn.fit_cpds(df)
    PG.PLAN.tables = None
    return bn


def effective(net, interv):
    for v, d in interv.items():
        net = net.copy_with(v, d)
    return net


def flat(res):
    return {(n, s): p for n, d in res.items() for s, p in d.items()}


def judge(sim, net, obs, res, where):
    sim.check(isinstance(res, dict) and all(isinstance(d, dict) for d in res.values()), "wrong-answer",
              lambda: "%s: query returned %r" % (where, res))
    return M.judge_marginals(sim, net, obs, flat(res), where)


def ask(sim, net, ie, obs, where):
    """Query and judge; impossible observations may be refused."""
    given = dict(obs)
    style = sim.draw(2) if not obs else 0
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            res = (ie.query() if style else ie.query({})) if not obs else ie.query(given)
    except (SimStop, Violation):
        raise
    except Exception as e:
        if net.posterior(obs) is None and not isinstance(e, (RecursionError, AttributeError, NameError)):
            sim.probe("impossible_observations_refused")
            return
        raise
    sim.check(given == obs, "observations-mutated", lambda: "%s: %r became %r" % (where, obs, given))
    judge(sim, net, obs, res, where)
    # the answer belongs to the caller
    for d in res.values():
        d.clear()
    sim.units["queries"] += 1


def gen_dist(sim, dom):
    """A valid distribution over dom: (exact, what is passed to the engine)."""
    style = sim.draw(6)
    n = len(dom)
    if style == 0:
        w = [1] * n
    elif style == 1:
        hit = sim.draw(n)
        w = [int(i == hit) for i in range(n)]
    elif style == 2:
        w = [sim.draw(3) for _ in range(n)]
        if not any(w):
            w[0] = 1
    elif style == 3:
        w = [1 + sim.draw(2) * 10 ** (1 + sim.draw(7)) for _ in range(n)]
    else:
        w = [1 + sim.draw(9) for _ in range(n)]
    tot = sum(w)
    exact = {s: Fraction(x, tot) for s, x in zip(dom, w)}
    if sim.draw(3) == 2 and set(exact.values()) <= {0, 1}:
        given = {s: int(p) for s, p in exact.items()}
    else:
        given = {s: float(p) for s, p in exact.items()}
    order = sim.shuffled(list(given))
    return exact, {M.equal_copy(s) if sim.draw(2) else s: given[s] for s in order}


def children(net, v):
    return [c for c in net.vars if v in net.par[c]]


def bad_state(sim, net, v):
    """An invalid state argument for do_intervention on v: (label, value)."""
    dom = net.dom[v]
    kind = sim.draw(6)
    exact, given = gen_dist(sim, dom)
    if kind == 0:
        return "unknown-state", sim.pick(["not-a-state", -17, 3.25])
    if kind == 1 and len(dom) > 1:
        drop = sim.pick(dom)
        g = {s: p for s, p in given.items() if s != drop}
        tot = sum(g.values())
        return "missing-state", ({s: p / tot for s, p in g.items()} if tot else {s: 1.0 / len(g) for s in g})
    if kind == 2:
        g = dict(given)
        g["not-a-state"] = 0.0
        return "extra-state", g
    if kind == 3:
        g = dict(given)
        s = sim.pick(list(g))
        g[s] = g[s] + sim.pick([1e-3, -1e-3, 0.5, -0.5, 1.0, 0.01])
        return "sum-not-one", g
    if kind == 4 and len(dom) > 1:
        a, b = sim.shuffled(dom)[:2]
        g = {s: 0.0 for s in dom}
        x = sim.pick([0.25, 1e-3, 1.0])
        g[a], g[b] = 1.0 + x, -x
        if len(dom) > 2 and sim.draw(3):       # a negative entry although no entry exceeds 1
            c = [s for s in dom if s not in (a, b)][0]
            x = sim.pick([0.25, 0.5, 1e-3])
            g[a], g[b], g[c] = 0.5 + x, -x, 0.5
        return "out-of-range", g
    g = {s: 0.0 for s in dom}
    return "all-zero", g
