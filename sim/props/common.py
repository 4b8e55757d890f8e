from .. import bnmodel as M
from .. import loader
from ..core import SimStop, Violation, stepping

EBAY_REAL = ["causalnex.ebaybbn (bbn, graph, utils, exceptions) from /repo's working tree"]
EBAY_STUB = ["set iteration order (SimSet)", "random module (SimRandom)", "time module (simulated clock)",
             "factor callbacks and domains (generated)"]
EBAY_ASSUME = ["networks stay small enough for exact enumeration (<= ~4000 joint states)",
               "float answers are compared with exact rationals within 1e-9",
               "sampled schedules and faults: a clean batch is evidence, not proof"]
QUERY_BUDGET = 6_000_000


def load_ebay():
    return loader.fresh("causalnex.ebaybbn")


def company(sim, E, names):
    """Another network of the same process whose variables (and factors) have the same names, in use."""
    other = M.gen_net(sim, 1, min(len(names), 5), names=list(names), max_joint=100)
    bbn, _ = build(sim, E, other, alone=True)
    with stepping(sim, budget=QUERY_BUDGET):
        if sim.draw(2):
            bbn.query()
        if sim.draw(3) == 2:
            bbn.build_join_tree()
        if sim.draw(4) == 3:
            bbn.draw_samples({}, 2)
        if sim.draw(4) == 3:
            bbn.get_graphviz_source()
    sim.probe("namesake network")
    return bbn


def build(sim, E, net, hook=None, ways=3, shuffle=True, alone=False):
    """Build the real BBN for a model network through a tape-chosen public constructor, sometimes next to a namesake."""
    when = 0 if alone else sim.draw(10)
    if when == 9:
        company(sim, E, net.vars)
    bbn, how = _build(sim, E, net, hook, ways, shuffle)
    if when == 8:
        company(sim, E, net.vars)
    return bbn, how


def _build(sim, E, net, hook, ways, shuffle):
    way = sim.draw(ways)
    with stepping(sim, budget=QUERY_BUDGET):
        if way == 0 and hook is None:
            return E.build_bbn_from_conditionals(M.conditionals(sim, net, shuffle)), "conditionals"
        if way == 2:
            names = {v: n for v, n in zip(net.vars, sim.shuffled(["g%d" % i for i in range(len(net.vars))]))}
        else:
            names = None
        fs = M.Factors(sim, net, argspec=sim.draw(2) == 0, shuffle=shuffle, hook=hook, names=names)
        doms = M.domains_arg(sim, net, shuffle)
        if sim.draw(2):
            return E.build_bbn(list(fs.functions), domains=doms), "factor-list"
        return E.build_bbn(*fs.functions, domains=doms), "factor-args"


def ask(sim, net, bbn, evidence):
    """bbn.query(**evidence).  None when evidence is impossible and the library refuses."""
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            return bbn.query(**evidence)
    except (SimStop, Violation):
        raise
    except Exception as e:
        if net.posterior(evidence) is None and not isinstance(e, (RecursionError, AttributeError, NameError)):
            return None
        raise
