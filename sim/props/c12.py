"""C12: an interrupted intervention is recovered by retrying the call or resetting the node."""
from .. import bnmodel as M
from ..core import InjectedError, SimCrash, SimStop, Violation, stepping
from . import infer as I
from .c11 import isolates_other
from .common import QUERY_BUDGET

LEVEL = "fault_enumeration"
TECH = ("seeded simulation with fault injection: asynchronous exceptions at any executed line of do_intervention, reset_do, "
        "query and construction; later answers judged against the exact before/after networks")
NOTE = "pandas and pgmpy are stand-ins; inference, network and belief propagation are the real code."
RUNS = {"quick": 1600, "thorough": 80000}
RULE = ("one run = one network, one engine and 2-5 operations of which most are interrupted at a line chosen uniformly over "
        "the operation's length; afterwards queries must match one of the candidate networks (or fail), and the repeated "
        "call or a reset must bring the exact state; non-trivial = an interruption landed inside a state-changing call; "
        "distinct = distinct (operation, location) history")
REAL, STUB = I.REAL, I.STUB + ["asynchronous exceptions (raised at a chosen line of causalnex)"]
ASSUMPTIONS = I.ASSUME + ["asynchronous exceptions arrive at line boundaries of causalnex code"]
setup = I.setup
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError]


def key(interv):
    return tuple(sorted((v, tuple(sorted((repr(s), p) for s, p in d.items()))) for v, d in interv.items()))


def run(sim):
    S, N, INF = I.load()
    import pandas as pd
    sim.choose_set_order()
    net = I.gen(sim, 2, 5, max_joint=150)
    bn = I.build_bn(sim, S, N, net, pd)
    sim.note("net", net.describe())
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    ie = None
    if sim.chance(1, 4):
        exc, s, _ = interrupted(sim, lambda: INF.InferenceEngine(bn), lambda: INF.InferenceEngine(bn))
        sim.sched("construct", s.where)
    with stepping(sim, budget=QUERY_BUDGET):
        ie = INF.InferenceEngine(bn)
        twin = INF.InferenceEngine(bn)         # only used to measure operation lengths
    cands = [{}]                               # intervention sets the engine may be in
    I.ask(sim, net, ie, {}, "fresh engine")
    for step in range(sim.between(2, 5)):
        v = sim.pick(net.vars)
        op = sim.draw(4)
        where = "step %d" % step
        if op == 3:
            obs = M.gen_evidence(sim, net)
            exc, s, _ = interrupted(sim, lambda: ie.query(dict(obs)), lambda: ie.query(dict(obs)), fallible=True)
            sim.sched("query", s.where)
            cands = observe(sim, net, ie, cands, where + " after an interrupted query")
            continue
        if op == 2:
            if cands[0] and sim.draw(2):
                v = sim.pick(cands[0])
            new = [{k: d for k, d in c.items() if k != v} for c in cands]
            arg = None

            def call(e, v=v):
                e.reset_do(v)
            legal = [True] * len(cands)
        else:
            exact, given = I.gen_dist(sim, net.dom[v])
            if sim.draw(2):
                s0 = sim.pick(net.dom[v])
                exact, given = {x: int(x == s0) for x in net.dom[v]}, s0
            new = [dict([(k, d) for k, d in c.items() if k != v] + [(v, exact)]) for c in cands]

            def call(e, v=v, given=given):
                e.do_intervention(v, dict(given) if isinstance(given, dict) else given)
            legal = [bool(I.children(I.effective(net, c), v)) and not isolates_other(I.effective(net, c), v) for c in cands]
        if not all(legal):
            continue
        faulty = sim.draw(4) != 0
        if faulty:
            twin.reset_do(v)
            exc, s, done = interrupted(sim, lambda: call(ie), lambda: call(twin))
            twin.reset_do(v)
            sim.sched("op", op, v, s.where)
            if exc is None:
                cands = new
            else:
                sim.nontrivial = True
                cands = observe(sim, net, ie, dedup(cands + new), "%s after an interrupted %s(%s) at %s" % (
                    where, "do" if op < 2 else "reset", v, s.where))
                how = sim.draw(3)
                if how == 0:                   # repeat the call
                    with stepping(sim, budget=QUERY_BUDGET):
                        call(ie)
                    cands = new
                    sim.units["recovered_by_retry"] += 1
                elif how == 1:                 # or reset the node
                    with stepping(sim, budget=QUERY_BUDGET):
                        ie.reset_do(v)
                    cands = dedup([{k: d for k, d in c.items() if k != v} for c in cands])
                    sim.units["recovered_by_reset"] += 1
                else:
                    continue                   # or carry on without recovering
        else:
            with stepping(sim, budget=QUERY_BUDGET):
                call(ie)
            cands = dedup(new)
        # a completed call: the engine must answer again
        cands = observe(sim, net, ie, cands, where + " after a completed call", must=True)
    with stepping(sim, budget=QUERY_BUDGET):
        for v in sim.shuffled(net.vars):
            ie.reset_do(v)
    I.ask(sim, net, ie, {}, "after resetting every node")
    with stepping(sim, budget=QUERY_BUDGET):
        again = INF.InferenceEngine(bn)
    I.ask(sim, net, again, {}, "a new engine from the same network")


def dedup(cands):
    return list({key(c): c for c in cands}.values())


def interrupted(sim, op, dry, fallible=False):
    """Run op with one asynchronous exception at a line chosen over its length (measured on a dry run)."""
    try:
        with stepping(sim, budget=QUERY_BUDGET) as d:
            dry()
    except (SimStop, Violation):
        raise
    except Exception:
        if not fallible:
            raise
    at = 1 + sim.draw(max(1, d.steps))
    if sim.chance(1, 3):
        at = 1 + sim.draw(min(40, max(1, d.steps)))      # the state changes happen early
    exc = sim.pick(EXCS)("injected")
    try:
        with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as s:
            op()
    except BaseException as e:
        if s.injected:
            from .c06 import caused_by
            if e is not exc and not caused_by(e, exc):
                raise
            sim.fault("async_exception:" + type(exc).__name__)
            return exc, s, False
        if isinstance(e, (SimStop, Violation)) or not fallible or not isinstance(e, Exception):
            raise
        return None, s, False
    if s.injected and isinstance(exc, (SimCrash, KeyboardInterrupt, MemoryError)):
        sim.fail("interrupt-swallowed", "injected %r at %s vanished" % (exc, s.where))
    return None, s, True


def observe(sim, net, ie, cands, where, must=False):
    """Query; keep the candidates that explain the answer.  A failing query is allowed unless must."""
    obs = {}
    if sim.chance(1, 3):
        obs = M.gen_evidence(sim, I.effective(net, cands[-1]), possible_only=True)
    possible = [c for c in cands if I.effective(net, c).posterior(obs) is not None]
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            res = ie.query(dict(obs))
    except (SimStop, Violation):
        raise
    except Exception as e:
        if must and len(possible) == len(cands):
            raise
        sim.probe("query_failed_before_recovery")
        return cands
    errors, left = [], []
    for c in cands:
        try:
            I.judge(sim, I.effective(net, c), obs, res, where)
            left.append(c)
        except Violation as v:
            errors.append(v)
    if not left:
        sim.fail("mixed-state" if len(cands) > 1 else "wrong-posterior", "%s: the answer matches none of the %d possible "
                 "intervention sets %r; %s" % (where, len(cands), cands, errors[0].msg))
    sim.units["queries"] += 1
    return left
