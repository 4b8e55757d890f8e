"""C06: a failure inside an operation surfaces and leaves no trace."""
import copy
import sys

from .. import bnmodel as M
from ..core import SIMRANDOM, InjectedError, SimCrash, SimStop, Violation, stepping
from .c05 import judge_sample
from .common import EBAY_ASSUME, EBAY_REAL, EBAY_STUB, QUERY_BUDGET, ask, build, load_ebay

LEVEL = "fault_enumeration"
RUNS = {"quick": 3500, "thorough": 150000}
RULE = ("one run = one network, 1-4 faulty operations (query, draw_samples, construction, join-tree use), each hit by one "
        "fault: an asynchronous exception at a line chosen uniformly over the operation's dry-run length, a factor "
        "callback raising on its n-th call, re-entrance (a factor querying the same network), stack exhaustion after "
        "k more frames, or invalid evidence; then the network must answer exactly; non-trivial = a fault fired inside "
        "an operation; distinct = distinct (operation, fault, location)")
REAL = EBAY_REAL
STUB = EBAY_STUB + ["asynchronous exceptions (raised at a chosen line of causalnex)", "remaining interpreter stack"]
ASSUMPTIONS = EBAY_ASSUME + ["asynchronous exceptions arrive at line boundaries of causalnex code"]
EXCS = [SimCrash, InjectedError, KeyboardInterrupt, MemoryError, SystemExit, ValueError, KeyError, StopIteration]


class World:
    def __init__(self):
        self.raise_at = None
        self.calls = 0
        self.exc = None
        self.reenter_at = None
        self.nested = None
        self.fired = 0


def run(sim):
    E = load_ebay()
    sim.choose_set_order()
    net = M.gen_net(sim, 1, 6, max_joint=600)
    w = World()

    def hook(v, asg):
        w.calls += 1
        if w.raise_at is not None and w.calls == w.raise_at:
            w.raise_at = None
            w.fired += 1
            raise w.exc
        if w.reenter_at is not None and w.calls == w.reenter_at:
            w.reenter_at = None
            w.fired += 1
            w.nested()
    use_hook = sim.chance(1, 2)
    bbn, how = build(sim, E, net, hook=hook if use_hook else None)
    gv = bbn.get_graphviz_source()
    conds = M.conditionals(sim, net)
    sim.note("net", net.describe(), how)
    if sim.run_index % 50 == 0:
        sim.sample = {"net": str(net.describe())}
    for i in range(sim.between(1, 4)):
        faulty_op(sim, E, net, bbn, conds, w, use_hook, i)
        # recovery: no trace of the failed operation
        sim.check(bbn.get_graphviz_source() == gv, "structure-changed", "graph text changed after a failed operation")
        sim.check(len(bbn.nodes) == len(net.vars), "structure-changed", "nodes %r" % (bbn.nodes,))
        ev = M.gen_evidence(sim, net)
        res = ask(sim, net, bbn, dict(ev))
        if res is not None:
            M.judge_marginals(sim, net, ev, res, "query after fault %d" % i)
        sim.units["recovery_queries"] += 1


def make_op(sim, E, net, bbn, conds):
    kind = sim.draw(5)
    ev = M.gen_evidence(sim, net, possible_only=True)
    if kind <= 1:
        given = {k: ev[k] for k in sim.shuffled(ev)}

        def op():
            return bbn.query(**given)

        def judge(out, where):
            M.judge_marginals(sim, net, ev, out, where)
        return "query", op, judge, (lambda: None)
    if kind == 2:
        given = dict(ev)
        n = sim.between(1, 3)
        seed = sim.draw(2 ** 20)

        def op():
            SIMRANDOM.seed(seed)
            return bbn.draw_samples(given, n) if given or sim_plain else bbn.draw_samples(n=n)
        sim_plain = sim.draw(2)

        def judge(out, where):
            sim.check(len(out) == n, "wrong-sample-count", where)
            for s in out:
                judge_sample(sim, net, ev, s, where)

        def after():
            sim.check(given == ev, "evidence-mutated", "caller's evidence %r became %r" % (ev, given))
        return "draw", op, judge, after
    if kind == 3:
        before = copy.deepcopy(conds)

        def op():
            return E.build_bbn_from_conditionals(conds)

        def judge(out, where):
            with stepping(sim, budget=QUERY_BUDGET):
                M.judge_marginals(sim, net, {}, out.query(), where + " then query")

        def after():
            sim.check(conds == before, "input-mutated", "conditional tables changed by construction")
        return "build", op, judge, after

    def op():
        jt = bbn.build_join_tree()
        asg = jt.assign_clusters(bbn)
        jt.initialize_potentials(asg, bbn, dict(ev))
        jt.propagate()
        return jt

    def judge(out, where):
        for n in bbn.nodes:
            want = net.subset_marginal([n.variable_name], ev)
            with stepping(sim, budget=QUERY_BUDGET):
                tt = out.marginal(n)
            for (x,), p in want.items():
                if not abs(float(tt.get(((n.variable_name, x),), 0)) - float(p)) <= 1e-9:
                    sim.fail("wrong-marginal", "%s: %r" % (where, dict(tt)))
    return "tree", op, judge, (lambda: None)


def faulty_op(sim, E, net, bbn, conds, w, use_hook, i):
    fault = sim.draw(7)
    if fault == 6:
        return invalid_evidence(sim, E, net, bbn)
    name, op, judge, after = make_op(sim, E, net, bbn, conds)
    where = "%s under fault" % name
    if fault in (3, 4) and not (use_hook and name != "build"):
        fault = 0
    if fault <= 2:
        with stepping(sim, budget=QUERY_BUDGET) as dry:      # measure the fault-free length first
            out = op()
        judge(out, "%s (dry run)" % name)
        at = 1 + sim.draw(max(1, dry.steps))
        exc = sim.pick(EXCS)("injected")
        try:
            with stepping(sim, budget=QUERY_BUDGET, inject_at=at, exc=exc) as s:
                out = op()
        except BaseException as e:
            s_where = s.where
            if e is not exc and not caused_by(e, exc):
                raise
            sim.fault("async_exception:" + type(exc).__name__)
            sim.sched(name, "interrupted", s_where)
            sim.nontrivial = True
            out = None
        else:
            sim.sched(name, "swallowed" if s.injected else "no fault", s.where)
            if s.injected:
                if isinstance(exc, (SimCrash, KeyboardInterrupt, SystemExit, MemoryError)):
                    sim.fail("interrupt-swallowed", "%s: injected %r at %s vanished" % (where, exc, s.where))
                sim.probe("exception_absorbed")
            judge(out, where)
    elif fault == 3:
        w.calls, w.fired = 0, 0
        w.exc = sim.pick(EXCS[:4] + [KeyError, IndexError, ValueError, ZeroDivisionError])("factor failed")
        w.raise_at = 1 + sim.draw(40)
        try:
            with stepping(sim, budget=QUERY_BUDGET):
                out = op()
        except BaseException as e:
            w.raise_at = None
            if not caused_by(e, w.exc):
                raise
            sim.fault("factor_raised:" + type(w.exc).__name__)
            sim.sched(name, "factor", w.calls)
            sim.nontrivial = True
        else:
            w.raise_at = None
            if w.fired:
                sim.fail("factor-failure-swallowed", "%s: a factor raised %r and the call returned %.200r" % (
                    where, w.exc, out))
            judge(out, where)
    elif fault == 4:
        ev2 = M.gen_evidence(sim, net, possible_only=True)
        w.calls, w.fired = 0, 0
        w.reenter_at = 1 + sim.draw(30)

        def nested():
            M.judge_marginals(sim, net, ev2, bbn.query(**ev2), "nested query")
        w.nested = nested
        with stepping(sim, budget=QUERY_BUDGET):
            out = op()
        w.reenter_at = None
        if w.fired:
            sim.fault("re_entered")
            sim.nontrivial = True
        sim.sched(name, "re-entered", w.calls)
        judge(out, where)
    else:
        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        room = 6 + sim.draw(40)
        old = sys.getrecursionlimit()
        out = None
        try:
            with stepping(sim, budget=QUERY_BUDGET):
                sys.setrecursionlimit(depth + room)
                try:
                    out = op()
                finally:
                    sys.setrecursionlimit(old)
        except RecursionError:
            sim.fault("stack_exhausted")
            sim.sched(name, "stack", room)
            sim.nontrivial = True
        else:
            sim.sched(name, "stack", room, "enough")
            judge(out, where)
    after()
    sim.units["faulty_" + name] += 1


def caused_by(e, exc):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is exc:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def invalid_evidence(sim, E, net, bbn):
    ev = M.gen_evidence(sim, net)
    bad = dict(ev)
    kind = sim.draw(3)
    if kind == 0:
        bad[sim.pick(["nope", "q_", "zz9"])] = True
        allowed = (E.VariableNotInGraphError,)
    elif kind == 1:
        v = sim.pick(net.vars)
        bad[v] = sim.pick([x for x in ["not-a-value", None, -17, 3.5, ("t", 3)] if x not in net.dom[v]])
        allowed = (E.VariableValueNotInDomainError,)
    else:
        v = sim.pick(net.vars)
        bad[v] = "not-a-value"
        bad["nope"] = False
        allowed = (E.VariableNotInGraphError, E.VariableValueNotInDomainError)
    bad = {k: bad[k] for k in sim.shuffled(bad)}
    keep = dict(bad)
    via = sim.draw(2)
    sim.sched("invalid", kind, via, bad)
    sim.fault("invalid_evidence")
    if via == 1 and len(bad) >= len(net.vars):
        via = 0                      # draw_samples has nothing left to draw
    try:
        with stepping(sim, budget=QUERY_BUDGET):
            out = bbn.query(**bad) if via == 0 else bbn.draw_samples(bad, 1)
    except allowed:
        sim.check(bad == keep, "evidence-mutated", "%r became %r" % (keep, bad))
        sim.nontrivial = True
        return
    except (SimStop, Violation):
        raise
    except Exception as e:
        sim.fail("wrong-error", "evidence %r: %s instead of %s" % (
            bad, type(e).__name__, "/".join(a.__name__ for a in allowed)))
    sim.fail("invalid-evidence-accepted", "evidence %r answered with %.200r" % (bad, out))
