"""Stand-in for the part of pgmpy that causalnex uses (pgmpy is absent here).

``BayesianModel.fit`` really counts (maximum likelihood, K2 and BDeu); a property can replace the fitted
tables or make the call fail through PLAN.
"""
from itertools import product

import networkx as nx
import numpy as np


class Plan:
    """What the collaborator does: tables to hand out, faults to raise."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.tables = None      # callable(model) -> [TabularCPD] or None
        self.fail = None        # callable(stage) -> exception or None
        self.calls = 0


PLAN = Plan()


def _stage(name):
    if PLAN.fail is not None:
        e = PLAN.fail(name)
        if e is not None:
            raise e


class TabularCPD:
    def __init__(self, variable, variable_card, values, evidence=None, evidence_card=None, state_names=None):
        self.variable = variable
        self.variable_card = variable_card
        self.variables = [variable] + list(evidence or [])
        self.cardinality = np.array([variable_card] + list(evidence_card or []))
        self.state_names = state_names
        self.values = np.array(values, dtype=float).reshape(tuple(int(c) for c in self.cardinality))

    def get_cardinality(self, variables):
        return {v: int(self.cardinality[self.variables.index(v)]) for v in variables}

    def scope(self):
        return list(self.variables)

    def normalize(self, inplace=True):
        t = self if inplace else self.copy()
        v = t.get_values()
        t.values = (v / v.sum(axis=0)).reshape(t.values.shape)
        return None if inplace else t

    def get_values(self):
        return self.values.reshape(self.variable_card, -1)

    def get_evidence(self):
        return self.variables[:0:-1]

    def copy(self):
        return TabularCPD(self.variable, self.variable_card, self.values.copy(), self.variables[1:],
                          list(self.cardinality[1:]), self.state_names)


class _Estimator:
    def __init__(self, model, data, state_names=None, **k):
        self.model, self.data = model, data
        self.state_names = state_names or {c: sorted(data[c].unique()) for c in data.columns}

    def _counts(self, node):
        parents = sorted(self.model.get_parents(node))
        states = list(self.state_names[node])
        axes = [list(self.state_names[p]) for p in parents]
        out = np.zeros((len(states),) + tuple(len(a) for a in axes))
        cols = [self.data[c].tolist() for c in [node] + parents]
        look = [{s: i for i, s in enumerate(a)} for a in [states] + axes]
        for row in zip(*cols):
            if any(v not in m for v, m in zip(row, look)):
                raise ValueError("Data contains unexpected states for variable: %s" % node)
            out[tuple(m[v] for v, m in zip(row, look))] += 1
        return parents, states, axes, out

    def _pseudo(self, kw, shape):
        return np.zeros(shape)

    def get_parameters(self, **kw):
        out = []
        for node in sorted(self.model.nodes):
            _stage("estimate")
            parents, states, axes, c = self._counts(node)
            c = c + self._pseudo(kw, c.shape)
            flat = c.reshape(len(states), -1)
            tot = flat.sum(axis=0)
            flat = np.where(tot > 0, flat / np.where(tot > 0, tot, 1), 1.0 / len(states))
            out.append(TabularCPD(node, len(states), flat, parents, [len(a) for a in axes],
                                  dict(zip([node] + parents, [states] + axes))))
        return out


class MaximumLikelihoodEstimator(_Estimator):
    pass


class BayesianEstimator(_Estimator):
    def _pseudo(self, kw, shape):
        prior = kw.get("prior_type", "BDeu")
        if prior == "K2":
            return np.ones(shape)
        if prior == "BDeu":
            ess = kw.get("equivalent_sample_size") or 5
            return np.full(shape, ess / float(np.prod(shape)))
        raise ValueError("'prior_type' not specified")


class BayesianModel(nx.DiGraph):
    def __init__(self, ebunch=None):
        super().__init__()
        if ebunch:
            self.add_edges_from(ebunch)
        self.cpds = []

    def add_edge(self, u, v, **kw):
        if u == v:
            raise ValueError("Self loops are not allowed.")
        if u in self.nodes and v in self.nodes and nx.has_path(self, v, u):
            raise ValueError("Loops are not allowed. Adding the edge from (%s->%s) forms a loop." % (u, v))
        super().add_edge(u, v, **kw)

    def add_edges_from(self, ebunch, **kw):
        for e in list(ebunch):
            self.add_edge(*e[:2], **kw)

    def get_parents(self, node):
        return list(self.predecessors(node))

    def get_cpds(self, node=None):
        if node is None:
            return self.cpds
        for c in self.cpds:
            if c.variable == node:
                return c
        return None

    def add_cpds(self, *cpds):
        for c in cpds:
            for i, old in enumerate(self.cpds):
                if old.variable == c.variable:
                    self.cpds[i] = c
                    break
            else:
                self.cpds.append(c)

    def get_cardinality(self, node=None):
        card = {c.variable: int(c.variable_card) for c in self.cpds}
        return card if node is None else card[node]

    def check_model(self):
        for n in self.nodes:
            c = self.get_cpds(n)
            if c is None:
                raise ValueError("No CPD associated with %s" % (n,))
            if set(c.variables[1:]) != set(self.get_parents(n)):
                raise ValueError("CPD associated with %s doesn't have proper parents associated with it." % (n,))
            if not np.allclose(c.get_values().sum(axis=0), 1, atol=0.01):
                raise ValueError("Sum or integral of conditional probabilities for node %s is not equal to 1." % (n,))
        return True

    def get_children(self, node):
        return list(self.successors(node))

    def get_roots(self):
        return [n for n, k in self.in_degree() if k == 0]

    def get_leaves(self):
        return [n for n, k in self.out_degree() if k == 0]

    def remove_cpds(self, *cpds):
        for c in cpds:
            self.cpds.remove(self.get_cpds(c) if isinstance(c, str) else c)

    def copy(self, as_view=False):
        m = BayesianModel()
        m.add_nodes_from(self.nodes(data=True))
        nx.DiGraph.add_edges_from(m, self.edges(data=True))
        m.cpds = [c.copy() for c in self.cpds]
        return m

    def fit(self, data, estimator=None, state_names=None, complete_samples_only=True, n_jobs=-1, **kwargs):
        PLAN.calls += 1
        _stage("start")
        if PLAN.tables is not None:
            fitted = PLAN.tables(self)
        else:
            est = (estimator or MaximumLikelihoodEstimator)(self, data, state_names=state_names)
            fitted = est.get_parameters(**kwargs)
        _stage("end")
        self.add_cpds(*fitted)

    # -- inference by enumeration
    def _posterior(self, given):
        names = list(self.nodes)
        card = {c.variable: c.variable_card for c in self.cpds}
        out = []
        for vals in product(*[[given[n]] if n in given else range(card[n]) for n in names]):
            a = dict(zip(names, (int(v) for v in vals)))
            p = 1.0
            for c in self.cpds:
                p *= c.values[tuple(a[v] for v in c.variables)]
            out.append((a, p))
        tot = sum(p for _, p in out)
        return [(a, p / tot if tot else float("nan")) for a, p in out]

    def _missing(self, data):
        extra = set(data.columns) - set(self.nodes)
        if extra:
            raise ValueError("Data has variables which are not in the model")
        miss = [n for n in self.nodes if n not in data.columns]
        if not miss:
            raise ValueError("No variable missing in data. Nothing to predict")
        return miss

    def predict(self, data, n_jobs=-1):
        import pandas as pd
        miss = self._missing(data)
        rows = []
        for _, row in data.iterrows():
            post = self._posterior(row.to_dict())
            best = max(post, key=lambda t: t[1])[0]
            rows.append([best[m] for m in miss])
        return pd.DataFrame(rows, index=data.index, columns=miss)

    def predict_probability(self, data):
        import pandas as pd
        miss = self._missing(data)
        card = {c.variable: c.variable_card for c in self.cpds}
        cols = [(m, s) for m in miss for s in range(card[m])]
        rows = []
        for _, row in data.iterrows():
            post = self._posterior(row.to_dict())
            rows.append([sum(p for a, p in post if a[m] == s) for m, s in cols])
        return pd.DataFrame(rows, index=data.index, columns=["%s_%s" % c for c in cols])


def register(stubs):
    def est(m):
        m.MaximumLikelihoodEstimator, m.BayesianEstimator = MaximumLikelihoodEstimator, BayesianEstimator

    def models(m):
        m.BayesianModel = m.BayesianNetwork = BayesianModel

    def factors(m):
        m.TabularCPD = TabularCPD
    stubs["pgmpy"] = lambda m: None
    stubs["pgmpy.estimators"] = est
    stubs["pgmpy.models"] = models
    stubs["pgmpy.factors"] = lambda m: None
    stubs["pgmpy.factors.discrete"] = factors
