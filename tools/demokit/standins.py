"""Lets a demonstration import causalnex where pandas, scikit-learn, pgmpy and torch are absent."""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types
import warnings

import minipandas
import minipgmpy
import minisklearn

STUBS = {"pandas": minipandas.fill, "causalnex.structure.pytorch": lambda m: None}
minisklearn.register(STUBS)
minipgmpy.register(STUBS)


def _absent(m):
    m.DAGRegressor = type("DAGRegressor", (), {})
    m.DAGClassifier = type("DAGClassifier", (), {})


if importlib.util.find_spec("minitorch"):
    import minitorch
    minitorch.register(STUBS)
    del STUBS["causalnex.structure.pytorch"]
else:
    STUBS["causalnex.structure.pytorch.sklearn"] = _absent


class _Loader(importlib.abc.Loader):
    def __init__(self, fill):
        self.fill = fill

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        self.fill(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name in STUBS:
            return importlib.machinery.ModuleSpec(name, _Loader(STUBS[name]), is_package=True)
        return None


sys.meta_path.insert(0, _Finder())
warnings.simplefilter("ignore")
import pandas as pd  # noqa: E402
from causalnex.structure import StructureModel  # noqa: E402


def engine_module():
    """causalnex.inference.inference, which builds functions with Python 3.8's CodeType signature."""
    import codeshim
    m = importlib.import_module("causalnex.inference.inference")
    m.types = codeshim.make_types_proxy()
    return m


class Net:
    """A fitted network: {node: (parents, {parent states: {state: p}})}."""

    def __init__(self, spec):
        self.cpds = {}
        for v, (parents, rows) in spec.items():
            states = sorted(next(iter(rows.values())))
            if parents:
                cols = pd.MultiIndex.from_tuples(list(rows), names=list(parents))
            else:
                cols = [""]
            data = [[rows[k][s] for k in rows] for s in states]
            self.cpds[v] = pd.DataFrame(data, index=states, columns=cols)
        self.nodes = list(spec)
        self.edges = [(p, v) for v, (ps, _) in spec.items() for p in ps]

    def __iter__(self):
        return iter(self.nodes)
