"""Stand-ins for third-party packages that causalnex imports and this sandbox does not have.

``install()`` makes them importable; each is marked as a stub in the evidence.
"""
from . import minipandas, minipgmpy, minisklearn, minitorch
from .. import codeshim, loader


def _torch_sklearn(m):
    class _Absent:
        def __init__(self, *a, **k):
            raise minipandas.StubGap("PyTorch estimators are not simulated")
    m.DAGRegressor = type("DAGRegressor", (_Absent,), {})
    m.DAGClassifier = type("DAGClassifier", (_Absent,), {})


def install(torch=False):
    import importlib.util
    stubs = loader.STUB_MODULES
    stubs["pandas"] = minipandas.fill
    minisklearn.register(stubs)
    minipgmpy.register(stubs)
    if torch:
        stubs.pop("causalnex.structure.pytorch", None)
        stubs.pop("causalnex.structure.pytorch.sklearn", None)
        minitorch.register(stubs)
    else:
        stubs["causalnex.structure.pytorch"] = lambda m: None
        stubs["causalnex.structure.pytorch.sklearn"] = _torch_sklearn
    loader.PROXIES["types"] = codeshim.make_types_proxy()
