"""Stand-ins for pygraphviz, matplotlib and IPython.display (absent here), as far as causalnex.plots uses them.

Layout and rendering run an external program in the real package: PLAN makes them fail, or the packages absent.
"""
import numpy as np


class Plan:
    def __init__(self):
        self.reset()

    def reset(self):
        self.fail = None        # callable(stage, prog) -> exception or None
        self.calls = []         # (stage, prog) of every external program run


PLAN = Plan()
PROGS = ["neato", "dot", "twopi", "circo", "fdp", "nop", "osage", "patchwork", "gc", "acyclic", "gvpr", "gvcolor", "ccomps",
         "sccmap", "tred", "sfdp", "unflatten"]


def _external(stage, prog):
    PLAN.calls.append((stage, prog))
    if prog not in PROGS:
        raise ValueError("Program %s is not one of: %s." % (prog, ", ".join(PROGS)))
    if PLAN.fail is not None:
        e = PLAN.fail(stage, prog)
        if e is not None:
            raise e


class Attr:
    """Attributes are strings; one set anywhere exists everywhere (empty)."""

    def __init__(self, known):
        self._d, self._known = {}, known

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise TypeError("attribute names are strings, not %r" % (k,))
        self._known.add(k)
        self._d[k] = v if isinstance(v, str) else str(v)

    def __getitem__(self, k):
        return self._d.get(k, "" if k in self._known else None)

    def __contains__(self, k):
        return k in self._d

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def get(self, k, default=None):
        return self._d.get(k, default)

    def keys(self):
        return list(self._d)

    def items(self):
        return list(self._d.items())

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def to_dict(self):
        return dict(self._d)


class Node(str):
    attr = None


class Edge(tuple):
    attr = None


class AGraph:
    def __init__(self, thing=None, name="", strict=True, directed=False, **attr):
        if thing is not None:
            raise AttributeError("pygraphviz stand-in: AGraph(%r)" % (thing,))
        self.name, self.strict, self.directed = name, strict, directed
        self._known = [set(), set(), set()]
        self.graph_attr, self.node_attr, self.edge_attr = (Attr(k) for k in self._known)
        self.graph_attr.update(attr)
        self._nodes, self._edges = {}, {}
        self.has_layout = False

    def is_directed(self):
        return self.directed

    def add_node(self, n, **attr):
        n = str(n)
        if n not in self._nodes:
            self._nodes[n] = Node(n)
            self._nodes[n].attr = Attr(self._known[1])
        self._nodes[n].attr.update(attr)

    def get_node(self, n):
        return self._nodes[str(n)]

    def has_node(self, n):
        return str(n) in self._nodes

    def nodes(self):
        return list(self._nodes.values())

    def add_edge(self, u, v=None, key=None, **attr):
        if v is None:
            u, v = u
        self.add_node(u)
        self.add_node(v)
        e = (str(u), str(v))
        if e not in self._edges:
            self._edges[e] = Edge(e)
            self._edges[e].attr = Attr(self._known[2])
        self._edges[e].attr.update(attr)

    def get_edge(self, u, v, key=None):
        return self._edges[(str(u), str(v))]

    def has_edge(self, u, v=None, key=None):
        return (str(u), str(v)) in self._edges

    def edges(self, nbunch=None, keys=False):
        return list(self._edges.values())

    def number_of_nodes(self):
        return len(self._nodes)

    def number_of_edges(self):
        return len(self._edges)

    def __len__(self):
        return len(self._nodes)

    def __iter__(self):
        return iter(self.nodes())

    def __contains__(self, n):
        return self.has_node(n)

    def layout(self, prog="neato", args=""):
        _external("layout", prog)
        for i, n in enumerate(self._nodes.values()):
            n.attr["pos"] = "%d,%d" % (7 * i, len(prog))
        self.has_layout = True

    def draw(self, path=None, format=None, prog=None, args=""):
        if prog is None:
            if not self.has_layout:
                raise AttributeError("Graph has no layout information, see layout() or specify prog=...")
            prog = "nop"
        _external("draw", prog)
        if path is not None or format is None:
            raise AttributeError("pygraphviz stand-in: draw to a file")
        return ("%s %s %d %d" % (format, prog, len(self._nodes), len(self._edges))).encode()

    def to_string(self):
        return repr((self.graph_attr.items(), [(n, n.attr.items()) for n in self.nodes()],
                     [(e, e.attr.items()) for e in self.edges()]))

    def __str__(self):
        return self.to_string()


# ---------------------------------------------------------------- matplotlib and IPython
class Axes:
    def __init__(self):
        self.shown, self.off = [], False

    def imshow(self, a, **k):
        self.shown.append(a)

    def axis(self, what=None):
        self.off = self.off or what == "off"


class Figure:
    def __init__(self, figsize=None):
        self.figsize, self.pads = figsize, []

    def tight_layout(self, pad=1.08, **k):
        self.pads.append(pad)


class Image:
    def __init__(self, data=None, **k):
        self.data = data


def imread(f, format=None):
    kind, prog, n, m = f.read().decode().split()
    if kind != "png":
        raise ValueError("not a PNG file")
    a = np.zeros((3 + int(n), 5 + int(m), 4))
    a[0, 0, 0] = PROGS.index(prog)
    return a


def subplots(nrows=1, ncols=1, figsize=None, **k):
    FIGURES.append(Figure(figsize))
    return FIGURES[-1], Axes()


FIGURES = []
PACKAGES = ["pygraphviz", "pygraphviz.agraph", "matplotlib", "matplotlib.pyplot", "matplotlib.axes", "matplotlib.figure",
            "IPython", "IPython.display"]


def register(stubs):
    def put(**kw):
        def fill(m):
            for k, v in kw.items():
                setattr(m, k, v)
        return fill
    stubs["pygraphviz"] = put(AGraph=AGraph, Node=Node, Edge=Edge)
    stubs["pygraphviz.agraph"] = put(AGraph=AGraph)
    stubs["matplotlib"] = put()
    stubs["matplotlib.pyplot"] = put(imread=imread, subplots=subplots, Axes=Axes, Figure=Figure)
    stubs["matplotlib.axes"] = put(Axes=Axes)
    stubs["matplotlib.figure"] = put(Figure=Figure)
    stubs["IPython"] = put()
    stubs["IPython.display"] = put(Image=Image)
