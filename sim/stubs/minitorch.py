"""A small stand-in for PyTorch (absent here): eager float32 tensors over numpy with reverse-mode differentiation.

Only what causalnex.structure.pytorch uses; anything else raises StubGap.  Two seams belong to the simulator:
``SEAM.uniform(shape, lo, hi)`` supplies nn.init.uniform_'s random numbers and ``SEAM.garbage(shape)`` the contents of
uninitialised memory (torch.Tensor(sizes), torch.empty).
"""
import functools
import threading

import numpy as np

try:
    from .minipandas import StubGap
except ImportError:
    from minipandas import StubGap

_state = threading.local()


class _Seam:
    uniform = staticmethod(lambda shape, lo, hi: np.random.uniform(lo, hi, shape))
    garbage = staticmethod(lambda shape: np.zeros(shape))


SEAM = _Seam()


def _grad_on():
    return getattr(_state, "on", True)


class no_grad:
    def __enter__(self):
        self.prev = _grad_on()
        _state.on = False

    def __exit__(self, *a):
        _state.on = self.prev
        return False

    def __call__(self, f):
        @functools.wraps(f)
        def wrapped(*a, **k):
            with no_grad():
                return f(*a, **k)
        return wrapped


class device:
    def __init__(self, name):
        self.type = str(name)

    def __repr__(self):
        return "device(type=%r)" % self.type

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)


_CPU = device("cpu")
float32 = np.dtype("float32")
float64 = np.dtype("float64")
int64 = np.dtype("int64")
int32 = np.dtype("int32")


class Size(tuple):
    def numel(self):
        return int(np.prod(self, dtype=np.int64))


def _arr(x):
    return x._a if isinstance(x, Tensor) else x


def _unbroadcast(g, shape):
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for k, n in enumerate(shape):
        if n == 1 and g.shape[k] != 1:
            g = g.sum(axis=k, keepdims=True)
    return g


def _kind(dt):
    return {"b": 0, "i": 1, "u": 1, "f": 2}[dt.kind]


def _pair(a, b):
    """torch's promotion: a 0-dim operand only counts when its category is higher."""
    if not isinstance(b, Tensor):
        if isinstance(b, np.ndarray):
            raise StubGap("tensor and numpy array mixed in arithmetic")
        if isinstance(b, (bool, np.bool_)):
            b = Tensor._wrap(np.array(b))
        elif isinstance(b, (int, np.integer)):
            b = Tensor._wrap(np.array(b, dtype=np.int64))
        elif isinstance(b, (float, np.floating)):
            b = Tensor._wrap(np.array(b, dtype=np.float32 if _kind(a._a.dtype) == 2 else np.float32)
                             if _kind(a._a.dtype) != 2 else np.array(b, dtype=a._a.dtype))
        else:
            return a, None, None
    x, y = a._a.dtype, b._a.dtype
    if a._a.ndim == 0 and b._a.ndim > 0 and _kind(x) <= _kind(y):
        dt = y
    elif b._a.ndim == 0 and a._a.ndim > 0 and _kind(y) <= _kind(x):
        dt = x
    elif _kind(x) != _kind(y):
        dt = x if _kind(x) > _kind(y) else y
    else:
        dt = np.promote_types(x, y)
    return a, b, dt


class Node:
    """One value in the differentiation graph; an in-place operation gives the tensor a new node."""
    __slots__ = ("parents", "requires_grad", "shape", "dtype", "leaf")

    def __init__(self, a, parents, requires_grad, leaf):
        self.parents, self.requires_grad, self.shape, self.dtype, self.leaf = parents, requires_grad, a.shape, a.dtype, leaf


class Tensor:
    __array_priority__ = 1000
    is_sparse = False

    def __init__(self, *size):
        if len(size) == 1 and isinstance(size[0], (list, np.ndarray)):
            self._set(np.array(size[0], dtype=np.float32))
        else:
            if len(size) == 1 and isinstance(size[0], tuple):
                size = size[0]
            self._set(np.array(SEAM.garbage(tuple(int(s) for s in size)), dtype=np.float32))

    def _set(self, a, parents=(), requires_grad=False):
        self._a = a
        self._node = Node(a, tuple(parents), requires_grad, None if parents else self)
        self.grad = None

    @property
    def requires_grad(self):
        return self._node.requires_grad

    @requires_grad.setter
    def requires_grad(self, flag):
        self._node.requires_grad = flag

    @classmethod
    def _wrap(cls, a, parents=()):
        t = Tensor.__new__(Tensor)
        a = np.asarray(a)
        live = tuple((p._node, f) for p, f in parents if p.requires_grad) if _grad_on() else ()
        t._set(a, live, bool(live))
        return t

    # -- plumbing
    @property
    def data(self):
        return Tensor._wrap(self._a)

    @data.setter
    def data(self, t):
        self._a = t._a
        self._node.shape, self._node.dtype = t._a.shape, t._a.dtype

    @property
    def shape(self):
        return Size(self._a.shape)

    def size(self, k=None):
        return self.shape if k is None else self._a.shape[k]

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def device(self):
        return _CPU

    @property
    def ndim(self):
        return self._a.ndim

    def dim(self):
        return self._a.ndim

    def numel(self):
        return int(self._a.size)

    @property
    def is_leaf(self):
        return not self._node.parents

    def item(self):
        if self._a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self._a.reshape(-1)[0].item()

    def tolist(self):
        return self._a.tolist()

    def numpy(self):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self._a

    def __array__(self, dtype=None, copy=None):
        a = self.numpy()
        return a if dtype is None else a.astype(dtype)

    def detach(self):
        return Tensor._wrap(self._a)

    def cpu(self):
        return self

    def to(self, *a, **k):
        t = self
        for x in list(a) + list(k.values()):
            if isinstance(x, (device, str)):
                continue
            t = t._cast(np.dtype(x))
        return t

    def type(self, dt):
        return self._cast(np.dtype(dt))

    def _cast(self, dt):
        if self._a.dtype == dt:
            return self
        src = self._a.dtype
        return Tensor._wrap(self._a.astype(dt), [(self, lambda g: g.astype(src))] if _kind(dt) == 2 else [])

    def float(self):
        return self._cast(float32)

    def double(self):
        return self._cast(float64)

    def long(self):
        return self._cast(int64)

    def int(self):
        return self._cast(int32)

    def clone(self):
        return Tensor._wrap(self._a.copy(), [(self, lambda g: g)])

    def requires_grad_(self, flag=True):
        self.requires_grad = flag
        return self

    def new(self, *size):
        return Tensor(*size)

    def to_dense(self):
        return self

    def contiguous(self):
        return self

    def zero_(self):
        self._a[...] = 0
        return self

    def fill_(self, v):
        self._a[...] = v
        return self

    def copy_(self, t):
        self._a[...] = t._a
        return self

    def __deepcopy__(self, memo):
        if not self.is_leaf:
            raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol "
                               "at the moment")
        t = type(self).__new__(type(self))
        memo[id(self)] = t
        t._set(self._a.copy(), (), self.requires_grad)
        t.grad = None if self.grad is None else self.grad.clone()
        return t

    def __repr__(self):
        return "tensor(%s%s)" % (np.array2string(self._a, separator=", "), ", requires_grad=True" if self.requires_grad else "")

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return len(self._a)

    def __iter__(self):
        return (self[k] for k in range(len(self)))

    def __bool__(self):
        return bool(self.item())

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def __hash__(self):
        return id(self)

    # -- arithmetic
    def __add__(self, o):
        a, b, dt = _pair(self, o)
        if b is None:
            return NotImplemented
        return Tensor._wrap(np.asarray(a._a.astype(dt) + b._a.astype(dt)),
                            [(a, lambda g: _unbroadcast(g, a._a.shape).astype(a._a.dtype)),
                             (b, lambda g: _unbroadcast(g, b._a.shape).astype(b._a.dtype))])

    __radd__ = __add__

    def __neg__(self):
        return Tensor._wrap(-self._a, [(self, lambda g: -g)])

    def __sub__(self, o):
        a, b, dt = _pair(self, o)
        if b is None:
            return NotImplemented
        return Tensor._wrap(a._a.astype(dt) - b._a.astype(dt),
                            [(a, lambda g: _unbroadcast(g, a._a.shape).astype(a._a.dtype)),
                             (b, lambda g: -_unbroadcast(g, b._a.shape).astype(b._a.dtype))])

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        a, b, dt = _pair(self, o)
        if b is None:
            return NotImplemented
        x, y = a._a.astype(dt), b._a.astype(dt)
        return Tensor._wrap(x * y, [(a, lambda g: _unbroadcast(g * y, x.shape).astype(a._a.dtype)),
                                    (b, lambda g: _unbroadcast(g * x, y.shape).astype(b._a.dtype))])

    __rmul__ = __mul__

    def __truediv__(self, o):
        a, b, dt = _pair(self, o)
        if b is None:
            return NotImplemented
        if _kind(dt) != 2:
            dt = float32
        x, y = a._a.astype(dt), b._a.astype(dt)
        with np.errstate(all="ignore"):
            q = x / y
        return Tensor._wrap(q, [(a, lambda g: _unbroadcast(g / y, x.shape).astype(a._a.dtype)),
                                (b, lambda g: _unbroadcast(-g * x / (y * y), y.shape).astype(b._a.dtype))])

    def __rtruediv__(self, o):
        return self ** -1 * o

    def __rpow__(self, base):
        return (self * float(np.log(base))).exp()

    def __mod__(self, o):
        return self._cmp(o, np.mod)

    def __floordiv__(self, o):
        return self._cmp(o, np.floor_divide)

    def __rmatmul__(self, o):
        raise StubGap("numpy array @ tensor")

    def __pow__(self, n):
        if isinstance(n, Tensor) and n._a.size == 1 and not n.requires_grad:
            n = n.item()
        if isinstance(n, np.number):
            n = n.item()
        if not isinstance(n, (int, float)):
            raise StubGap("tensor power with exponent %r" % (n,))
        x = self._a
        with np.errstate(all="ignore"):
            r = x ** x.dtype.type(n)
        return Tensor._wrap(r, [(self, lambda g: g * x.dtype.type(n) * x ** x.dtype.type(n - 1))])

    def __matmul__(self, o):
        return matmul(self, o)

    def __iadd__(self, o):
        r = self + o
        if r._a.shape != self._a.shape:
            raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (self.shape, r.shape))
        return self._become(r)

    def __isub__(self, o):
        return self._become(self - o)

    def __imul__(self, o):
        return self._become(self * o)

    def __itruediv__(self, o):
        return self._become(self / o)

    def _become(self, r):
        """In-place result: this object continues as r (the array is written through, so views see it)."""
        if self.is_leaf and self.requires_grad and _grad_on():
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        if self._a.dtype == r._a.dtype and self._a.shape == r._a.shape:
            self._a[...] = r._a
        else:
            self._a = r._a.astype(self._a.dtype)
        if _grad_on():
            self._node = Node(self._a, r._node.parents, r.requires_grad, None if r._node.parents else self)
        return self

    def _cmp(self, o, f):
        return Tensor._wrap(f(self._a, _arr(o)))

    def __lt__(self, o):
        return self._cmp(o, np.less)

    def __le__(self, o):
        return self._cmp(o, np.less_equal)

    def __gt__(self, o):
        return self._cmp(o, np.greater)

    def __ge__(self, o):
        return self._cmp(o, np.greater_equal)

    def __eq__(self, o):
        return self._cmp(o, np.equal)

    def __ne__(self, o):
        return self._cmp(o, np.not_equal)

    # -- indexing
    @staticmethod
    def _key(k):
        if isinstance(k, tuple):
            return tuple(Tensor._key(x) for x in k)
        if isinstance(k, Tensor):
            return k._a
        if isinstance(k, list):
            return np.array(k, dtype=np.int64) if not any(isinstance(x, bool) for x in k) else np.array(k)
        return k

    def __getitem__(self, k):
        k = self._key(k)
        shape, dt = self._a.shape, self._a.dtype

        def back(g):
            out = np.zeros(shape, dtype=dt)
            np.add.at(out, k, g)
            return out
        return Tensor._wrap(self._a[k], [(self, back)])

    def __setitem__(self, k, v):
        k = self._key(k)
        if self.is_leaf and self.requires_grad and _grad_on():
            raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
        old = self._node
        self._a[k] = _arr(v)
        if not _grad_on():
            return
        parents = []
        if old.requires_grad:
            def back_old(g):
                g = g.copy()
                g[k] = 0
                return g
            parents.append((old, back_old))
        if isinstance(v, Tensor) and v.requires_grad:
            shape, vdt = v._a.shape, v._a.dtype
            parents.append((v._node, lambda g: _unbroadcast(np.asarray(g[k]), shape).astype(vdt)))
        self._node = Node(self._a, tuple(parents), bool(parents), None if parents else self)

    def gather(self, dim, index):
        idx, shape, dt = index._a, self._a.shape, self._a.dtype

        def back(g):
            out = np.zeros(shape, dtype=dt)
            grid = list(np.indices(idx.shape))
            grid[dim] = idx
            np.add.at(out, tuple(grid), g)
            return out
        if idx.size and (idx.min() < 0 or idx.max() >= shape[dim]):
            raise RuntimeError("index out of bounds in gather")
        return Tensor._wrap(np.take_along_axis(self._a, idx, axis=dim), [(self, back)])

    # -- shape
    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        shape = self._a.shape
        return Tensor._wrap(self._a.reshape(tuple(int(x) for x in s)), [(self, lambda g: g.reshape(shape))])

    reshape = view

    def reshape_as(self, o):
        return self.view(*o._a.shape)

    def ravel(self):
        return self.view(-1)

    def view_as(self, o):
        return self.view(*o._a.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        s = self._a.shape
        if not s:
            return self.view(1)
        a, b = start_dim % len(s), end_dim % len(s)
        return self.view(*(s[:a] + (int(np.prod(s[a:b + 1], dtype=np.int64)),) + s[b + 1:]))

    def squeeze(self, dim=None):
        shape = self._a.shape
        if dim is None:
            r = self._a.reshape(tuple(n for n in shape if n != 1))
        else:
            r = self._a.squeeze(dim) if shape[dim] == 1 else self._a
        return Tensor._wrap(r, [(self, lambda g: g.reshape(shape))])

    def unsqueeze(self, dim):
        shape = self._a.shape
        return Tensor._wrap(np.expand_dims(self._a, dim), [(self, lambda g: g.reshape(shape))])

    def t(self):
        if self._a.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return Tensor._wrap(self._a.T, [(self, lambda g: g.T)])

    @property
    def T(self):
        return Tensor._wrap(self._a.T, [(self, lambda g: g.T)])

    def transpose(self, a, b):
        return Tensor._wrap(self._a.swapaxes(a, b), [(self, lambda g: g.swapaxes(a, b))])

    # -- reductions and elementwise
    def sum(self, dim=None, axis=None, keepdim=False):
        dim = axis if dim is None else dim
        dim = tuple(dim) if isinstance(dim, list) else dim
        shape = self._a.shape
        r = self._a.sum(axis=dim, keepdims=keepdim)

        def back(g):
            if dim is not None and not keepdim:
                g = np.expand_dims(g, dim)
            return np.broadcast_to(g, shape).copy()
        return Tensor._wrap(r, [(self, back)])

    def mean(self, dim=None, axis=None, keepdim=False):
        dim = axis if dim is None else dim
        n = self._a.size if dim is None else int(np.prod([self._a.shape[d] for d in (dim if isinstance(dim, (tuple, list)) else [dim])]))
        dim = tuple(dim) if isinstance(dim, list) else dim
        if _kind(self._a.dtype) != 2:
            raise RuntimeError("mean(): could not infer output dtype. Input dtype must be floating")
        return self.sum(dim=dim, keepdim=keepdim) * (1.0 / n if n else float("nan"))

    def abs(self):
        s = np.sign(self._a)
        return Tensor._wrap(np.abs(self._a), [(self, lambda g: g * s)])

    def exp(self):
        with np.errstate(all="ignore"):
            r = np.exp(self._a)
        return Tensor._wrap(r, [(self, lambda g: g * r)])

    def log(self):
        x = self._a
        with np.errstate(all="ignore"):
            r = np.log(x)
        return Tensor._wrap(r, [(self, lambda g: g / x)])

    def sqrt(self):
        r = np.sqrt(self._a)
        return Tensor._wrap(r, [(self, lambda g: g / (2 * r))])

    def sigmoid(self):
        x = self._a
        with np.errstate(all="ignore"):
            r = np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x)))).astype(x.dtype)
        return Tensor._wrap(r, [(self, lambda g: g * r * (1 - r))])

    def argmax(self, dim=None, keepdim=False):
        return Tensor._wrap(np.asarray(self._a.argmax(axis=dim, keepdims=keepdim) if dim is not None else self._a.argmax()))

    def argmin(self, dim=None, keepdim=False):
        return Tensor._wrap(np.asarray(self._a.argmin(axis=dim, keepdims=keepdim) if dim is not None else self._a.argmin()))

    def _extreme(self, pick, dim, keepdim):
        if isinstance(dim, Tensor):
            a, b, dt = _pair(self, dim)
            return where(a >= b if pick == "argmax" else a <= b, a, b)
        if dim is None:
            k = int(getattr(self._a, pick)())
            return self.flatten()[k]
        i = Tensor._wrap(np.expand_dims(getattr(self._a, pick)(axis=dim), dim))
        v = self.gather(dim, i)
        return _Extreme(v, i) if keepdim else _Extreme(v.squeeze(dim), i.squeeze(dim))

    def max(self, dim=None, keepdim=False):
        return self._extreme("argmax", dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return self._extreme("argmin", dim, keepdim)

    amax = lambda self, dim, keepdim=False: self.max(dim, keepdim).values
    amin = lambda self, dim, keepdim=False: self.min(dim, keepdim).values
    maximum = lambda self, o: self.max(o)
    minimum = lambda self, o: self.min(o)

    def _each(self, f, df):
        """Elementwise f with derivative df(x, f(x))."""
        x = self._a
        with np.errstate(all="ignore"):
            r = np.asarray(f(x), dtype=x.dtype)
        return Tensor._wrap(r, [(self, lambda g: g * np.asarray(df(x, r), dtype=x.dtype))])

    def square(self):
        return self * self

    def reciprocal(self):
        return self ** -1

    def rsqrt(self):
        return self ** -0.5

    def tanh(self):
        return self._each(np.tanh, lambda x, r: 1 - r * r)

    def log1p(self):
        return self._each(np.log1p, lambda x, r: 1 / (1 + x))

    def expm1(self):
        return self._each(np.expm1, lambda x, r: r + 1)

    def log2(self):
        return self._each(np.log2, lambda x, r: 1 / (x * np.log(2)))

    def log10(self):
        return self._each(np.log10, lambda x, r: 1 / (x * np.log(10)))

    def relu(self):
        return self._each(lambda x: np.maximum(x, 0), lambda x, r: x > 0)

    def sign(self):
        return self._each(np.sign, lambda x, r: 0 * x)

    def round(self):
        return self._each(np.round, lambda x, r: 0 * x)

    def floor(self):
        return self._each(np.floor, lambda x, r: 0 * x)

    def ceil(self):
        return self._each(np.ceil, lambda x, r: 0 * x)

    def clamp(self, min=None, max=None):
        x = self._a
        return self._each(lambda x: np.clip(x, min, max), lambda x, r: r == x)

    clip = clamp

    def neg(self):
        return -self

    def softmax(self, dim):
        return softmax(self, dim)

    def log_softmax(self, dim):
        return log_softmax(self, dim)

    def logsumexp(self, dim, keepdim=False):
        m = Tensor._wrap(self._a.max(axis=dim, keepdims=True))
        r = (self - m).exp().sum(dim=dim, keepdim=True).log() + m
        return r if keepdim else r.squeeze(dim)

    def norm(self, p=2, dim=None, keepdim=False):
        if p in (2, "fro", None):
            return (self * self).sum(dim=dim, keepdim=keepdim).sqrt()
        if p == 1:
            return self.abs().sum(dim=dim, keepdim=keepdim)
        raise StubGap("norm of order %r" % (p,))

    def var(self, dim=None, unbiased=True, keepdim=False):
        n = self._a.size if dim is None else self._a.shape[dim]
        d = self - (self.mean() if dim is None else self.mean(dim=dim, keepdim=True))
        return (d * d).sum(dim=dim, keepdim=keepdim) * (1.0 / (n - 1 if unbiased else n) if n > 1 or not unbiased else float("nan"))

    def std(self, dim=None, unbiased=True, keepdim=False):
        return self.var(dim, unbiased, keepdim).sqrt()

    def prod(self, dim=None, keepdim=False):
        x, n = self, (self._a.size if dim is None else self._a.shape[dim])
        if dim is None:
            x, dim = self.flatten(), 0
        if not n:
            raise StubGap("product of nothing")
        r = x.select(dim, 0)
        for k in range(1, n):
            r = r * x.select(dim, k)
        return r.unsqueeze(dim) if keepdim else r

    def cumsum(self, dim):
        return Tensor._wrap(self._a.cumsum(axis=dim), [(self, lambda g: np.flip(np.flip(g, dim).cumsum(axis=dim), dim))])

    def any(self, dim=None):
        return Tensor._wrap(np.asarray(self._a.astype(bool).any(axis=dim)))

    def all(self, dim=None):
        return Tensor._wrap(np.asarray(self._a.astype(bool).all(axis=dim)))

    def isnan(self):
        return Tensor._wrap(np.isnan(self._a))

    def isinf(self):
        return Tensor._wrap(np.isinf(self._a))

    def isfinite(self):
        return Tensor._wrap(np.isfinite(self._a))

    def bool(self):
        return self._cast(np.dtype(bool))

    def nonzero(self):
        return Tensor._wrap(np.argwhere(self._a))

    def select(self, dim, k):
        return self[(slice(None),) * (dim % self._a.ndim) + (k,)]

    def narrow(self, dim, start, length):
        return self[(slice(None),) * (dim % self._a.ndim) + (slice(start, start + length),)]

    def index_select(self, dim, index):
        return self[(slice(None),) * (dim % self._a.ndim) + (index,)]

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if self._a.ndim != 2 or (dim1, dim2) != (0, 1):
            raise StubGap("diagonal of a %d-dimensional tensor" % self._a.ndim)
        n = np.diagonal(self._a, offset).size
        rows = np.arange(n) + max(0, -offset)
        return self[rows, rows + offset]

    def diag(self, diagonal=0):
        if self._a.ndim == 1:
            return Tensor._wrap(np.diag(self._a, diagonal), [(self, lambda g: np.diagonal(g, diagonal).copy())])
        return self.diagonal(diagonal)

    def trace(self):
        return trace(self)

    def triu(self, diagonal=0):
        return self * Tensor._wrap(np.triu(np.ones(self._a.shape, dtype=self._a.dtype), diagonal))

    def tril(self, diagonal=0):
        return self * Tensor._wrap(np.tril(np.ones(self._a.shape, dtype=self._a.dtype), diagonal))

    def fill_diagonal_(self, v):
        if self.is_leaf and self.requires_grad and _grad_on():
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        n = np.arange(min(self._a.shape))
        self[n, n] = v
        return self

    def masked_fill(self, mask, v):
        return where(mask, Tensor._wrap(np.asarray(v, dtype=self._a.dtype)), self)

    def masked_select(self, mask):
        return self[mask]

    def permute(self, *d):
        d = tuple(d[0]) if len(d) == 1 and isinstance(d[0], (tuple, list)) else d
        back = np.argsort([x % len(d) for x in d])
        return Tensor._wrap(self._a.transpose(d), [(self, lambda g: g.transpose(back))])

    def expand(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        shape = self._a.shape
        s = tuple(shape[k - (len(s) - len(shape))] if n == -1 else n for k, n in enumerate(s))
        return Tensor._wrap(np.broadcast_to(self._a, s), [(self, lambda g: _unbroadcast(g, shape))])

    def expand_as(self, o):
        return self.expand(*o._a.shape)

    def repeat(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        x = self
        while x._a.ndim < len(s):
            x = x.unsqueeze(0)
        for k, n in enumerate(s):
            x = cat([x] * n, dim=k)
        return x

    def unbind(self, dim=0):
        return tuple(self.select(dim, k) for k in range(self._a.shape[dim]))

    def split(self, n, dim=0):
        total = self._a.shape[dim]
        sizes = [min(n, total - k) for k in range(0, total, n)] if isinstance(n, int) else list(n)
        out, at = [], 0
        for k in sizes:
            out.append(self.narrow(dim, at, k))
            at += k
        return tuple(out)

    def chunk(self, n, dim=0):
        return self.split(-(-self._a.shape[dim] // n), dim)

    def flip(self, *dims):
        dims = tuple(dims[0]) if len(dims) == 1 and isinstance(dims[0], (tuple, list)) else dims
        return Tensor._wrap(np.flip(self._a, dims).copy(), [(self, lambda g: np.flip(g, dims))])

    def dot(self, o):
        return matmul(self, o)

    def mv(self, o):
        return matmul(self, o)

    def outer(self, o):
        return self.unsqueeze(1) * o.unsqueeze(0)

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else o * alpha)

    def mul(self, o):
        return self * o

    multiply = mul

    def div(self, o):
        return self / o

    def add_(self, o, alpha=1):
        return self.__iadd__(o if alpha == 1 else o * alpha)

    def sub_(self, o, alpha=1):
        return self.__isub__(o if alpha == 1 else o * alpha)

    def mul_(self, o):
        return self.__imul__(o)

    def div_(self, o):
        return self.__itruediv__(o)

    def neg_(self):
        return self.__imul__(-1)

    def clamp_(self, min=None, max=None):
        return self._become(self.clamp(min, max))

    def detach_(self):
        self._node = Node(self._a, (), False, self)
        return self

    def element_size(self):
        return self._a.itemsize

    def nelement(self):
        return int(self._a.size)

    def new_zeros(self, *size):
        return zeros(*size, dtype=self._a.dtype)

    def new_ones(self, *size):
        return ones(*size, dtype=self._a.dtype)

    def new_tensor(self, x):
        return tensor(x, dtype=self._a.dtype)

    def type_as(self, o):
        return self._cast(o._a.dtype)

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def lt(self, o):
        return self < o

    def le(self, o):
        return self <= o

    def gt(self, o):
        return self > o

    def ge(self, o):
        return self >= o

    def _logic(self, o, f):
        if self._a.dtype != bool or (isinstance(o, Tensor) and o._a.dtype != bool):
            raise StubGap("bitwise operation on %s" % self._a.dtype)
        return Tensor._wrap(f(self._a, _arr(o)))

    def __and__(self, o):
        return self._logic(o, np.logical_and)

    def __or__(self, o):
        return self._logic(o, np.logical_or)

    def __xor__(self, o):
        return self._logic(o, np.logical_xor)

    def __invert__(self):
        return self._logic(True, np.logical_xor)

    def logical_not(self):
        return ~self.bool()

    def logical_and(self, o):
        return self.bool() & o.bool()

    def logical_or(self, o):
        return self.bool() | o.bool()

    def pow(self, n):
        return self ** n

    def matmul(self, o):
        return matmul(self, o)

    mm = matmul

    # -- differentiation
    def backward(self):
        if self._a.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        if not self.requires_grad:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        for node, g in _backprop(self):
            t = node.leaf
            if t is not None and node.requires_grad:
                if t.grad is None:
                    t.grad = Tensor._wrap(g.astype(t._a.dtype))
                else:
                    t.grad._a = t.grad._a + g.astype(t._a.dtype)


def _backprop(root):
    order, seen, stack = [], set(), [(root._node, iter(root._node.parents))]
    seen.add(id(root._node))
    while stack:
        t, it = stack[-1]
        for p, _ in it:
            if id(p) not in seen:
                seen.add(id(p))
                stack.append((p, iter(p.parents)))
                break
        else:
            order.append(t)
            stack.pop()
    grads = {id(root._node): np.ones_like(root._a)}
    with np.errstate(all="ignore"):
        for t in reversed(order):
            g = grads.get(id(t))
            if g is None:
                continue
            for p, f in t.parents:
                d = np.asarray(f(g))
                if d.shape != p.shape:
                    d = d.reshape(p.shape)
                q = grads.get(id(p))
                grads[id(p)] = d if q is None else q + d
    return [(t, grads[id(t)]) for t in order if id(t) in grads]


def _grad(outputs, inputs, create_graph=False, retain_graph=None):
    single = isinstance(inputs, Tensor)
    g = {id(t): d for t, d in _backprop(outputs)}
    res = []
    for t in ([inputs] if single else inputs):
        if id(t._node) not in g:
            raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph.")
        res.append(Tensor._wrap(g[id(t._node)]))
    return tuple(res)


def _make(a):
    t = Tensor.__new__(Tensor)
    t._set(a)
    return t


def tensor(x, dtype=None, device=None, requires_grad=False):
    if isinstance(x, Tensor):
        x = x._a
    a = np.array(x)
    if dtype is not None:
        a = a.astype(dtype)
    elif a.dtype == np.float64 and not isinstance(x, (np.ndarray, np.generic)):
        a = a.astype(np.float32)
    t = _make(a)
    t.requires_grad = requires_grad
    return t


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        return x if dtype is None else x.to(dtype)
    if isinstance(x, np.ndarray):
        return _make(x if dtype is None else x.astype(dtype))
    return tensor(x, dtype=dtype)


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    if a.dtype.kind not in "biuf":
        raise TypeError("can't convert np.ndarray of type %s" % a.dtype)
    if any(s < 0 for s in a.strides):
        raise ValueError("At least one stride in the given numpy array is negative")
    return _make(a)


def _sized(f):
    def g(*size, dtype=None, device=None, requires_grad=False):
        if len(size) == 1 and isinstance(size[0], (tuple, list)):
            size = size[0]
        t = _make(np.array(f(tuple(int(s) for s in size)), dtype=dtype or np.float32))
        t.requires_grad = requires_grad
        return t
    return g


zeros = _sized(np.zeros)
ones = _sized(np.ones)
empty = _sized(lambda s: SEAM.garbage(s))


def eye(n, dtype=None, device=None):
    return _make(np.eye(int(n), dtype=dtype or np.float32))


def arange(*a, dtype=None, device=None):
    return _make(np.arange(*a, dtype=dtype))


def matmul(a, b):
    x, y = a._a, b._a
    if x.dtype != y.dtype:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but got: %s != %s" % (x.dtype, y.dtype))
    if x.ndim == 0 or y.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    if x.ndim == 1 and y.ndim == 1:
        if x.shape != y.shape:
            raise RuntimeError("inconsistent tensor size, expected tensor %s and src %s to have the same number of elements" % (
                list(x.shape), list(y.shape)))
        return (a * b).sum()
    if x.ndim == 1:
        return matmul(a.unsqueeze(0), b).squeeze(-2)
    if y.ndim == 1:
        return matmul(a, b.unsqueeze(-1)).squeeze(-1)
    if x.shape[-1] != y.shape[-2]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%s and %s)" % (list(x.shape), list(y.shape)))
    r = np.matmul(x, y)
    return Tensor._wrap(r, [(a, lambda g: _unbroadcast(np.matmul(g, y.swapaxes(-1, -2)), x.shape)),
                            (b, lambda g: _unbroadcast(np.matmul(x.swapaxes(-1, -2), g), y.shape))])


mm = matmul


def matrix_power(m, n):
    if n < 0:
        raise StubGap("negative matrix power")
    r = eye(m._a.shape[0], dtype=m._a.dtype)
    for _ in range(n):
        r = matmul(r, m)
    return r


def trace(m):
    return (m * eye(m._a.shape[0], dtype=m._a.dtype)).sum()


def cat(ts, dim=0):
    ts = list(ts)
    r = np.concatenate([t._a for t in ts], axis=dim)
    parents, at = [], 0
    for t in ts:
        n = t._a.shape[dim]

        def back(g, at=at, n=n):
            return np.take(g, np.arange(at, at + n), axis=dim)
        parents.append((t, back))
        at += n
    return Tensor._wrap(r, parents)


def stack(ts, dim=0):
    return cat([t.unsqueeze(dim) for t in ts], dim)


def softmax(x, dim):
    a = x._a
    e = np.exp(a - a.max(axis=dim, keepdims=True))
    r = e / e.sum(axis=dim, keepdims=True)
    return Tensor._wrap(r, [(x, lambda g: r * (g - (g * r).sum(axis=dim, keepdims=True)))])


def log_softmax(x, dim):
    a = x._a
    z = a - a.max(axis=dim, keepdims=True)
    r = z - np.log(np.exp(z).sum(axis=dim, keepdims=True))
    return Tensor._wrap(r, [(x, lambda g: g - np.exp(r) * g.sum(axis=dim, keepdims=True))])


class _Extreme(tuple):
    """values and indices of an extreme along a dimension"""
    def __new__(cls, v, i):
        t = tuple.__new__(cls, (v, i))
        t.values, t.indices = v, i
        return t


def where(cond, a=None, b=None):
    if a is None:
        return tuple(Tensor._wrap(x) for x in np.where(cond._a))
    c = cond._a.astype(bool)
    if not isinstance(a, Tensor):
        a = Tensor._wrap(np.asarray(a, dtype=b._a.dtype if isinstance(b, Tensor) else np.float32))
    if not isinstance(b, Tensor):
        b = Tensor._wrap(np.asarray(b, dtype=a._a.dtype))
    x, y = a._a, b._a
    return Tensor._wrap(np.where(c, x, y), [(a, lambda g: _unbroadcast(np.where(c, g, 0).astype(x.dtype), x.shape)),
                                            (b, lambda g: _unbroadcast(np.where(c, 0, g).astype(y.dtype), y.shape))])


def einsum(spec, *ts):
    ts = list(ts[0]) if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else list(ts)
    ins, out = (spec.replace(" ", "").split("->") + [None])[:2]
    ins = ins.split(",")
    if out is None:
        out = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
    if "." in spec or any(len(set(i)) != len(i) for i in ins):
        raise StubGap("einsum %r" % (spec,))
    r = np.einsum(",".join(ins) + "->" + out, *[t._a for t in ts])
    parents = []
    for k, t in enumerate(ts):
        others = [(ins[j], u._a) for j, u in enumerate(ts) if j != k]

        def back(g, k=k, t=t, others=others):
            known = set(out).union(*[set(i) for i, _ in others]) if others else set(out)
            free = [c for c in ins[k] if c not in known]
            got = "".join(c for c in ins[k] if c in known)
            d = np.einsum(",".join([out] + [i for i, _ in others]) + "->" + got, g, *[a for _, a in others])
            for at, c in enumerate(ins[k]):
                if c in free:
                    d = np.expand_dims(d, at)
            return np.broadcast_to(d, t._a.shape).astype(t._a.dtype)
        parents.append((t, back))
    return Tensor._wrap(np.asarray(r), parents)


def full(size, v, dtype=None, device=None, requires_grad=False):
    t = _make(np.full(size, v, dtype=dtype or (np.float32 if isinstance(v, float) else None)))
    t.requires_grad = requires_grad
    return t


def _like(f):
    return lambda t, dtype=None, **k: f(*t._a.shape, dtype=dtype or t._a.dtype, **k)


def full_like(t, v, dtype=None):
    return full(t._a.shape, v, dtype or t._a.dtype)


def linspace(a, b, n, dtype=None):
    return _make(np.linspace(a, b, n, dtype=dtype or np.float32))


class _GradMode(no_grad):
    def __init__(self, on=True):
        self.on = on
        self.prev = _grad_on()

    def __enter__(self):
        self.prev = _grad_on()
        _state.on = self.on


class set_grad_enabled(_GradMode):
    def __init__(self, on):
        super().__init__(bool(on))
        _state.on = self.on


class enable_grad(_GradMode):
    def __init__(self):
        super().__init__(True)


def _fn(name):
    def f(t, *a, **k):
        return getattr(t, name)(*a, **k)
    f.__name__ = name
    return f


def get_default_dtype():
    return float32


def manual_seed(n):
    return None


def is_tensor(x):
    return isinstance(x, Tensor)


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return bool(np.allclose(a._a, b._a, rtol=rtol, atol=atol))


def equal(a, b):
    return a._a.shape == b._a.shape and bool(np.array_equal(a._a, b._a))


# ---------------------------------------------------------------- nn
class Parameter(Tensor):
    def __init__(self, t, requires_grad=True):
        self._set(t._a, (), requires_grad)


class Module:
    def __init__(self):
        self.__dict__["_parameters"] = {}
        self.__dict__["_modules"] = {}
        self.training = True

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, (Parameter, Module)) and "_parameters" not in d:
            raise AttributeError("cannot assign before Module.__init__() call")
        if isinstance(v, Parameter):
            d["_parameters"][k] = v
        elif isinstance(v, Module):
            d["_modules"][k] = v
        elif "_parameters" in d and k in d["_parameters"]:
            if v is not None:
                raise TypeError("cannot assign %r as parameter %r" % (type(v), k))
            d["_parameters"][k] = None
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__
        for box in ("_parameters", "_modules"):
            if box in d and k in d[box]:
                return d[box][k]
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, k))

    def children(self):
        return iter(self._modules.values())

    def modules(self):
        yield self
        for m in self._modules.values():
            yield from m.modules()

    def apply(self, f):
        for m in self.children():
            m.apply(f)
        f(self)
        return self

    def state_dict(self):
        return {k: p.detach() for k, p in self.named_parameters()}

    def load_state_dict(self, d, strict=True):
        own = dict(self.named_parameters())
        if strict and set(own) != set(d):
            raise RuntimeError("Error(s) in loading state_dict")
        for k, t in d.items():
            own[k]._a[...] = t._a

    def requires_grad_(self, flag=True):
        for p in self.parameters():
            p.requires_grad = flag
        return self

    def register_buffer(self, name, t):
        object.__setattr__(self, name, t)

    def register_parameter(self, name, p):
        self._parameters[name] = p

    def named_parameters(self, prefix=""):
        for k, p in self._parameters.items():
            if p is not None:
                yield prefix + k, p
        for k, m in self._modules.items():
            yield from m.named_parameters(prefix + k + ".")

    def parameters(self):
        for _, p in self.named_parameters():
            yield p

    def float(self):
        for p in self.parameters():
            p._a = p._a.astype(np.float32)
        return self

    def to(self, *a, **k):
        return self

    def eval(self):
        self.training = False
        return self

    def train(self, mode=True):
        self.training = mode
        return self

    def zero_grad(self):
        for p in self.parameters():
            p.grad = None

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


class ModuleList(Module):
    def __init__(self, mods=()):
        super().__init__()
        for k, m in enumerate(mods):
            self._modules[str(k)] = m

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def __iter__(self):
        return iter(self._modules.values())

    def __len__(self):
        return len(self._modules)

    def __getitem__(self, k):
        got = list(self._modules.values())[k]
        return ModuleList(got) if isinstance(k, slice) else got


class Sequential(Module):
    def __init__(self, *mods):
        super().__init__()
        for k, m in enumerate(mods):
            self._modules[str(k)] = m

    __iter__, __len__, __getitem__ = ModuleList.__iter__, ModuleList.__len__, ModuleList.__getitem__

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x


def _layer(name, f):
    return type(name, (Module,), {"forward": lambda self, x: f(x)})


def _loss(name, f):
    class L(Module):
        def __init__(self, **k):
            super().__init__()
            self.k = k

        def forward(self, i, t):
            return f(i, t, **self.k)
    L.__name__ = name
    return L


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        k = 1.0 / np.sqrt(in_features)
        self.weight = Parameter(_make(np.array(SEAM.uniform((out_features, in_features), -k, k), dtype=np.float32)))
        if bias:
            self.bias = Parameter(_make(np.array(SEAM.uniform((out_features,), -k, k), dtype=np.float32)))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        r = matmul(x, self.weight.t())
        return r if self.bias is None else r + self.bias


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True):
        super().__init__()
        n = (normalized_shape,) if isinstance(normalized_shape, int) else tuple(normalized_shape)
        self.normalized_shape, self.eps = n, eps
        if elementwise_affine:
            self.weight = Parameter(ones(n))
            self.bias = Parameter(zeros(n))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, x):
        if len(self.normalized_shape) != 1 or x._a.shape[-1:] != self.normalized_shape:
            raise RuntimeError("Given normalized_shape=%s, expected input with shape [*, %s], but got input of size %s" % (
                list(self.normalized_shape), self.normalized_shape, list(x.shape)))
        d = x - x.mean(dim=-1, keepdim=True)
        r = d / ((d * d).mean(dim=-1, keepdim=True) + self.eps).sqrt()
        return r if self.weight is None else r * self.weight + self.bias


def _mse(input, target, reduction="mean"):
    return _reduce((input - target) ** 2, reduction)


def _reduce(x, how):
    if how == "mean":
        return x.mean()
    if how == "sum":
        return x.sum()
    if how == "none":
        return x
    raise ValueError("%r is not a valid value for reduction" % (how,))


def _bce_logits(input, target, weight=None, reduction="mean"):
    x, t = input._a, target._a
    if x.shape != t.shape:
        raise ValueError("Target size (%s) must be the same as input size (%s)" % (target.shape, input.shape))
    r = (np.maximum(x, 0) - x * t + np.log1p(np.exp(-np.abs(x)))).astype(x.dtype)
    s = input.sigmoid()._a
    return _reduce(Tensor._wrap(r, [(input, lambda g: g * (s - t))]), reduction)


def _cross_entropy(input, target, reduction="mean"):
    if target._a.dtype != np.int64:
        raise RuntimeError("expected scalar type Long")
    lp = log_softmax(input, 1)
    return _reduce(-lp.gather(1, target.unsqueeze(1)).squeeze(1), reduction)


def _poisson(input, target, log_input=True, full=False, eps=1e-8, reduction="mean"):
    if full:
        raise StubGap("poisson_nll_loss(full=True)")
    r = input.exp() - target * input if log_input else input - target * (input + eps).log()
    return _reduce(r, reduction)


def _zeros_(t):
    t._a[...] = 0
    return t


def _uniform_(t, a=0.0, b=1.0):
    t._a = np.array(SEAM.uniform(t._a.shape, a, b), dtype=t._a.dtype)
    return t


def _ones_(t):
    t._a[...] = 1
    return t


class Optimizer:
    def __init__(self, params, defaults):
        params = list(params)
        if not params:
            raise ValueError("optimizer got an empty parameter list")
        self.defaults = defaults
        self.param_groups = [dict(defaults, params=params)]

    def zero_grad(self, set_to_none=True):
        for grp in self.param_groups:
            for p in grp["params"]:
                p.grad = None


class _BCELoss:
    def __init__(self, reduction="mean"):
        self.reduction = reduction

    def __call__(self, i, t):
        return _bce_logits(i, t, reduction=self.reduction)


def _fill_torch(m):
    for n in ("Tensor", "Size", "device", "no_grad", "float32", "float64", "int64", "int32", "tensor", "as_tensor", "from_numpy",
              "zeros", "ones", "empty", "eye", "arange", "matmul", "mm", "matrix_power", "trace", "cat", "stack", "softmax",
              "log_softmax", "get_default_dtype", "manual_seed", "is_tensor", "allclose", "equal"):
        setattr(m, n, globals()[n])
    m.long, m.float, m.double = int64, float32, float64
    for n in ("sum", "mean", "abs", "exp", "log", "sqrt", "sigmoid", "argmax", "squeeze", "unsqueeze", "gather", "transpose", "t",
              "clone", "flatten", "numel", "max", "pow"):
        setattr(m, n, _fn(n))
    for n in ("argmin", "min", "amax", "amin", "maximum", "minimum", "square", "reciprocal", "rsqrt", "tanh", "log1p", "expm1",
              "log2", "log10", "relu", "sign", "round", "floor", "ceil", "clamp", "clip", "neg", "logsumexp", "norm", "var", "std",
              "prod", "cumsum", "any", "all", "isnan", "isinf", "isfinite", "nonzero", "narrow", "index_select", "diagonal", "diag",
              "triu", "tril", "masked_select", "permute", "unbind", "split", "chunk", "flip", "dot", "mv", "outer", "add", "sub",
              "mul", "multiply", "div", "eq", "ne", "lt", "le", "gt", "ge", "logical_not", "logical_and", "logical_or", "reshape",
              "numel"):
        setattr(m, n, _fn(n))
    for n in ("where", "einsum", "full", "full_like", "linspace", "set_grad_enabled", "enable_grad"):
        setattr(m, n, globals()[n])
    m.inference_mode, m.is_grad_enabled = no_grad, _grad_on
    m.zeros_like, m.ones_like, m.empty_like = _like(zeros), _like(ones), _like(empty)
    m.bmm, m.concat, m.bool = matmul, cat, np.dtype(bool)
    m.pi, m.inf, m.nan = np.pi, np.inf, np.nan
    m.FloatTensor = Tensor
    m.__version__ = "0-stand-in"


def _fill_nn(m):
    for n in ("Parameter", "Module", "ModuleList", "Linear", "LayerNorm"):
        setattr(m, n, globals()[n])
    m.BCEWithLogitsLoss = _BCELoss
    m.Sequential = Sequential
    m.Sigmoid, m.ReLU, m.Tanh = (_layer(n, getattr(Tensor, n.lower())) for n in ("Sigmoid", "ReLU", "Tanh"))
    m.Identity = _layer("Identity", lambda x: x)
    m.CrossEntropyLoss, m.PoissonNLLLoss, m.MSELoss = (
        _loss("CrossEntropyLoss", _cross_entropy), _loss("PoissonNLLLoss", _poisson), _loss("MSELoss", _mse))


def _fill_functional(m):
    m.binary_cross_entropy_with_logits = _bce_logits
    m.cross_entropy = _cross_entropy
    m.poisson_nll_loss = _poisson
    m.mse_loss = _mse
    m.softmax, m.log_softmax = softmax, log_softmax
    m.sigmoid, m.relu, m.tanh = _fn("sigmoid"), _fn("relu"), _fn("tanh")
    m.logsigmoid = lambda x: -softplus(-x)
    m.softplus = softplus
    m.nll_loss = lambda i, t, reduction="mean": _reduce(-i.gather(1, t.unsqueeze(1)).squeeze(1), reduction)
    m.binary_cross_entropy = lambda i, t, reduction="mean": _reduce(
        -(t * i.log().clamp(min=-100) + (1 - t) * (1 - i).log().clamp(min=-100)), reduction)
    m.l1_loss = lambda i, t, reduction="mean": _reduce((i - t).abs(), reduction)
    m.one_hot = lambda t, num_classes=-1: _make(np.eye(
        num_classes if num_classes > 0 else int(t._a.max()) + 1, dtype=np.int64)[t._a])
    m.linear = lambda x, w, b=None: matmul(x, w.t()) if b is None else matmul(x, w.t()) + b
    m.layer_norm = _layer_norm


def softplus(x):
    return x._each(lambda a: np.logaddexp(0, a), lambda a, r: 1 / (1 + np.exp(-a)))


def _layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
    d = x - x.mean(dim=-1, keepdim=True)
    r = d / ((d * d).mean(dim=-1, keepdim=True) + eps).sqrt()
    r = r if weight is None else r * weight
    return r if bias is None else r + bias


def _fill_init(m):
    m.zeros_, m.uniform_, m.ones_ = _zeros_, _uniform_, _ones_
    m.constant_ = lambda t, v: t.fill_(v)


def register(stubs):
    import importlib

    def torch(m):
        _fill_torch(m)
        m.nn = importlib.import_module("torch.nn")
        m.optim = importlib.import_module("torch.optim")
        m.autograd = importlib.import_module("torch.autograd")

    def nn(m):
        _fill_nn(m)
        m.functional = importlib.import_module("torch.nn.functional")
        m.init = importlib.import_module("torch.nn.init")
    stubs["torch"] = torch
    stubs["torch.nn"] = nn
    stubs["torch.nn.functional"] = _fill_functional
    stubs["torch.nn.init"] = _fill_init
    stubs["torch.optim"] = lambda m: setattr(m, "Optimizer", Optimizer)
    stubs["torch.autograd"] = lambda m: setattr(m, "grad", _grad)
