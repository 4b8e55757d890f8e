"""A small stand-in for pandas (absent here), enough for causalnex's use of it.

Behaviour follows pandas for the operations implemented.  Anything else raises StubGap, which the
simulator reports as a harness gap and never as a property violation.
"""
import builtins
import itertools

import numpy as np


class StubGap(AttributeError):
    """The stand-in lacks something the code under test asked for."""


def _arr(values, dtype=None):
    if isinstance(values, (Series, Index)):
        values = values._v
    if isinstance(values, np.ndarray) and values.ndim == 1:
        a = values
        if dtype is not None:
            a = a.astype(dtype)
        return a
    values = list(values)
    if dtype is not None:
        return np.array(values, dtype=dtype)
    kinds = {type(v) for v in values}
    if not values:
        return np.empty(0, dtype=object)
    if all(issubclass(k, (bool, np.bool_)) for k in kinds):
        return np.array(values, dtype=bool)
    if any(issubclass(k, (bool, np.bool_)) for k in kinds):
        return _obj(values)
    if all(issubclass(k, (int, float, np.integer, np.floating)) for k in kinds):
        try:
            return np.array(values)
        except OverflowError:
            return _obj(values)
    return _obj(values)


def _obj(values):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


def _scalar_key(key):
    return not isinstance(key, (list, np.ndarray, Series, Index, slice))


def _isna_scalar(v):
    if v is None:
        return True
    try:
        return bool(v != v)
    except Exception:
        return False


def _isna_arr(a):
    if a.dtype == object:
        return np.array([_isna_scalar(v) for v in a], dtype=bool)
    if a.dtype.kind == "f":
        return np.isnan(a)
    return np.zeros(len(a), dtype=bool)


class _Base:
    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_"):
            raise AttributeError(name)
        if hasattr(type(self), "_attr_fallback"):
            found, v = self._attr_fallback(name)
            if found:
                return v
        raise StubGap("pandas stand-in: %s.%s is not implemented" % (type(self).__name__, name))


class Index(_Base):
    def __new__(cls, data=None, *a, **k):
        if cls is Index and data is not None and not isinstance(data, (str, bytes)):
            if isinstance(data, MultiIndex):
                return object.__new__(MultiIndex)
        return object.__new__(cls)

    def __init__(self, data=(), name=None, dtype=None, names=None, copy=False):
        if isinstance(data, MultiIndex) and isinstance(self, MultiIndex):
            MultiIndex.__init__(self, list(data), names=data.names)
            return
        if isinstance(data, Index) and name is None:
            name = data.name
        self._v = _arr(list(data) if isinstance(data, range) else data, dtype)
        self.name = names[0] if names else name

    # -- basics
    @property
    def values(self):
        return self._v

    array = values

    @property
    def names(self):
        return [self.name]

    @names.setter
    def names(self, n):
        self.name = list(n)[0]

    @property
    def dtype(self):
        return self._v.dtype

    @property
    def empty(self):
        return len(self._v) == 0

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def size(self):
        return len(self._v)

    @property
    def nlevels(self):
        return 1

    @property
    def is_unique(self):
        return len(set(self.tolist())) == len(self)

    @property
    def has_duplicates(self):
        return not self.is_unique

    @property
    def is_monotonic_increasing(self):
        t = self.tolist()
        return all(x <= y for x, y in zip(t, t[1:]))

    is_monotonic = is_monotonic_increasing

    @property
    def is_monotonic_decreasing(self):
        t = self.tolist()
        return all(x >= y for x, y in zip(t, t[1:]))

    def tolist(self):
        return self._v.tolist()

    to_list = tolist

    def to_numpy(self, *a, **k):
        return self._v.copy()

    def to_series(self):
        return Series(self._v, index=self)

    def __array__(self, dtype=None, copy=None):
        return self._v.astype(dtype) if dtype is not None else self._v

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self.tolist())

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)):
            return self._v[key]
        if isinstance(key, (Series, Index)):
            key = key._v
        return type(self)(self._v[key], name=self.name)

    def __contains__(self, key):
        try:
            hash(key)
        except TypeError:
            return False
        return key in self._map()

    def _map(self):
        return {v: i for i, v in reversed(list(enumerate(self.tolist())))}

    def get_loc(self, key):
        hits = [i for i, v in enumerate(self.tolist()) if v is key or v == key]
        if not hits:
            raise KeyError(key)
        if len(hits) == 1:
            return hits[0]
        m = np.zeros(len(self), dtype=bool)
        m[hits] = True
        return m

    def get_indexer(self, target):
        m = self._map()
        return np.array([m.get(t, -1) for t in target])

    def _cmp(self, other, op):
        o = other._v if isinstance(other, (Index, Series)) else other
        if isinstance(o, (list, tuple, np.ndarray)) and len(o) != len(self._v):
            raise ValueError("Lengths must match to compare")
        return np.asarray(op(self._v, np.asarray(o, dtype=object) if isinstance(o, (list, tuple)) else o), dtype=bool)

    def __eq__(self, other):
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        return self._cmp(other, lambda a, b: a != b)

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    __hash__ = None

    def __add__(self, o):
        return Index(self._v + o)

    def __sub__(self, o):
        return Index(self._v - (o._v if isinstance(o, (Index, Series)) else o))

    def equals(self, other):
        return isinstance(other, Index) and self.tolist() == other.tolist()

    identical = equals

    def sort_values(self, return_indexer=False, ascending=True, **k):
        t = sorted(self.tolist(), reverse=not ascending)
        return type(self)(t if not isinstance(self._v, np.ndarray) or self._v.dtype == object
                          else np.array(t, dtype=self._v.dtype), name=self.name)

    def argsort(self, *a, **k):
        return np.argsort(self._v, kind="stable")

    def unique(self):
        return type(self)(list(dict.fromkeys(self.tolist())), name=self.name)

    def nunique(self):
        return len(set(self.tolist()))

    def duplicated(self, keep="first"):
        return Series(self._v).duplicated(keep)._v

    def isin(self, values):
        s = set(values)
        return np.array([v in s for v in self.tolist()], dtype=bool)

    def map(self, f):
        f = f.get if isinstance(f, dict) else f
        return Index([f(v) for v in self.tolist()], name=self.name)

    def difference(self, other, sort=None):
        o = set(other)
        r = list(dict.fromkeys(v for v in self.tolist() if v not in o))
        try:
            r = sorted(r)
        except TypeError:
            pass
        return Index(r, name=self.name)

    def intersection(self, other, sort=False):
        o = set(other)
        return Index([v for v in self.unique().tolist() if v in o], name=self.name)

    def union(self, other, sort=None):
        r = list(dict.fromkeys(self.tolist() + list(other)))
        try:
            r = sorted(r)
        except TypeError:
            pass
        return Index(r, name=self.name)

    def append(self, other):
        return Index(self.tolist() + list(other), name=self.name)

    def copy(self, deep=False, name=None):
        return type(self)(self._v.copy(), name=name if name is not None else self.name)

    def astype(self, t):
        return Index(self._v.astype(t), name=self.name)

    def min(self):
        return min(self.tolist())

    def max(self):
        return max(self.tolist())

    def diff(self):
        return Index(np.append([np.nan], np.diff(self._v)))

    def isna(self):
        return _isna_arr(self._v)

    isnull = isna

    def any(self):
        return bool(np.any(self._v))

    def all(self):
        return bool(np.all(self._v))

    def rename(self, name):
        return type(self)(self._v, name=name)

    set_names = rename

    def take(self, pos):
        return self[np.asarray(pos, dtype=int)]

    def get_level_values(self, level):
        return self

    def to_frame(self, index=True, name=None):
        return DataFrame({name if name is not None else self.name if self.name is not None else 0: self._v},
                         index=self if index else None)

    def to_flat_index(self):
        return self

    def insert(self, loc, item):
        t = self.tolist()
        t.insert(loc, item)
        return _relabel(self, t)

    def delete(self, loc):
        t = self.tolist()
        del t[loc]
        return _relabel(self, t)

    def symmetric_difference(self, other):
        return self.difference(other).union(Index(list(other)).difference(self))

    def notna(self):
        return ~_isna_arr(self._v)

    notnull = notna

    def drop_duplicates(self, keep="first"):
        return self[~self.duplicated(keep)]

    def get_indexer_for(self, target):
        return self.get_indexer(target)

    def searchsorted(self, v, side="left"):
        return np.searchsorted(self._v, v, side=side)

    def argmax(self):
        return int(np.argmax(self._v))

    def argmin(self):
        return int(np.argmin(self._v))

    def value_counts(self, **k):
        return Series(self._v).value_counts(**k)

    def drop(self, labels):
        ls = set(labels) if not _scalar_key(labels) else {labels}
        return type(self)([v for v in self.tolist() if v not in ls], name=self.name)

    def item(self):
        assert len(self) == 1
        return self.tolist()[0]

    @property
    def str(self):
        raise StubGap("pandas stand-in: Index.str is not implemented")

    def __repr__(self):
        return "Index(%r)" % (self.tolist(),)


class RangeIndex(Index):
    def __init__(self, start=0, stop=None, step=1, name=None, **k):
        if isinstance(start, (np.ndarray, list, range, Index)):
            super().__init__(start, name=name)
        else:
            r = range(start) if stop is None else range(start, stop, step)
            super().__init__(np.arange(r.start, r.stop, r.step), name=name)


Int64Index = Index


class MultiIndex(Index):
    def __init__(self, tuples=(), names=None, name=None):
        tuples = list(tuples)
        self._v = _obj([tuple(t) for t in tuples])
        n = len(self._v[0]) if len(self._v) else (len(names) if names else 1)
        self._names = list(names) if names is not None else [None] * n
        self.name = None

    @property
    def names(self):
        return list(self._names)

    @names.setter
    def names(self, n):
        self._names = list(n)

    @property
    def nlevels(self):
        return len(self._names)

    @property
    def levels(self):
        return [Index(sorted(set(t[i] for t in self._v))) for i in range(self.nlevels)]

    @classmethod
    def from_product(cls, iterables, sortorder=None, names=None):
        its = [list(i) for i in iterables]
        return cls(list(itertools.product(*its)), names=names)

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        return cls(tuples, names=names)

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        return cls(list(zip(*arrays)), names=names)

    @classmethod
    def from_frame(cls, df, sortorder=None, names=None):
        return cls(list(zip(*[df._cols[i].tolist() for i in range(len(df._columns))])),
                   names=names if names is not None else df._columns.tolist())

    def get_level_values(self, level):
        i = self._names.index(level) if level in self._names else level
        return Index([t[i] for t in self._v], name=self._names[i])

    def tolist(self):
        return list(self._v)

    to_list = tolist

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)):
            return self._v[key]
        return MultiIndex(list(self._v[key]), names=self._names)

    def copy(self, deep=False, names=None, **k):
        return MultiIndex(list(self._v), names=names or self._names)

    def sort_values(self, *a, **k):
        return MultiIndex(sorted(self._v), names=self._names)

    def set_names(self, names, **k):
        return MultiIndex(list(self._v), names=names)

    rename = set_names


def _mkindex(data, n=None):
    if data is None:
        return RangeIndex(n)
    if isinstance(data, Index):
        return data
    data = list(data)
    if data and all(isinstance(x, tuple) for x in data):
        return MultiIndex(data)
    return Index(data)


class _Loc(_Base):
    def __init__(self, obj):
        self._o = obj


def _positions(index, key):
    """(is_scalar, integer positions) for label-based row/column lookup."""
    if isinstance(key, slice):
        n = len(index)
        labels = index.tolist()

        def edge(lab, side):
            if lab is None:
                return 0 if side == "left" else n
            hits = [i for i, v in enumerate(labels) if v == lab]
            if hits:
                return hits[0] if side == "left" else hits[-1] + 1
            if index.is_monotonic_increasing:
                return int(np.searchsorted(np.asarray(labels), lab, side=side))
            raise KeyError(lab)
        return False, np.arange(edge(key.start, "left"), edge(key.stop, "right"))[:: key.step or 1]
    if isinstance(key, Series) and key._v.dtype == bool:
        return False, np.nonzero(key._v)[0]
    if isinstance(key, np.ndarray) and key.dtype == bool:
        if len(key) != len(index):
            raise IndexError("Boolean index has wrong length")
        return False, np.nonzero(key)[0]
    if not _scalar_key(key):
        ks = list(key)
        if ks and all(isinstance(k, (bool, np.bool_)) for k in ks) and len(ks) == len(index):
            return False, np.nonzero(np.array(ks))[0]
        out = []
        for k in ks:
            p = index.get_loc(k)
            out.extend(np.nonzero(p)[0].tolist() if isinstance(p, np.ndarray) else [p])
        return False, np.array(out, dtype=int)
    try:
        hash(key)
    except TypeError:
        raise TypeError("unhashable key %r" % (key,))
    p = index.get_loc(key)
    if isinstance(p, np.ndarray):
        return False, np.nonzero(p)[0]
    return True, p


class Series(_Base):
    def __init__(self, data=None, index=None, name=None, dtype=None, copy=False):
        if isinstance(data, dict):
            index = list(data) if index is None else index
            data = [data[k] for k in index]
        if isinstance(data, Series):
            index = data.index if index is None else index
            name = data.name if name is None else name
            data = data._v
        if data is not None and _scalar_key(data) and not hasattr(data, "__iter__") or isinstance(data, str):
            data = [data] * (len(index) if index is not None else 1)
        if data is None and index is not None and len(list(index)):
            data = np.full(len(list(index)), np.nan)
        self._v = _arr([] if data is None else data, dtype)
        if copy:
            self._v = self._v.copy()
        self.index = _mkindex(index, len(self._v))
        if len(self.index) != len(self._v):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(self._v), len(self.index)))
        self.name = name

    def _attr_fallback(self, name):
        if isinstance(name, str) and "index" in self.__dict__ and name in self.index:
            return True, self[name]
        return False, None

    values = property(lambda self: self._v)
    array = values
    dtype = property(lambda self: self._v.dtype)
    shape = property(lambda self: self._v.shape)
    size = property(lambda self: len(self._v))
    empty = property(lambda self: len(self._v) == 0)
    ndim = 1
    is_unique = property(lambda self: len(set(self.tolist())) == len(self._v))
    is_monotonic_increasing = property(lambda self: Index(self._v).is_monotonic_increasing)

    def _new(self, v, name=Ellipsis):
        return Series(v, index=self.index, name=self.name if name is Ellipsis else name)

    def __array__(self, dtype=None, copy=None):
        return self._v.astype(dtype) if dtype is not None else self._v

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v.tolist())

    def __contains__(self, k):
        return k in self.index

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous")

    def __getitem__(self, key):
        if isinstance(key, slice):
            if all(x is None or isinstance(x, int) for x in (key.start, key.stop, key.step)):
                return Series(self._v[key], index=self.index[key], name=self.name)
        elif isinstance(key, (int, np.integer)) and not isinstance(key, (bool, np.bool_)) and self.index._v.dtype == object \
                and key not in self.index:
            return self._v[key]
        one, p = _positions(self.index, key)
        return self._v[p] if one else Series(self._v[p], index=self.index[p], name=self.name)

    def __setitem__(self, key, value):
        try:
            _, p = _positions(self.index, key)
        except KeyError:
            self._v = _arr(self._v.tolist() + [value])
            self.index = _mkindex(self.index.tolist() + [key])
            return
        self._v = _assign(self._v, p, value)

    @property
    def loc(self):
        return _SeriesLoc(self)

    at = loc

    @property
    def iloc(self):
        return _SeriesILoc(self)

    iat = iloc

    def get(self, key, default=None):
        return self[key] if key in self.index else default

    def tolist(self):
        return self._v.tolist()

    to_list = tolist

    def to_numpy(self, dtype=None, *a, **k):
        return self._v.astype(dtype) if dtype else self._v.copy()

    def to_dict(self):
        return dict(zip(self.index.tolist(), self.tolist()))

    def to_frame(self, name=None):
        return DataFrame({name if name is not None else self.name: self})

    def items(self):
        return zip(self.index.tolist(), self.tolist())

    iteritems = items

    def keys(self):
        return self.index

    def copy(self, deep=True):
        return Series(self._v.copy(), index=self.index, name=self.name)

    def astype(self, t):
        return self._new(self._v.astype(object if t in (str, "str") and False else t))

    def map(self, f, na_action=None):
        if isinstance(f, Series):
            f = f.to_dict()
        if isinstance(f, dict):
            out = [f[v] if v in f else np.nan for v in self._v.tolist()]
        else:
            out = [f(v) for v in self._v.tolist()]
        return self._new(_arr(out))

    def apply(self, f, args=(), **k):
        return self._new(_arr([f(v, *args, **k) for v in self._v.tolist()]))

    def unique(self):
        u = list(dict.fromkeys(self._v.tolist()))
        return np.array(u, dtype=self._v.dtype) if self._v.dtype != object else _obj(u)

    def nunique(self, dropna=True):
        return len([v for v in dict.fromkeys(self._v.tolist()) if not (dropna and _isna_scalar(v))])

    def value_counts(self, normalize=False, **k):
        dropna, sort, ascending = k.pop("dropna", True), k.pop("sort", True), k.pop("ascending", False)
        _refuse("value_counts", k)
        c, total = {}, 0
        for v in self._v.tolist():
            if _isna_scalar(v):
                if dropna:
                    continue
                v = np.nan
            c[v] = c.get(v, 0) + 1
            total += 1
        ks = sorted(c, key=lambda x: c[x] if ascending else -c[x]) if sort else list(c)
        n = total if normalize else 1
        return Series([c[x] / n if normalize else c[x] for x in ks], index=ks)

    def isna(self):
        return self._new(_isna_arr(self._v))

    isnull = isna

    def notna(self):
        return self._new(~_isna_arr(self._v))

    notnull = notna

    def _inplace(self, out, inplace):
        if inplace:
            self._v, self.index, self.name = out._v, out.index, out.name
            return None
        return out

    def dropna(self, axis=0, inplace=False, how=None):
        m = ~_isna_arr(self._v)
        return self._inplace(Series(self._v[m], index=self.index[m], name=self.name), inplace)

    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None):
        if limit is not None:
            raise StubGap("pandas stand-in: fillna(limit=...)")
        if method is not None:
            return self._inplace(self._new(_carry(self._v, method)), inplace)
        if value is None:
            raise ValueError("Must specify a fill 'value' or 'method'.")
        v = self._v.copy()
        if isinstance(value, (Series, dict)):
            value = value.to_dict() if isinstance(value, Series) else value
            for k, (lab, gone) in enumerate(zip(self.index.tolist(), _isna_arr(v))):
                if gone and lab in value:
                    v[k] = value[lab]
        else:
            v[_isna_arr(v)] = value
        return self._inplace(self._new(v), inplace)

    def ffill(self, **k):
        _refuse("ffill", k)
        return self._new(_carry(self._v, "ffill"))

    def bfill(self, **k):
        _refuse("bfill", k)
        return self._new(_carry(self._v, "bfill"))

    def where(self, cond, other=np.nan, **k):
        _refuse("where", k)
        cond = np.asarray(cond(self) if callable(cond) else cond, dtype=bool)
        o = other._v if isinstance(other, Series) else np.asarray(other)
        return self._new(np.where(cond, self._v, o) if self._v.dtype != object else _obj(
            [a if c else b for a, c, b in zip(self._v, cond, np.broadcast_to(o, cond.shape))]))

    def mask(self, cond, other=np.nan, **k):
        return self.where(~np.asarray(cond(self) if callable(cond) else cond, dtype=bool), other, **k)

    def clip(self, lower=None, upper=None, **k):
        _refuse("clip", k)
        return self._new(np.clip(self._v, lower, upper))

    def between(self, left, right, inclusive=True):
        lo = self._v >= left if inclusive in (True, "both", "left") else self._v > left
        hi = self._v <= right if inclusive in (True, "both", "right") else self._v < right
        return self._new(lo & hi)

    def prod(self, axis=None, skipna=True, **k):
        v = self._clean() if skipna else self._v
        return v.prod() if len(v) else 1

    product = prod

    def cumprod(self):
        return self._new(np.cumprod(self._v))

    def cummax(self):
        return self._new(np.maximum.accumulate(self._v))

    def cummin(self):
        return self._new(np.minimum.accumulate(self._v))

    def argmin(self):
        return int(np.argmin(self._v))

    def argsort(self, *a, **k):
        return self._new(np.argsort(self._v, kind="stable"))

    def searchsorted(self, v, side="left", sorter=None):
        return np.searchsorted(self._v, v, side=side, sorter=sorter)

    def nlargest(self, n=5, keep="first"):
        return self.sort_values(ascending=False).head(n)

    def nsmallest(self, n=5, keep="first"):
        return self.sort_values().head(n)

    def agg(self, f, *a, **k):
        if isinstance(f, (list, tuple)):
            return Series(_arr([self.agg(g) for g in f]), index=[g if isinstance(g, str) else g.__name__ for g in f], name=self.name)
        if isinstance(f, str):
            return getattr(self, f)(*a, **k)
        return f(self, *a, **k)

    aggregate = agg

    def transform(self, f, *a, **k):
        r = self.agg(f, *a, **k)
        return r if isinstance(r, Series) else self.apply(f)

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def mode(self, **k):
        c = self.value_counts()
        top = c.max() if len(c) else 0
        return Series(sorted(v for v, n in c.items() if n == top), name=self.name)

    def ravel(self, *a):
        return self._v

    def squeeze(self, axis=None):
        return self._v[0] if len(self) == 1 else self

    def take(self, pos, **k):
        return self.iloc[list(pos)]

    def append(self, other, ignore_index=False, **k):
        return concat([self] + (list(other) if isinstance(other, (list, tuple)) else [other]), ignore_index=ignore_index)

    def drop(self, labels=None, index=None, inplace=False, errors="raise", axis=0):
        rs = labels if labels is not None else index
        rs = [rs] if _scalar_key(rs) and not isinstance(rs, set) else list(rs)
        if errors == "raise":
            for r in rs:
                if r not in self.index:
                    raise KeyError("%r not found in axis" % (r,))
        keep = [i for i, v in enumerate(self.index.tolist()) if v not in rs]
        return self._inplace(self.iloc[keep], inplace)

    def pop(self, key):
        v = self[key]
        self._inplace(self.drop(key), True)
        return v

    def reindex(self, index, fill_value=np.nan):
        m = self.to_dict()
        return Series(_arr([m.get(i, fill_value) for i in index]), index=index, name=self.name)

    def combine_first(self, other):
        m = {k: v for k, v in self.items() if not _isna_scalar(v)}
        return self.reindex(self.index.union(other.index)).fillna(Series({**other.to_dict(), **m}))

    def set_axis(self, labels, axis=0, inplace=False):
        return Series(self._v, index=labels, name=self.name)

    def sample(self, *a, **k):
        raise StubGap("pandas stand-in: Series.sample")

    def groupby(self, by=None, level=None, sort=True, **k):
        if level is not None or by is None:
            by = self.index.get_level_values(level if level is not None else 0).tolist() if isinstance(self.index, MultiIndex) \
                else self.index.tolist()
        return _GroupBy(self, [_group_key(self, by)], None, sort, True)

    nbytes = property(lambda self: self._v.nbytes)
    hasnans = property(lambda self: bool(_isna_arr(self._v).any()))
    T = property(lambda self: self)
    axes = property(lambda self: [self.index])
    is_monotonic = property(lambda self: Index(self._v).is_monotonic_increasing)
    is_monotonic_decreasing = property(lambda self: Index(self._v).is_monotonic_decreasing)
    dtypes = property(lambda self: self._v.dtype)

    @property
    def str(self):
        return _Str(self)

    def explode(self, *a):
        raise StubGap("pandas stand-in: Series.explode")

    def any(self, axis=None, skipna=True, **k):
        return bool(np.any(self._v.astype(bool)))

    def all(self, axis=None, skipna=True, **k):
        return bool(np.all(self._v.astype(bool)))

    def _clean(self):
        return self._v[~_isna_arr(self._v)]

    def _red(self, f, skipna=True):
        v = self._clean() if skipna else self._v
        return f(v) if len(v) else np.nan

    def max(self, axis=None, skipna=True, **k):
        return self._red(np.max, skipna)

    def min(self, axis=None, skipna=True, **k):
        return self._red(np.min, skipna)

    def sum(self, axis=None, skipna=True, **k):
        v = self._clean() if skipna else self._v
        return v.sum() if len(v) else 0

    def mean(self, axis=None, skipna=True, **k):
        return self._red(np.mean, skipna)

    def median(self, **k):
        return self._red(np.median)

    def std(self, axis=None, ddof=1, **k):
        return self._red(lambda v: np.std(v, ddof=ddof))

    def var(self, axis=None, ddof=1, **k):
        return self._red(lambda v: np.var(v, ddof=ddof))

    def quantile(self, q=0.5):
        return np.quantile(self._clean(), q)

    def count(self):
        return len(self._clean())

    def idxmax(self, axis=None, skipna=True):
        return self.index[int(np.argmax(self._v))]

    def idxmin(self, axis=None, skipna=True):
        return self.index[int(np.argmin(self._v))]

    def argmax(self):
        return int(np.argmax(self._v))

    def abs(self):
        return self._new(np.abs(self._v))

    def round(self, n=0):
        return self._new(np.round(self._v, n))

    def diff(self, periods=1):
        v = self._v.astype(float)
        out = np.full(len(v), np.nan)
        out[periods:] = v[periods:] - v[:-periods]
        return self._new(out)

    def shift(self, periods=1):
        v = self._v.astype(float)
        out = np.full(len(v), np.nan)
        if periods > 0:
            out[periods:] = v[:-periods]
        elif periods < 0:
            out[:periods] = v[-periods:]
        else:
            out = v
        return self._new(out)

    def cumsum(self):
        return self._new(np.cumsum(self._v))

    def isin(self, values):
        s = set(values)
        return self._new(np.array([v in s for v in self._v.tolist()], dtype=bool))

    def duplicated(self, keep="first"):
        return self._new(_dups(self._v.tolist(), keep))

    def drop_duplicates(self, keep="first", **k):
        return self[~self.duplicated(keep)._v]

    def replace(self, to_replace=None, value=None, inplace=False, **k):
        _refuse("replace", k)
        m = _replacement(to_replace, value)
        return self._inplace(self._new(_arr([m(v) for v in self._v.tolist()])), inplace)

    def sort_index(self, axis=0, ascending=True, inplace=False, ignore_index=False, **k):
        _refuse("sort_index", k, "kind", "na_position")
        t = self.index.tolist()
        o = sorted(range(len(self)), key=lambda i: t[i], reverse=not ascending)
        out = Series(self._v[o], index=None if ignore_index else self.index[np.array(o, dtype=int)], name=self.name)
        return self._inplace(out, inplace)

    def sort_values(self, axis=0, ascending=True, inplace=False, ignore_index=False, key=None, **k):
        _refuse("sort_values", k, "kind", "na_position")
        v = key(self)._v if key is not None else self._v
        gone = _isna_arr(v)
        t = v.tolist()
        o = sorted(np.nonzero(~gone)[0], key=lambda i: t[i], reverse=not ascending) + list(np.nonzero(gone)[0])
        o = np.array(o, dtype=int)
        return self._inplace(Series(self._v[o], index=None if ignore_index else self.index[o], name=self.name), inplace)

    def reset_index(self, level=None, drop=False, name=None, inplace=False):
        if drop:
            return self._inplace(Series(self._v, name=self.name), inplace)
        d = self.to_frame(name if name is not None else self.name if self.name is not None else 0)
        return d.reset_index(level)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def equals(self, o):
        return isinstance(o, Series) and self.tolist() == o.tolist() and self.index.equals(o.index)

    def rename(self, index=None, name=None, inplace=False, **k):
        _refuse("rename", k, "axis", "copy")
        if callable(index) or isinstance(index, dict):
            f = index if callable(index) else lambda v: index.get(v, v)
            return self._inplace(Series(self._v, index=_relabel(self.index, [f(v) for v in self.index.tolist()]), name=self.name), inplace)
        return self._inplace(self._new(self._v, name=index if name is None else name), inplace)

    def item(self):
        assert len(self) == 1
        return self._v.tolist()[0]

    def dot(self, o):
        return self._v.dot(np.asarray(o))

    def _bin(self, other, op):
        if isinstance(other, Series):
            if not self.index.equals(other.index):
                if op.__name__ in ("eq", "ne", "lt", "le", "gt", "ge"):
                    raise ValueError("Can only compare identically-labeled Series objects")
                if not (self.index.is_unique and other.index.is_unique):
                    raise StubGap("pandas stand-in: arithmetic of Series with repeated, different indexes")
                labels = self.index.union(other.index)
                return Series(op(self.reindex(labels)._v, other.reindex(labels)._v), index=labels)
            other = other._v
        elif isinstance(other, Index):
            other = other._v
        elif isinstance(other, list):
            other = _arr(other)
        r = op(self._v, other)
        if isinstance(r, (bool, np.bool_)):
            r = np.full(len(self._v), bool(r))
        return self._new(r)

    def __neg__(self):
        return self._new(-self._v)

    def __invert__(self):
        return self._new(~self._v)

    def __abs__(self):
        return self.abs()

    __hash__ = None

    def __repr__(self):
        return "Series(%r)" % (self.to_dict() if self.index.is_unique else self.tolist(),)


class _SeriesLoc(_Loc):
    def __getitem__(self, key):
        s = self._o
        one, p = _positions(s.index, key)
        return s._v[p] if one else Series(s._v[p], index=s.index[p], name=s.name)

    def __setitem__(self, key, value):
        self._o[key] = value


class _SeriesILoc(_Loc):
    def __getitem__(self, key):
        s = self._o
        if isinstance(key, (int, np.integer)):
            return s._v[key]
        if isinstance(key, list):
            key = np.array(key, dtype=int if not key or not isinstance(key[0], bool) else bool)
        return Series(s._v[key], index=s.index[key], name=s.name)

    def __setitem__(self, key, value):
        self._o._v = _assign(self._o._v, key, value)


def _assign(a, p, value):
    """Array ``a`` with value(s) stored: in place when the dtype allows it (views and caller arrays see it, as in pandas),
    else a wider copy."""
    v = value._v if isinstance(value, (Series, Index)) else value
    if isinstance(v, (list, tuple)) and a.dtype != object:
        v = _arr(v)
    vd = np.asarray(v).dtype
    if a.dtype != object:
        if vd.kind in "biuf" and a.dtype.kind in "iuf" and vd.kind != "b":
            t = np.result_type(a.dtype, vd)
        elif vd == a.dtype:
            t = a.dtype
        else:
            t = object
        if t != a.dtype:
            a = a.astype(t)
    a[p] = v
    if a.dtype == object and vd != object and np.shape(v) == a.shape:
        a = a.astype(vd)      # every value replaced: pandas takes over the new dtype
    return a


class DataFrame(_Base):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=False):
        set_ = object.__setattr__
        cols, labels, n = [], None, None
        if isinstance(data, DataFrame):
            labels = data._columns
            cols = [c.copy() if copy else c for c in data._cols]
            index = data._index if index is None else index
            if columns is not None:
                pos = [data._columns.get_loc(c) for c in columns]
                cols, labels = [cols[p] for p in pos], columns
        elif isinstance(data, Series):
            labels = columns if columns is not None else [data.name if data.name is not None else 0]
            cols = [data._v.copy()]
            index = data.index if index is None else index
        elif isinstance(data, dict):
            labels = list(data) if columns is None else list(columns)
            n = len(index) if index is not None else None
            for k in data.values():
                if isinstance(k, Series) and index is None:
                    index = k.index
                if n is None and (not _scalar_key(k) or isinstance(k, (tuple, range))):
                    n = len(k)
            for lab in labels:
                v = data.get(lab)
                if v is None and lab not in data:
                    v = [np.nan] * (n or 0)
                if _scalar_key(v) and not isinstance(v, (tuple, range)):
                    if n is None:
                        raise ValueError("If using all scalar values, you must pass an index")
                    v = [v] * n
                cols.append(_arr(v, dtype).copy())
        elif data is None:
            n = len(index) if index is not None else 0
            labels = list(columns) if columns is not None else []
            cols = [np.full(n, np.nan) for _ in labels]
            if n == 0:
                cols = [np.empty(0, dtype=object) for _ in labels]
        else:
            if not isinstance(data, np.ndarray):
                data = list(data)
                if data and isinstance(data[0], dict):
                    labels = columns if columns is not None else list(dict.fromkeys(k for r in data for k in r))
                    cols = [_arr([r.get(c, np.nan) for r in data], dtype) for c in labels]
                elif data and isinstance(data[0], (list, tuple, np.ndarray, Series)):
                    w = max(len(r) for r in data)
                    cols = [_arr([list(r)[j] for r in data], dtype) for j in range(w)]
                    if isinstance(data[0], Series) and columns is None:
                        columns = data[0].index
                else:
                    cols = [_arr(data, dtype)]
            else:
                a = data
                if a.ndim == 1:
                    a = a.reshape(-1, 1)
                if a.ndim != 2:
                    raise ValueError("Must pass 2-d input. shape=%r" % (a.shape,))
                if dtype is not None:
                    a = a.astype(dtype)
                cols = [a[:, j].copy() if copy else a[:, j] for j in range(a.shape[1])]
                n = a.shape[0]
            if labels is None:
                labels = columns if columns is not None else range(len(cols))
        labels = _mkindex(labels)
        if len(labels) != len(cols):
            raise ValueError("%d columns passed, passed data had %d columns" % (len(labels), len(cols)))
        if n is None or cols:
            n = len(cols[0]) if cols else (n or 0)
        if any(len(c) != n for c in cols):
            raise ValueError("All arrays must be of the same length")
        idx = _mkindex(index, n)
        if len(idx) != n:
            raise ValueError("Shape of passed values is %r, indices imply %r" % ((n, len(cols)), (len(idx), len(cols))))
        set_(self, "_columns", labels if labels.__class__ is not RangeIndex else Index(labels))
        set_(self, "_cols", cols)
        set_(self, "_index", idx)

    def _attr_fallback(self, name):
        if "_columns" in self.__dict__ and name in self._columns:
            return True, self[name]
        return False, None

    def __setattr__(self, name, value):
        if name in ("columns", "index") or name.startswith("_") or isinstance(getattr(type(self), name, None), property):
            object.__setattr__(self, name, value)
        elif name in self._columns:
            self[name] = value
        else:
            object.__setattr__(self, name, value)

    # -- structure
    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, v):
        v = _mkindex(v)
        if len(v) != len(self._cols):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (
                len(self._cols), len(v)))
        self._columns = v

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, v):
        v = _mkindex(v)
        if len(v) != len(self):
            raise ValueError("Length mismatch")
        self._index = v

    @property
    def values(self):
        n = len(self)
        if not self._cols:
            return np.empty((n, 0))
        kinds = {c.dtype for c in self._cols}
        if len(kinds) == 1:
            t = kinds.pop()
        elif all(k.kind in "iuf" for k in kinds):
            t = np.result_type(*kinds)
        else:
            t = object
        out = np.empty((n, len(self._cols)), dtype=t)
        for j, c in enumerate(self._cols):
            out[:, j] = c
        if all(c.dtype == t for c in self._cols):
            # like a single-block frame of pandas 1.x: .values is a view of the data
            self._cols = [out[:, j] for j in range(out.shape[1])]
        return out

    def to_numpy(self, dtype=None, copy=False, **k):
        v = self.values
        return v.astype(dtype) if dtype else v.copy() if copy else v

    def __array__(self, dtype=None, copy=None):
        return self.values.astype(dtype) if dtype is not None else self.values

    @property
    def shape(self):
        return (len(self), len(self._cols))

    @property
    def size(self):
        return len(self) * len(self._cols)

    ndim = 2

    @property
    def empty(self):
        return self.size == 0

    @property
    def dtypes(self):
        return Series(_obj([c.dtype for c in self._cols]), index=self._columns)

    @property
    def T(self):
        return DataFrame(self.values.T, index=self._columns, columns=self._index)

    transpose = lambda self: self.T

    @property
    def axes(self):
        return [self._index, self._columns]

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(self._columns)

    def __contains__(self, k):
        return k in self._columns

    def keys(self):
        return self._columns

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous")

    __hash__ = None

    # -- selection
    def _take_cols(self, pos):
        return _frame([self._cols[p].copy() for p in pos], self._index, self._columns[np.array(pos, dtype=int)])

    def _take_rows(self, pos):
        pos = np.asarray(pos, dtype=int)
        return _frame([c[pos] for c in self._cols], self._index[pos], self._columns)

    def _row(self, i):
        vals = [c[i] for c in self._cols]
        kinds = {c.dtype for c in self._cols}
        a = np.array(vals) if kinds and all(k.kind in "iuf" for k in kinds) else (
            np.array(vals, dtype=bool) if kinds == {np.dtype(bool)} else _obj(vals))
        return Series(a, index=self._columns, name=self._index[i])

    def __getitem__(self, key):
        if isinstance(key, slice):
            return self.iloc[key] if all(x is None or isinstance(x, int) for x in (key.start, key.stop)) else self.loc[key]
        if isinstance(key, DataFrame):
            raise StubGap("pandas stand-in: DataFrame[DataFrame]")
        if (isinstance(key, (Series, np.ndarray)) and np.asarray(key).dtype == bool) or (
                isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key)
                and len(key) == len(self) and not all(k in self._columns for k in key)):
            return self._take_rows(np.nonzero(np.asarray(key))[0])
        one, p = _positions(self._columns, key)
        if one:
            return Series(self._cols[p], index=self._index, name=self._columns[p])
        return self._take_cols(list(p))

    def get(self, key, default=None):
        return self[key] if key in self._columns else default

    def __setitem__(self, key, value):
        if isinstance(key, list):
            vals = value.values if isinstance(value, DataFrame) else value
            if isinstance(vals, np.ndarray) and vals.ndim == 2:
                for j, k in enumerate(key):
                    self[k] = vals[:, j]
            else:
                for k in key:
                    self[k] = vals
            return
        if not _scalar_key(key):
            raise StubGap("pandas stand-in: DataFrame[%s] = ..." % type(key).__name__)
        n = len(self)
        if isinstance(value, Series):
            if not value.index.equals(self._index) and self._cols:
                m = value.to_dict()
                v = _arr([m.get(i, np.nan) for i in self._index.tolist()])
            else:
                v = value._v.copy()
                if not self._cols:
                    self._index = value.index
        elif isinstance(value, DataFrame):
            v = value._cols[0].copy()
        elif _scalar_key(value) and not isinstance(value, (tuple, range)) and not hasattr(value, "__next__"):
            v = _arr([value] * n) if n else np.empty(0, dtype=object)
        else:
            v = _arr(value if isinstance(value, (list, np.ndarray, Index)) else list(value)).copy()
            if not self._cols and n == 0:
                self._index = RangeIndex(len(v))
                n = len(v)
            if len(v) != n:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), n))
        if key in self._columns:
            p = self._columns.get_loc(key)
            cols = list(self._cols)
            cols[p] = v
            self._cols = cols
        else:
            self._columns = _relabel(self._columns, self._columns.tolist() + [key])
            self._cols = list(self._cols) + [v]

    def __delitem__(self, key):
        p = self._columns.get_loc(key)
        self._cols = [c for i, c in enumerate(self._cols) if i != p]
        self._columns = _relabel(self._columns, [c for i, c in enumerate(self._columns.tolist()) if i != p])

    def pop(self, key):
        s = self[key]
        del self[key]
        return s

    def insert(self, loc, column, value, **k):
        self[column] = value
        order = self._columns.tolist()
        order.insert(loc, order.pop())
        pos = [self._columns.get_loc(c) for c in order]
        self._cols = [self._cols[p] for p in pos]
        self._columns = _relabel(self._columns, order)

    def assign(self, **kw):
        d = self.copy()
        for k, v in kw.items():
            d[k] = v(d) if callable(v) else v
        return d

    @property
    def loc(self):
        return _FrameLoc(self)

    @property
    def iloc(self):
        return _FrameILoc(self)

    @property
    def at(self):
        return _FrameLoc(self)

    @property
    def iat(self):
        return _FrameILoc(self)

    # -- copies and reshaping
    def copy(self, deep=True):
        return _frame([c.copy() if deep else c for c in self._cols], self._index, self._columns)

    def append(self, other, ignore_index=False, **k):
        return concat([self, other], ignore_index=ignore_index)

    def corr(self, method="pearson", **k):
        if method != "pearson":
            raise StubGap("corr(method=%r)" % (method,))
        with np.errstate(all="ignore"):
            c = np.corrcoef(np.asarray(self.values, dtype=float), rowvar=False).reshape(len(self._cols), len(self._cols))
        return _frame([c[:, j].copy() for j in range(len(self._cols))], Index(self._columns.tolist()), self._columns)

    def set_index(self, keys, drop=True, inplace=False, append=False):
        ks = keys if isinstance(keys, list) else [keys]
        pos = [self._columns.get_loc(k) for k in ks]
        if len(ks) == 1:
            idx = Index(self._cols[pos[0]], name=ks[0])
        else:
            idx = MultiIndex(list(zip(*[self._cols[p].tolist() for p in pos])), names=ks)
        out = self.copy()
        out._index = idx
        if drop:
            keep = [i for i in range(len(self._cols)) if i not in pos]
            out._cols = [self._cols[i] for i in keep]
            out._columns = self._columns[np.array(keep, dtype=int)]
        return self._inplace(out, inplace)

    def _inplace(self, out, inplace):
        if inplace:
            self._cols, self._columns, self._index = out._cols, out._columns, out._index
            return None
        return out

    def reset_index(self, level=None, drop=False, inplace=False, **k):
        _refuse("reset_index", k)
        if level is not None:
            raise StubGap("pandas stand-in: reset_index(level=...)")
        out = self.copy()
        if not drop and isinstance(self._index, MultiIndex):
            for j, name in reversed(list(enumerate(self._index.names))):
                out.insert(0, name if name is not None else "level_%d" % j, _arr([t[j] for t in self._index.tolist()]))
        elif not drop:
            name = self._index.name if self._index.name is not None else "index" if "index" not in self._columns else "level_0"
            out.insert(0, name, self._index._v)
        out._index = RangeIndex(len(self))
        return self._inplace(out, inplace)

    def reindex(self, labels=None, index=None, columns=None, axis=0, fill_value=np.nan, **k):
        _refuse("reindex", k, "copy")
        if labels is not None:
            index, columns = (index, labels) if axis in (1, "columns") else (labels, columns)
        d = self
        if columns is not None:
            d = _frame([d._cols[d._columns.get_loc(c)].copy() if c in d._columns else _arr([fill_value] * len(d))
                        for c in columns], d._index, _mkindex(columns))
        if index is not None:
            if not d._index.is_unique:
                raise ValueError("cannot reindex from a duplicate axis")
            at = d._index._map()
            index = list(index)
            if all(i in at for i in index):
                d = _frame([c[[at[i] for i in index]] for c in d._cols], _mkindex(index), d._columns)
            else:
                d = _frame([_arr([c[at[i]] if i in at else fill_value for i in index]) for c in d._cols], _mkindex(index), d._columns)
        return d

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        out = self.copy()
        if columns is not None:
            cs = [columns] if _scalar_key(columns) and not isinstance(columns, set) else list(columns)
            if errors == "raise":
                for c in cs:
                    if c not in self._columns:
                        raise KeyError("%r not found in axis" % (c,))
            keep = [i for i, c in enumerate(self._columns.tolist()) if c not in cs]
            out = out._take_cols(keep)
        if index is not None:
            rs = [index] if _scalar_key(index) else list(index)
            if errors == "raise":
                for r in rs:
                    if r not in self._index:
                        raise KeyError("%r not found in axis" % (r,))
            out = out._take_rows([i for i, r in enumerate(self._index.tolist()) if r not in rs])
        return self._inplace(out, inplace)

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, **k):
        if mapper is not None:
            if axis in (1, "columns"):
                columns = mapper
            else:
                index = mapper
        out = self.copy()

        def ap(f, x):
            return f.get(x, x) if isinstance(f, dict) else f(x)
        if columns is not None:
            out._columns = _relabel(self._columns, [ap(columns, c) for c in self._columns.tolist()])
        if index is not None:
            out._index = _relabel(self._index, [ap(index, c) for c in self._index.tolist()])
        return self._inplace(out, inplace)

    def add_prefix(self, p):
        return self.rename(columns=lambda c: "%s%s" % (p, c))

    def add_suffix(self, p):
        return self.rename(columns=lambda c: "%s%s" % (c, p))

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def sample(self, *a, **k):
        raise StubGap("pandas stand-in: DataFrame.sample")

    def sort_index(self, axis=0, level=None, ascending=True, inplace=False, ignore_index=False, **k):
        _refuse("sort_index", k, "kind", "na_position", "sort_remaining")
        if level is not None:
            raise StubGap("pandas stand-in: sort_index(level=...)")
        ix = self._index if axis in (0, "index") else self._columns
        t = ix.tolist()
        o = sorted(range(len(t)), key=lambda i: t[i], reverse=not ascending)
        out = self._take_rows(o) if axis in (0, "index") else self._take_cols(o)
        return self._inplace(out.reset_index(drop=True) if ignore_index else out, inplace)

    def sort_values(self, by, axis=0, ascending=True, inplace=False, ignore_index=False, **k):
        _refuse("sort_values", k, "kind", "na_position")
        if axis not in (0, "index"):
            raise StubGap("pandas stand-in: sort_values(axis=1)")
        by = [by] if _scalar_key(by) else list(by)
        ways = [bool(ascending)] * len(by) if isinstance(ascending, (bool, int)) else list(ascending)
        o = list(range(len(self)))
        for b, up in reversed(list(zip(by, ways))):
            c = self[b]
            gone, t = _isna_arr(c._v), c.tolist()
            o = sorted([i for i in o if not gone[i]], key=lambda i: t[i], reverse=not up) + [i for i in o if gone[i]]
        out = self._take_rows(o)
        return self._inplace(out.reset_index(drop=True) if ignore_index else out, inplace)

    def select_dtypes(self, include=None, exclude=None):
        def hit(c, spec):
            for s in [spec] if _scalar_key(spec) else spec:
                if s in ("number", np.number, "numeric"):
                    if c.dtype.kind in "iufc":
                        return True
                elif s in ("bool", bool):
                    if c.dtype.kind == "b":
                        return True
                elif s in ("object", object, "O"):
                    if c.dtype == object:
                        return True
                elif s in ("float", float, "float64"):
                    if c.dtype.kind == "f":
                        return True
                elif s in ("int", int, "int64", "integer", np.integer):
                    if c.dtype.kind == "i":
                        return True
                else:
                    raise StubGap("pandas stand-in: select_dtypes(%r)" % (s,))
            return False
        keep = [i for i, c in enumerate(self._cols)
                if (include is None or hit(c, include)) and (exclude is None or not hit(c, exclude))]
        return self._take_cols(keep)

    def astype(self, t):
        if isinstance(t, dict):
            d = self.copy()
            for k, v in t.items():
                d[k] = d[k].astype(v)
            return d
        return _frame([c.astype(t) for c in self._cols], self._index, self._columns)

    # -- iteration
    def items(self):
        return iter([(l, Series(c, index=self._index, name=l)) for l, c in zip(self._columns.tolist(), self._cols)])

    iteritems = items

    def iterrows(self):
        return iter([(self._index[i], self._row(i)) for i in range(len(self))])

    def itertuples(self, index=True, name="Pandas"):
        import collections
        names = (["Index"] if index else []) + [c if isinstance(c, str) else "_%d" % k for k, c in enumerate(self._columns.tolist())]
        make = tuple if name is None else collections.namedtuple(name, names, rename=True)._make
        return iter([make((([self._index[i]] if index else []) + [c[i] for c in self._cols])) for i in range(len(self))])

    def apply(self, f, axis=0, raw=False, args=(), result_type=None, **k):
        if axis in (1, "columns"):
            out = [f(self._row(i), *args, **k) for i in range(len(self))]
            if out and isinstance(out[0], Series):
                return DataFrame(out, index=self._index)
            return Series(_arr(out), index=self._index)
        out = [f(s, *args, **k) for _, s in self.items()]
        if out and isinstance(out[0], Series):
            return _frame([s._v for s in out], out[0].index, self._columns)
        return Series(_arr(out), index=self._columns)

    def applymap(self, f):
        return _frame([_arr([f(v) for v in c.tolist()]) for c in self._cols], self._index, self._columns)

    map = applymap

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(zip(self._columns.tolist(), [c[i] for c in self._cols])) for i in range(len(self))]
        if orient == "list":
            return {l: c.tolist() for l, c in zip(self._columns.tolist(), self._cols)}
        if orient == "index":
            return {self._index[i]: dict(zip(self._columns.tolist(), [c[i] for c in self._cols])) for i in range(len(self))}
        return {l: dict(zip(self._index.tolist(), c.tolist())) for l, c in zip(self._columns.tolist(), self._cols)}

    # -- predicates and reductions
    def _each(self, f):
        return _frame([f(c) for c in self._cols], self._index, self._columns)

    def isna(self):
        return self._each(_isna_arr)

    isnull = isna

    def notna(self):
        return self._each(lambda c: ~_isna_arr(c))

    notnull = notna

    def abs(self):
        return self._each(np.abs)

    def round(self, n=0):
        return self._each(lambda c: np.round(c, n))

    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None):
        if limit is not None or axis in (1, "columns"):
            raise StubGap("pandas stand-in: fillna(limit=/axis=...)")
        value = value.to_dict() if isinstance(value, Series) else value

        def f(lab, c):
            if isinstance(value, DataFrame):
                return Series(c, index=self._index).fillna(value[lab] if lab in value._columns else {})._v
            if isinstance(value, dict):
                return c if lab not in value else Series(c).fillna(value[lab])._v
            return Series(c).fillna(value, method=method)._v
        return self._inplace(_frame([f(lab, c) for lab, c in zip(self._columns.tolist(), self._cols)], self._index, self._columns),
                             inplace)

    def ffill(self, **k):
        _refuse("ffill", k)
        return self.fillna(method="ffill")

    def bfill(self, **k):
        _refuse("bfill", k)
        return self.fillna(method="bfill")

    def dropna(self, axis=0, how="any", thresh=None, subset=None, inplace=False):
        if thresh is not None:
            raise StubGap("pandas stand-in: dropna(thresh=...)")
        d = self if subset is None else self[[subset] if _scalar_key(subset) else list(subset)] if axis in (0, "index") \
            else self.loc[list(subset)]
        m = np.array([[bool(x) for x in _isna_arr(c)] for c in d._cols]).T.reshape(len(d), len(d._cols)) if d._cols else np.zeros((len(d), 0))
        gone = (np.any if how == "any" else np.all)(m, axis=1 if axis in (0, "index") else 0)
        keep = np.nonzero(~gone.astype(bool))[0]
        return self._inplace(self._take_rows(keep) if axis in (0, "index") else self._take_cols(list(keep)), inplace)

    def shift(self, periods=1, axis=0, **k):
        _refuse("shift", k)
        if axis not in (0, "index"):
            return self.T.shift(periods).T
        return self._each(lambda c: Series(c).shift(periods)._v)

    def diff(self, periods=1, axis=0):
        if axis not in (0, "index"):
            return self.T.diff(periods).T
        return self._each(lambda c: Series(c).diff(periods)._v)

    def where(self, cond, other=np.nan, **k):
        _refuse("where", k)
        cond = np.asarray(cond(self) if callable(cond) else cond, dtype=bool)
        o = np.broadcast_to(np.asarray(other), cond.shape)
        return _frame([Series(c).where(cond[:, j], o[:, j])._v for j, c in enumerate(self._cols)], self._index, self._columns)

    def mask(self, cond, other=np.nan, **k):
        return self.where(~np.asarray(cond(self) if callable(cond) else cond, dtype=bool), other, **k)

    def clip(self, lower=None, upper=None, **k):
        _refuse("clip", k)
        return self._each(lambda c: np.clip(c, lower, upper))

    def isin(self, values):
        if isinstance(values, dict):
            return _frame([Series(c).isin(values.get(l, []))._v for l, c in zip(self._columns.tolist(), self._cols)], self._index,
                          self._columns)
        return self._each(lambda c: Series(c).isin(values)._v)

    def replace(self, to_replace=None, value=None, inplace=False, **k):
        _refuse("replace", k)
        if isinstance(to_replace, dict) and any(isinstance(v, dict) for v in to_replace.values()):
            out = [Series(c).replace(to_replace[l])._v if l in to_replace else c.copy()
                   for l, c in zip(self._columns.tolist(), self._cols)]
            return self._inplace(_frame(out, self._index, self._columns), inplace)
        return self._inplace(self._each(lambda c: Series(c).replace(to_replace, value)._v), inplace)

    def squeeze(self, axis=None):
        if len(self._cols) == 1 and axis in (None, 1, "columns"):
            s = self[self._columns[0]]
            return s.squeeze() if axis is None else s
        if len(self) == 1 and axis in (None, 0, "index"):
            return self._row(0)
        return self

    def agg(self, f, axis=0, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)(*a, axis=axis, **k)
        if isinstance(f, dict):
            return Series(_arr([self[c].agg(g) for c, g in f.items()]), index=list(f))
        if isinstance(f, (list, tuple)):
            rows = [s.agg(f) for _, s in self.items()]
            return DataFrame({l: r for l, r in zip(self._columns.tolist(), rows)})
        return self.apply(f, axis, args=a, **k)

    aggregate = agg

    def transform(self, f, axis=0, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)(*a, **k)
        return self.apply(f, axis, args=a, **k)

    def quantile(self, q=0.5, axis=0, **k):
        _refuse("quantile", k, "numeric_only")
        if not isinstance(q, (int, float)):
            raise StubGap("pandas stand-in: quantile of several levels")
        return self._reduce("quantile", axis, q=q)

    def prod(self, axis=0, **k):
        return self._reduce("prod", axis, **k)

    product = prod

    def mode(self, **k):
        raise StubGap("pandas stand-in: DataFrame.mode")

    def idxmin(self, axis=0, **k):
        return self._reduce("idxmin", axis, **k)

    def _along(self, f, axis):
        if axis not in (0, "index"):
            v = f(self.values, axis=1)
            return _frame([v[:, j] for j in range(v.shape[1])], self._index, self._columns)
        return self._each(lambda c: f(c, axis=0))

    def cumsum(self, axis=0):
        return self._along(np.cumsum, axis)

    def cumprod(self, axis=0):
        return self._along(np.cumprod, axis)

    def cov(self, min_periods=None, ddof=1):
        c = np.cov(np.asarray(self.values, dtype=float), rowvar=False, ddof=ddof).reshape(len(self._cols), len(self._cols))
        return _frame([c[:, j].copy() for j in range(len(self._cols))], Index(self._columns.tolist()), self._columns)

    def nlargest(self, n, columns):
        return self.sort_values(columns, ascending=False).head(n)

    def nsmallest(self, n, columns):
        return self.sort_values(columns).head(n)

    def filter(self, items=None, like=None, regex=None, axis=1):
        import re
        t = (self._columns if axis in (1, "columns", None) else self._index).tolist()
        keep = [i for i, c in enumerate(t) if (c in list(items) if items is not None else like in str(c) if like is not None
                                               else re.search(regex, str(c)) is not None)]
        if items is not None:
            keep = [t.index(c) for c in items if c in t]
        return self._take_cols(keep) if axis in (1, "columns", None) else self._take_rows(keep)

    def take(self, pos, axis=0, **k):
        return self._take_rows(list(pos)) if axis in (0, "index") else self._take_cols(list(pos))

    def set_axis(self, labels, axis=0, inplace=False):
        out = self.copy()
        if axis in (0, "index"):
            out.index = labels
        else:
            out.columns = labels
        return self._inplace(out, inplace)

    def rename_axis(self, mapper=None, axis=0, **k):
        _refuse("rename_axis", k)
        out = self.copy()
        if axis in (0, "index"):
            out._index = self._index.rename(mapper)
        else:
            out._columns = self._columns.rename(mapper)
        return out

    def droplevel(self, level, axis=0):
        out = self.copy()
        ix = self._index if axis in (0, "index") else self._columns
        j = ix.names.index(level) if level in ix.names else level % ix.nlevels
        t = [tuple(x for k, x in enumerate(v) if k != j) for v in ix.tolist()]
        new = Index(_arr([v[0] for v in t])) if ix.nlevels == 2 else MultiIndex(t, names=[n for k, n in enumerate(ix.names) if k != j])
        if axis in (0, "index"):
            out._index = new
        else:
            out._columns = new
        return out

    def to_records(self, index=True, **k):
        raise StubGap("pandas stand-in: to_records")

    def stack(self, *a, **k):
        raise StubGap("pandas stand-in: stack")

    def unstack(self, *a, **k):
        raise StubGap("pandas stand-in: unstack")

    def merge(self, *a, **k):
        raise StubGap("pandas stand-in: merge")

    def join(self, other, on=None, how="left", lsuffix="", rsuffix="", sort=False):
        if on is not None or how != "left" or sort:
            raise StubGap("pandas stand-in: join(on=/how=...)")
        other = other.to_frame() if isinstance(other, Series) else other
        if any(c in self._columns for c in other._columns.tolist()):
            raise ValueError("columns overlap but no suffix specified")
        return concat([self, other.reindex(index=self._index.tolist())._with_index(self._index)], axis=1)

    def _with_index(self, index):
        return _frame(self._cols, index, self._columns)

    def update(self, other, **k):
        raise StubGap("pandas stand-in: update")

    def eval(self, *a, **k):
        raise StubGap("pandas stand-in: eval")

    query = eval

    @classmethod
    def from_dict(cls, data, orient="columns", dtype=None, columns=None):
        if orient == "columns":
            return cls(data, dtype=dtype, columns=columns)
        if orient != "index":
            raise StubGap("pandas stand-in: from_dict(orient=%r)" % (orient,))
        return cls([v if isinstance(v, dict) else list(v) for v in data.values()], index=list(data), columns=columns, dtype=dtype)

    @classmethod
    def from_records(cls, data, index=None, columns=None, **k):
        _refuse("from_records", k)
        data = list(data)
        return cls(data, index=index, columns=columns) if data else cls(columns=columns)

    def duplicated(self, subset=None, keep="first"):
        names = self._columns.tolist() if subset is None else [subset] if _scalar_key(subset) else list(subset)
        cols = [self[c].tolist() for c in names]
        return Series(_dups(list(zip(*cols)) if cols else [()] * len(self), keep), index=self._index)

    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        keep_rows = ~self.duplicated(subset, keep)._v
        out = self[keep_rows]
        if ignore_index:
            out = out.reset_index(drop=True)
        return self._inplace(out, inplace)

    def _reduce(self, name, axis=0, **k):
        if k.pop("numeric_only", None):
            return self.select_dtypes("number")._reduce(name, axis, **k)
        if axis is None:
            if name not in ("any", "all", "max", "min", "sum", "prod"):
                raise StubGap("pandas stand-in: %s(axis=None)" % name)
            s = self._reduce(name, 0, **k)
            return getattr(s, name)(**k)
        if axis in (1, "columns"):
            return Series(_arr([getattr(self._row(i), name)(**k) for i in range(len(self))]), index=self._index)
        return Series(_arr([getattr(s, name)(**k) for _, s in self.items()]), index=self._columns)

    def any(self, axis=0, **k):
        return self._reduce("any", axis, **k)

    def all(self, axis=0, **k):
        return self._reduce("all", axis, **k)

    def max(self, axis=0, **k):
        return self._reduce("max", axis, **k)

    def min(self, axis=0, **k):
        return self._reduce("min", axis, **k)

    def sum(self, axis=0, **k):
        return self._reduce("sum", axis, **k)

    def mean(self, axis=0, **k):
        return self._reduce("mean", axis, **k)

    def std(self, axis=0, **k):
        return self._reduce("std", axis, **k)

    def var(self, axis=0, **k):
        return self._reduce("var", axis, **k)

    def median(self, axis=0, **k):
        return self._reduce("median", axis, **k)

    def count(self, axis=0, **k):
        return self._reduce("count", axis, **k)

    def nunique(self, axis=0, **k):
        return self._reduce("nunique", axis, **k)

    def idxmax(self, axis=0, **k):
        return self._reduce("idxmax", axis, **k)

    def equals(self, o):
        return (isinstance(o, DataFrame) and self._columns.equals(o._columns) and self._index.equals(o._index)
                and all(a.dtype == b.dtype and all(x == y or (_isna_scalar(x) and _isna_scalar(y)) for x, y in zip(a, b))
                        for a, b in zip(self._cols, o._cols)))

    def _bin(self, other, op, axis=1):
        if isinstance(other, DataFrame):
            if not (self._columns.equals(other._columns) and self._index.equals(other._index)):
                if set(self._columns.tolist()) == set(other._columns.tolist()) and set(self._index.tolist()) == set(
                        other._index.tolist()) and self._columns.is_unique and self._index.is_unique and op.__name__ not in (
                        "eq", "ne", "lt", "le", "gt", "ge"):
                    other = other.reindex(index=self._index.tolist(), columns=self._columns.tolist())
                    return _frame([np.asarray(op(a, b)) for a, b in zip(self._cols, other._cols)], self._index, self._columns)
                raise StubGap("pandas stand-in: operation on differently labelled DataFrames")
            return _frame([np.asarray(op(a, b)) for a, b in zip(self._cols, other._cols)], self._index, self._columns)
        if axis in (0, "index") and not np.isscalar(other):
            v = other.reindex(self._index.tolist())._v if isinstance(other, Series) and not other.index.equals(self._index) else np.asarray(other)
            return _frame([np.asarray(op(c, v)) for c in self._cols], self._index, self._columns)
        if isinstance(other, (list, tuple)) or isinstance(other, np.ndarray) and other.ndim == 1:
            if len(other) != len(self._cols):
                raise ValueError("Unable to coerce to Series, length must be %d: given %d" % (len(self._cols), len(other)))
            return _frame([np.asarray(op(c, v)) for c, v in zip(self._cols, other)], self._index, self._columns)
        if isinstance(other, Series):
            m = other.to_dict()
            if set(m) != set(self._columns.tolist()):
                raise StubGap("pandas stand-in: operation on a frame and a differently labelled Series")
            return _frame([np.asarray(op(c, m[l])) for l, c in zip(self._columns.tolist(), self._cols)], self._index,
                          self._columns)
        if isinstance(other, np.ndarray) and other.ndim == 2:
            return _frame([np.asarray(op(c, other[:, j])) for j, c in enumerate(self._cols)], self._index, self._columns)
        return _frame([np.asarray(op(c, other)) for c in self._cols], self._index, self._columns)

    def __matmul__(self, o):
        return self.dot(o)

    def dot(self, o):
        v = self.values.dot(np.asarray(o))
        return DataFrame(v, index=self._index) if v.ndim == 2 else Series(v, index=self._index)

    def __neg__(self):
        return self._each(lambda c: -c)

    def __invert__(self):
        return self._each(lambda c: ~c)

    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True, **k):
        _refuse("groupby", k, "observed", "group_keys")
        if axis not in (0, "index"):
            raise StubGap("pandas stand-in: groupby(axis=1)")
        if level is not None or by is None:
            return _GroupBy(self, [_group_key(self, self._index.get_level_values(level if level is not None else 0).tolist()
                                              if isinstance(self._index, MultiIndex) else self._index.tolist())], None, sort, True)
        bys = by if isinstance(by, list) else [by]
        return _GroupBy(self, [_group_key(self, b) for b in bys], [b if _scalar_key(b) and not callable(b) else None for b in bys],
                        sort, as_index, isinstance(by, list))

    def __repr__(self):
        return "DataFrame(columns=%r, index=%r, %r)" % (self._columns.tolist(), self._index.tolist()[:8],
                                                        [c.tolist()[:8] for c in self._cols])


def _dups(vals, keep):
    if keep == "last":
        return _dups(vals[::-1], "first")[::-1]
    if keep is False:
        return np.array([vals.count(v) > 1 for v in vals], dtype=bool)
    seen, out = set(), []
    for v in vals:
        out.append(v in seen)
        seen.add(v)
    return np.array(out, dtype=bool)


def get_dummies(data, prefix=None, prefix_sep="_", dtype=None, **k):
    if k or not isinstance(data, Series):
        raise StubGap("pandas stand-in: get_dummies of %s with %r" % (type(data).__name__, sorted(k)))
    vals = data.tolist()
    levels = [v for v in dict.fromkeys(vals) if not _isna_scalar(v)]
    levels = sorted(levels)
    cols = [np.array([v == s for v in vals]).astype(dtype or np.uint8) for s in levels]
    names = levels if prefix is None else ["%s%s%s" % (prefix, prefix_sep, s) for s in levels]
    return _frame(cols, data.index, _mkindex(names, 0))


def _relabel(index, labels):
    if isinstance(index, MultiIndex) and all(isinstance(l, tuple) for l in labels):
        return MultiIndex(labels, names=index.names)
    return Index(_arr(labels), name=index.name if not isinstance(index, MultiIndex) else None)


def _frame(cols, index, columns):
    d = DataFrame.__new__(DataFrame)
    object.__setattr__(d, "_columns", columns)
    object.__setattr__(d, "_cols", list(cols))
    object.__setattr__(d, "_index", index)
    return d


def _refuse(what, k, *known):
    """Keyword arguments the stand-in does not honour are a gap, not a no-op (``known`` change nothing here)."""
    left = sorted(n for n in k if n not in known)
    if left:
        raise StubGap("pandas stand-in: %s(%s)" % (what, ", ".join("%s=" % n for n in left)))


def _carry(v, method):
    if method not in ("ffill", "pad", "bfill", "backfill"):
        raise ValueError("Invalid fill method. Got %s" % (method,))
    out = v.copy() if method in ("ffill", "pad") else v[::-1].copy()
    gone = _isna_arr(out)
    for i in range(1, len(out)):
        if gone[i] and not gone[i - 1]:
            out[i] = out[i - 1]
            gone[i] = False
    return out if method in ("ffill", "pad") else out[::-1].copy()


def _replacement(to_replace, value):
    if isinstance(to_replace, Series):
        to_replace = to_replace.to_dict()
    if not isinstance(to_replace, dict):
        many = isinstance(to_replace, (list, tuple, np.ndarray))
        if many and isinstance(value, (list, tuple, np.ndarray)):
            to_replace = dict(zip(to_replace, value))
        else:
            to_replace = {v: value for v in (to_replace if many else [to_replace])}
    gone = [v for k, v in to_replace.items() if _isna_scalar(k)]

    def f(v):
        if gone and _isna_scalar(v):
            return gone[0]
        return to_replace.get(v, v)
    return f


class _Str:
    """String methods of a Series."""
    def __init__(self, s):
        if any(not isinstance(v, str) for v in s._clean().tolist()):
            raise AttributeError("Can only use .str accessor with string values!")
        self._s = s

    def __getattr__(self, name):
        if name not in ("upper", "lower", "strip", "lstrip", "rstrip", "startswith", "endswith", "title", "split", "zfill", "isdigit"):
            raise StubGap("pandas stand-in: Series.str.%s is not implemented" % name)
        return lambda *a, **k: self._s.map(lambda v: getattr(v, name)(*a, **k) if isinstance(v, str) else v)


def _group_key(o, by):
    n = len(o)
    index = o.index
    if callable(by):
        return [by(v) for v in index.tolist()]
    if isinstance(by, Series):
        return by.tolist() if by.index.equals(index) else by.reindex(index.tolist()).tolist()
    if isinstance(by, dict):
        return [by.get(v, np.nan) for v in index.tolist()]
    if not _scalar_key(by) or isinstance(by, range):
        by = list(by)
        if len(by) != n:
            raise ValueError("Grouper and axis must be same length")
        return by
    return o[by].tolist()


class _GroupBy(_Base):
    """Groups of the rows of a frame or a series."""
    def __init__(self, o, keys, names, sort, as_index, tupled=False, only=None):
        self._o, self._keys, self._names, self._sort, self._as_index, self._only = o, keys, names, sort, as_index, only
        self._tupled = tupled or len(keys) > 1
        box = {}
        for i, k in enumerate(zip(*keys)):
            if not any(_isna_scalar(v) for v in k):
                box.setdefault(k, []).append(i)
        self._box = {k: box[k] for k in (sorted(box) if sort else box)}

    def _label(self, k):
        return k if len(self._keys) > 1 else k[0]

    def _attr_fallback(self, name):
        if "_o" in self.__dict__ and isinstance(self._o, DataFrame) and name in self._o._columns:
            return True, self[name]
        return False, None

    def __getitem__(self, cols):
        o = self._o[cols]
        return _GroupBy(o, self._keys, self._names if self._as_index else self._names, self._sort, self._as_index, self._tupled, True)

    ngroups = property(lambda self: len(self._box))

    def __len__(self):
        return len(self._box)

    @property
    def indices(self):
        return {self._label(k): np.array(v) for k, v in self._box.items()}

    @property
    def groups(self):
        ix = self._o.index
        return {self._label(k): ix[np.array(v)] for k, v in self._box.items()}

    def _parts(self):
        return [(k, self._o.iloc[np.array(v, dtype=int)] if isinstance(self._o, Series) else self._o._take_rows(v))
                for k, v in self._box.items()]

    def __iter__(self):
        return iter([(self._label(k), d) for k, d in self._parts()])

    def get_group(self, k):
        k = k if isinstance(k, tuple) and len(self._keys) > 1 else (k,)
        if k not in self._box:
            raise KeyError(k)
        return dict(self._parts())[k]

    def _index(self):
        ks = list(self._box)
        names = self._names or [None] * len(self._keys)
        if len(self._keys) == 1:
            return Index(_arr([k[0] for k in ks]), name=names[0])
        return MultiIndex(ks, names=names)

    def _out(self, r):
        return r if self._as_index else r.reset_index()

    def _values(self, d):
        """The columns of a group that are not keys."""
        if isinstance(d, Series) or self._only:
            return d
        return d.drop(columns=[n for n in (self._names or []) if n is not None and n in d._columns])

    def size(self):
        s = Series(np.array([len(v) for v in self._box.values()], dtype=int), index=self._index())
        return s if self._as_index else s.reset_index(name="size")

    def _each(self, f):
        vals = [f(self._values(d)) for _, d in self._parts()]
        if vals and isinstance(vals[0], Series):
            cols = vals[0].index
            return self._out(_frame([_arr([v[c] for v in vals]) for c in cols.tolist()], self._index(), cols))
        name = self._o.name if isinstance(self._o, Series) else None
        return self._out(Series(_arr(vals), index=self._index(), name=name))

    def apply(self, f, *a, **k):
        vals = [f(d, *a, **k) for _, d in self._parts()]
        if vals and isinstance(vals[0], DataFrame):
            raise StubGap("pandas stand-in: groupby.apply returning frames")
        return self._each_of(vals)

    def _each_of(self, vals):
        it = iter(vals)
        return self._each(lambda d: next(it))

    def agg(self, f, *a, **k):
        if isinstance(f, (str,)) or callable(f):
            return self._each(lambda d: d.agg(f, *a, **k))
        raise StubGap("pandas stand-in: groupby.agg(%r)" % (f,))

    aggregate = agg

    def transform(self, f, *a, **k):
        if not isinstance(self._o, Series):
            raise StubGap("pandas stand-in: groupby.transform of a frame")
        out = [None] * len(self._o)
        for (_, d), v in zip(self._parts(), self._box.values()):
            r = d.agg(f, *a, **k)
            for j, i in enumerate(v):
                out[i] = r._v[j] if isinstance(r, Series) else r
        return Series(_arr(out), index=self._o.index, name=self._o.name)

    def cumcount(self):
        out = np.zeros(len(self._o), dtype=int)
        for v in self._box.values():
            out[v] = np.arange(len(v))
        return Series(out, index=self._o.index)

    def ngroup(self):
        out = np.full(len(self._o), -1)
        for g, v in enumerate(self._box.values()):
            out[v] = g
        return Series(out, index=self._o.index)

    def value_counts(self, normalize=False, **k):
        if not isinstance(self._o, Series):
            raise StubGap("pandas stand-in: groupby.value_counts of a frame")
        labels, vals = [], []
        for k, d in self._parts():
            c = d.value_counts(normalize=normalize)
            labels += [k + (v,) for v in c.index.tolist()]
            vals += c.tolist()
        return Series(_arr(vals), index=MultiIndex(labels, names=(self._names or [None]) + [self._o.name]), name=self._o.name)


def _group_reductions():
    def red(n):
        return lambda self, *a, **k: self._each(lambda d: getattr(d, n)(*a, **k))
    for n in ("sum", "mean", "min", "max", "count", "std", "var", "median", "nunique", "any", "all", "prod", "quantile"):
        setattr(_GroupBy, n, red(n))
    _GroupBy.first = lambda self: self._each(lambda d: d.iloc[0])
    _GroupBy.last = lambda self: self._each(lambda d: d.iloc[len(d) - 1])


_group_reductions()


class _FrameLoc(_Loc):
    def _split(self, key):
        d = self._o
        if isinstance(key, tuple) and not isinstance(d._index, MultiIndex):
            if len(key) == 1:
                return key[0], slice(None)
            return key[0], key[1]
        if isinstance(key, tuple) and len(key) == 2 and (isinstance(key[0], (tuple, slice, list))):
            return key
        return key, slice(None)

    def __getitem__(self, key):
        d = self._o
        if callable(key):
            key = key(d)
        r, c = self._split(key)
        rone, rp = _positions(d._index, r)
        cone, cp = _positions(d._columns, c)
        if rone and cone:
            return d._cols[cp][rp]
        if cone:
            return Series(d._cols[cp][rp], index=d._index[rp], name=d._columns[cp])
        sub = d._take_cols(list(cp))
        if rone:
            return sub._row(rp)
        return sub._take_rows(rp)

    def __setitem__(self, key, value):
        d = self._o
        r, c = self._split(key)
        if _scalar_key(c) and c not in d._columns:
            d[c] = np.nan
        if _scalar_key(r) and r not in d._index:
            d._index = _relabel(d._index, d._index.tolist() + [r])
            d._cols = [_arr(np.append(col.astype(float) if col.dtype.kind in "iufb" else col, [np.nan])) for col in d._cols]
        _, rp = _positions(d._index, r)
        cone, cp = _positions(d._columns, c)
        cps = [cp] if cone else list(cp)
        v = value.values if isinstance(value, (DataFrame, Series)) else value
        cols = list(d._cols)
        for k, p in enumerate(cps):
            if isinstance(v, np.ndarray) and v.ndim == 2:
                x = v[:, k]
            elif isinstance(v, (list, tuple, np.ndarray)) and not cone and np.ndim(rp) == 0:
                x = v[k]
            else:
                x = v
            cols[p] = _assign(cols[p], rp, x)
        d._cols = cols


class _FrameILoc(_Loc):
    @staticmethod
    def _pos(key, n):
        if isinstance(key, (int, np.integer)):
            if not -n <= key < n:
                raise IndexError("single positional indexer is out-of-bounds")
            return True, int(key) % n
        if isinstance(key, slice):
            return False, np.arange(n)[key]
        key = np.asarray(key)
        return False, np.nonzero(key)[0] if key.dtype == bool else np.arange(n)[key.astype(int)]

    def __getitem__(self, key):
        d = self._o
        r, c = key if isinstance(key, tuple) and len(key) == 2 else (key[0] if isinstance(key, tuple) else key, slice(None))
        rone, rp = self._pos(r, len(d))
        cone, cp = self._pos(c, len(d._cols))
        if rone and cone:
            return d._cols[cp][rp]
        if cone:
            return Series(d._cols[cp][rp], index=d._index[rp], name=d._columns[cp])
        sub = d._take_cols(list(cp))
        return sub._row(rp) if rone else sub._take_rows(rp)

    def __setitem__(self, key, value):
        d = self._o
        r, c = key if isinstance(key, tuple) and len(key) == 2 else (key, slice(None))
        _, rp = self._pos(r, len(d))
        cone, cp = self._pos(c, len(d._cols))
        cols = list(d._cols)
        v = np.asarray(value) if isinstance(value, (DataFrame, list)) else value
        for k, p in enumerate([cp] if cone else list(cp)):
            cols[p] = _assign(cols[p], rp, v[:, k] if isinstance(v, np.ndarray) and v.ndim == 2 else v)
        d._cols = cols


def write_in_place(df, value):
    """What df.iloc[:, :] = value does in pandas 1 and 2: it writes into the arrays the frame was built on, if they fit."""
    for c in df._cols:
        if c.dtype.kind == "f" and c.flags.writeable:
            c[...] = value


def _method(cls, name, f):
    if cls is Series:
        def g(self, other, **k):
            _refuse(name, k, "axis")
            return self._bin(other, f)
    else:
        def g(self, other, axis="columns", **k):
            _refuse(name, k)
            return self._bin(other, f, axis)
    return g


def _install_ops():
    import operator as o

    def add(name, op, refl=True):
        def f(self, other):
            return self._bin(other, op)
        f.__name__ = "__%s__" % name
        for cls in (Series, DataFrame):
            setattr(cls, "__%s__" % name, f)
        if refl:
            def g(self, other):
                def rop(a, b):
                    return op(b, a)
                return self._bin(other, rop)
            for cls in (Series, DataFrame):
                setattr(cls, "__r%s__" % name, g)

    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
        add(n, getattr(o, n))
    add("and", o.and_)
    add("or", o.or_)
    add("xor", o.xor)
    for n in ("eq", "ne", "lt", "le", "gt", "ge"):
        add(n, getattr(o, n), refl=False)
    for cls in (Series, DataFrame):
        for m, n in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "truediv"), ("eq", "eq"), ("ne", "ne"),
                     ("lt", "lt"), ("gt", "gt"), ("le", "le"), ("ge", "ge"), ("multiply", "mul"), ("divide", "truediv"),
                     ("subtract", "sub"), ("truediv", "truediv"), ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow")):
            setattr(cls, m, _method(cls, m, getattr(o, n)))
        cls.__hash__ = None


_install_ops()


def isna(x):
    if isinstance(x, (DataFrame, Series)):
        return x.isna()
    if isinstance(x, Index):
        return x.isna()
    if isinstance(x, np.ndarray):
        return _isna_arr(x.ravel()).reshape(x.shape)
    if isinstance(x, list):
        return _isna_arr(_obj(x))
    return _isna_scalar(x)


def notna(x):
    r = isna(x)
    return ~r if not isinstance(r, bool) else not r


def concat(objs, axis=0, ignore_index=False, join="outer", sort=False, keys=None, **k):
    objs = [x for x in (objs.values() if isinstance(objs, dict) else objs) if x is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    if keys is not None:
        raise StubGap("pandas stand-in: concat(keys=...)")
    objs = [DataFrame({x.name if x.name is not None else i: x}) if isinstance(x, Series) and axis in (1, "columns") else x
            for i, x in enumerate(objs)]
    if axis in (1, "columns"):
        idx = objs[0]._index
        if any(not x._index.equals(idx) for x in objs):
            objs, idx = _align(objs, join, sort)
        cols = [c.copy() for x in objs for c in x._cols]
        labels = [l for x in objs for l in x._columns.tolist()]
        return _frame(cols, idx, RangeIndex(len(labels)) if ignore_index else _relabel(objs[0]._columns, labels))
    if all(isinstance(x, Series) for x in objs):
        return Series(_arr([v for x in objs for v in x.tolist()]),
                      index=None if ignore_index else [v for x in objs for v in x.index.tolist()], name=objs[0].name)
    labels = list(dict.fromkeys(l for x in objs for l in x._columns.tolist()))
    cols = []
    for l in labels:
        parts = [x._cols[x._columns.get_loc(l)] if l in x._columns else np.full(len(x), np.nan) for x in objs]
        if all(p.dtype.kind in "iufb" for p in parts):
            cols.append(np.concatenate(parts))
        else:
            cols.append(_obj([v for p in parts for v in p.tolist()]))
    idx = RangeIndex(builtins.sum(len(x) for x in objs)) if ignore_index else Index(
        _arr([v for x in objs for v in x._index.tolist()]))
    return _frame(cols, idx, _relabel(objs[0]._columns, labels))


def _align(objs, join, sort):
    """Rows matched by label, as concat(axis=1) does."""
    lists = [x._index.tolist() for x in objs]
    if join != "outer" or sort or any(len(set(l)) != len(l) for l in lists):
        raise StubGap("pandas stand-in: concat(axis=1) of such indexes")
    labels = list(dict.fromkeys(v for l in lists for v in l))
    out = []
    for x, l in zip(objs, lists):
        at = {v: k for k, v in enumerate(l)}
        cols = []
        for c in x._cols:
            if len(l) == len(labels):
                cols.append(c[[at[v] for v in labels]])
            else:
                vals = [c[at[v]] if v in at else np.nan for v in labels]
                cols.append(np.array(vals, dtype=float) if c.dtype.kind in "iuf" else _obj(vals))
        out.append(_frame(cols, Index(_arr(labels)), x._columns))
    return out, Index(_arr(labels))


def unique(x):
    return Series(x).unique()


def factorize(x, sort=False):
    t = list(x)
    u = [v for v in dict.fromkeys(t) if not _isna_scalar(v)]
    u = sorted(u) if sort else u
    at = {v: k for k, v in enumerate(u)}
    return np.array([at.get(v, -1) for v in t]), (Index(_arr(u)) if isinstance(x, (Series, Index)) else _arr(u))


def to_numeric(x, errors="raise", downcast=None):
    if errors != "raise" or downcast is not None:
        raise StubGap("pandas stand-in: to_numeric(errors=...)")
    try:
        v = np.array([float(w) if isinstance(w, str) else w for w in list(x)])
        v = v.astype(float) if v.dtype == object else v
    except ValueError as e:
        raise ValueError("Unable to parse string: %s" % (e,))
    return x._new(v) if isinstance(x, Series) else v


def cut(x, bins, right=True, labels=None, retbins=False, precision=3, include_lowest=False, **k):
    if labels is not False or retbins or not hasattr(bins, "__iter__"):
        raise StubGap("pandas stand-in: cut(labels=..., retbins=...)")
    b = np.asarray(list(bins))
    v = np.asarray(x, dtype=float)
    at = np.searchsorted(b, v, side="left" if right else "right") - 1
    if include_lowest and right:
        at = np.where(v == b[0], 0, at)
    out = np.where((at < 0) | (at >= len(b) - 1) | np.isnan(v), np.nan, at)
    out = out if np.isnan(out).any() else out.astype(int)
    return Series(out, index=x.index, name=x.name) if isinstance(x, Series) else out


def _numeric(x):
    d = getattr(x, "dtype", x)
    return np.dtype(d).kind in "iufcb"


OPTIONS = {}                # what set_option changed


def set_option(*pairs):
    for k, v in zip(pairs[::2], pairs[1::2]):
        OPTIONS[k] = v


def get_option(name):
    return OPTIONS.get(name)


def reset_option(name):
    OPTIONS.pop(name, None)


class option_context:
    def __init__(self, *pairs):
        self.pairs = pairs

    def __enter__(self):
        self.saved = dict(OPTIONS)
        set_option(*self.pairs)
        return self

    def __exit__(self, *a):
        OPTIONS.clear()
        OPTIONS.update(self.saved)
        return False


class _Options:
    def __init__(self, path=""):
        object.__setattr__(self, "_path", path)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return OPTIONS.get(self._path + name, _Options(self._path + name + "."))

    def __setattr__(self, name, value):
        set_option(self._path + name, value)


def fill(module):
    """Populate the stand-in ``pandas`` module."""
    import types
    for name in ("DataFrame", "Series", "Index", "MultiIndex", "RangeIndex", "Int64Index", "isna", "notna", "concat", "unique",
                 "get_dummies", "factorize", "cut", "to_numeric", "set_option", "get_option", "reset_option", "option_context"):
        setattr(module, name, globals()[name])
    module.isnull, module.notnull = isna, notna
    module.__version__ = "1.1.0"
    module.options = _Options()
    module.NA = module.NaT = None
    api = types.ModuleType("pandas.api")
    api.types = types.ModuleType("pandas.api.types")
    api.types.is_numeric_dtype = _numeric
    api.types.is_integer_dtype = lambda x: np.dtype(getattr(x, "dtype", x)).kind in "iu"
    api.types.is_float_dtype = lambda x: np.dtype(getattr(x, "dtype", x)).kind == "f"
    api.types.is_object_dtype = lambda x: np.dtype(getattr(x, "dtype", x)) == object
    api.types.is_string_dtype = api.types.is_object_dtype
    api.types.is_list_like = lambda x: hasattr(x, "__iter__") and not isinstance(x, (str, bytes))
    api.types.is_bool_dtype = lambda x: np.dtype(getattr(x, "dtype", x)).kind == "b"
    module.api = api

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StubGap("pandas stand-in: pandas.%s is not implemented" % name)
    module.__getattr__ = missing
