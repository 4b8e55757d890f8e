"""Sets whose iteration order is a scheduling decision.

CPython iterates a set in hash order: by PYTHONHASHSEED for strings and by
memory address for plain objects, i.e. by an environment the caller does not
control.  The loader rewrites every ``set`` built by causalnex code into a
SimSet; a run picks one order policy from its tape.
"""
_REAL_SET = set

INSERTION, REVERSED, GLOBAL, PER_SET = range(4)
MODE_NAMES = ["insertion", "reversed", "global-priority", "per-set-priority"]


class _Policy:
    def __init__(self):
        self.reset(INSERTION, 0)

    def reset(self, mode, seed):
        self.mode = mode
        self.seed = seed
        self.serial = 0
        self.prio = {}
        self.iterations = 0
        self.reordered = 0


POLICY = _Policy()


def _mix(a, b, c):
    x = (a * 0x9E3779B97F4A7C15 + b * 0xBF58476D1CE4E5B9 + c * 0x94D049BB133111EB) & (2 ** 64 - 1)
    x ^= x >> 31
    x = (x * 0xD6E8FEB86659FD93) & (2 ** 64 - 1)
    x ^= x >> 29
    return x


def _order(owner):
    p = POLICY
    items = list(owner._d)
    p.iterations += 1
    if len(items) < 2 or p.mode == INSERTION:
        return items
    if p.mode == REVERSED:
        out = items[::-1]
    else:
        keyed = []
        for pos, it in enumerate(items):
            n = p.prio.get(it)
            if n is None:
                n = p.prio[it] = len(p.prio) + 1
            salt = 0 if p.mode == GLOBAL else owner._serial
            keyed.append((_mix(p.seed, n, salt), pos))
        keyed.sort()
        out = [items[pos] for _, pos in keyed]
    if out != items:
        p.reordered += 1
    return out


class SimSet(set):
    """Drop-in ``set`` with a policy-controlled iteration order."""

    def __init__(self, it=()):
        POLICY.serial += 1
        self._serial = POLICY.serial
        self._d = {}
        self._ver = 0
        super().__init__()
        for x in it:
            self.add(x)

    def __iter__(self):
        ver = self._ver
        for x in _order(self):
            if self._ver != ver:
                raise RuntimeError("Set changed size during iteration")
            yield x
        if self._ver != ver:
            raise RuntimeError("Set changed size during iteration")

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, _order(self))) if self._d else "set()"

    __str__ = __repr__

    def add(self, x):
        if x not in self._d:
            set.add(self, x)
            self._d[x] = None
            self._ver += 1

    def discard(self, x):
        if isinstance(x, _REAL_SET):
            x = frozenset(x)
        if x in self._d:
            del self._d[x]
            set.discard(self, x)
            self._ver += 1

    def remove(self, x):
        if isinstance(x, _REAL_SET):
            x = frozenset(x)
        if x not in self._d:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self._d:
            raise KeyError("pop from an empty set")
        x = _order(self)[0]
        self.discard(x)
        return x

    def clear(self):
        self._d.clear()
        set.clear(self)
        self._ver += 1

    def update(self, *others):
        for o in others:
            for x in (list(o) if o is self else o):
                self.add(x)

    def copy(self):
        return SimSet(self._d)

    __copy__ = copy

    def __reduce_ex__(self, proto):
        return (SimSet, (list(self._d),))

    def __reduce__(self):
        return (SimSet, (list(self._d),))

    @staticmethod
    def _coerce(o):
        if isinstance(o, (_REAL_SET, frozenset)):
            return o
        return {x: None for x in o}

    def union(self, *others):
        r = self.copy()
        r.update(*others)
        return r

    def intersection(self, *others):
        r = list(self._d)
        for o in others:
            o = self._coerce(o)
            r = [x for x in r if x in o]
        return SimSet(r)

    def difference(self, *others):
        r = list(self._d)
        for o in others:
            o = self._coerce(o)
            r = [x for x in r if x not in o]
        return SimSet(r)

    def symmetric_difference(self, other):
        o = self._coerce(other)
        r = SimSet([x for x in self._d if x not in o])
        for x in o:
            if x not in self._d:
                r.add(x)
        return r

    def intersection_update(self, *others):
        self._replace(self.intersection(*others))

    def difference_update(self, *others):
        self._replace(self.difference(*others))

    def symmetric_difference_update(self, other):
        self._replace(self.symmetric_difference(other))

    def _replace(self, new):
        keep = list(new._d)
        self.clear()
        for x in keep:
            self.add(x)

    def _binop(name):
        def op(self, other):
            if not isinstance(other, (_REAL_SET, frozenset)):
                if hasattr(other, "__iter__") and hasattr(other, "isdisjoint"):
                    pass
                else:
                    return NotImplemented
            return getattr(self, name)(other)
        return op

    __or__ = _binop("union")
    __and__ = _binop("intersection")
    __sub__ = _binop("difference")
    __xor__ = _binop("symmetric_difference")
    del _binop

    def __ror__(self, other):
        return SimSet(other).union(self)

    def __rand__(self, other):
        return SimSet(other).intersection(self)

    def __rsub__(self, other):
        return SimSet(other).difference(self)

    def __rxor__(self, other):
        return SimSet(other).symmetric_difference(self)

    def __ior__(self, other):
        self.update(other)
        return self

    def __iand__(self, other):
        self.intersection_update(other)
        return self

    def __isub__(self, other):
        self.difference_update(other)
        return self

    def __ixor__(self, other):
        self.symmetric_difference_update(other)
        return self
