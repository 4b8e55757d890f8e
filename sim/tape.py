"""The choice tape: the one source of every decision in a simulated run.

A run is a pure function of (code under test, tape).  In record mode the tape
draws fresh integers from a PRNG seeded with one integer; in replay mode it
reads the recorded ones and yields 0 (by convention the plainest choice) once
they are used up, so that any list of integers is a valid execution and the
minimiser may cut and zero freely.
"""
import random as _random


class Tape:
    __slots__ = ("rng", "values", "pos", "replaying")

    def __init__(self, seed=None, values=None):
        self.replaying = values is not None
        self.values = list(values) if values is not None else []
        self.rng = None if self.replaying else _random.Random(seed)
        self.pos = 0

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replaying:
            v = self.values[self.pos] if self.pos < len(self.values) else 0
            self.pos += 1
            return v % n
        v = self.rng.randrange(n)
        self.values.append(v)
        self.pos += 1
        return v


def minimise(values, still_fails, max_runs=400, deadline=None):
    """Greedy shrink of a tape: cut the tail, delete blocks, zero blocks, lower values.

    ``still_fails(list) -> used_length or None``.  Deterministic given the predicate.
    """
    best = list(values)
    runs = 0

    def attempt(cand):
        nonlocal best, runs
        if runs >= max_runs or (deadline is not None and deadline()):
            return False
        if cand == best:
            return False
        runs += 1
        used = still_fails(cand)
        if used is None:
            return False
        best = list(cand[:used])
        while best and best[-1] == 0:
            best.pop()
        return True

    progress = True
    while progress and runs < max_runs:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    progress = True
                    i = min(i, len(best)) - size
                else:
                    i -= max(1, size // 2) if size > 1 else 1
                if runs >= max_runs:
                    break
            if runs >= max_runs:
                break
            size //= 2
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    if attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                        progress = True
                i += size
                if runs >= max_runs:
                    break
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            for v in (1, best[i] // 2, best[i] - 1):
                if 0 < v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    progress = True
                    break
            if runs >= max_runs:
                break
    return best, runs
