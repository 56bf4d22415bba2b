"""Immutable sets of code points as sorted interval tuples."""
from __future__ import annotations

import sys
import unicodedata
from bisect import bisect_right
from functools import lru_cache

MAX = 0x10FFFF


class CharSet:
    __slots__ = ("iv", "_h", "_lo", "_z3")

    def __init__(self, iv):
        self.iv = iv
        self._h = hash(iv)
        self._lo = None
        self._z3 = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other or (isinstance(other, CharSet) and self.iv == other.iv)

    def __bool__(self):
        return bool(self.iv)

    def __contains__(self, c):
        iv = self.iv
        if len(iv) <= 4:
            for a, b in iv:
                if a <= c <= b:
                    return True
            return False
        if self._lo is None:
            self._lo = [a for a, _ in iv]
        i = bisect_right(self._lo, c) - 1
        return i >= 0 and c <= iv[i][1]

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __and__(self, other):
        return _and(self, other)

    def __or__(self, other):
        return _or(self, other)

    def __invert__(self):
        return _not(self)

    def __sub__(self, other):
        return _and(self, _not(other))

    def shift(self, k):
        return mk([(max(0, a + k), min(MAX, b + k)) for a, b in self.iv if b + k >= 0 and a + k <= MAX])

    def __iter__(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def first(self):
        return self.iv[0][0]

    def pick(self, rnd):
        a, b = rnd.choice(self.iv)
        r = rnd.random()
        if r < 0.4:
            return a
        if r < 0.6:
            return b
        return rnd.randint(a, b)

    def __repr__(self):
        def f(c):
            return repr(chr(c)) if 32 <= c < 127 else f"U+{c:04X}"

        parts = [f(a) if a == b else f"{f(a)}-{f(b)}" for a, b in self.iv[:6]]
        if len(self.iv) > 6:
            parts.append(f"...({len(self.iv)} ranges)")
        return "{" + " ".join(parts) + "}"


@lru_cache(maxsize=200000)
def _intern(iv):
    return CharSet(iv)


def mk(ranges):
    rs = sorted((a, b) for a, b in ranges if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return _intern(tuple(out))


@lru_cache(maxsize=200000)
def _and(x, y):
    if x is y:
        return x
    a, b = x.iv, y.iv
    if len(a) > len(b):
        a, b = b, a
    out = []
    i = j = 0
    na, nb = len(a), len(b)
    if na == 1 and nb > 32:
        # binary search start
        lo = a[0][0]
        k = bisect_right(b, (lo, MAX + 1)) - 1
        j = max(0, k)
    while i < na and j < nb:
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return _intern(tuple(out))


@lru_cache(maxsize=200000)
def _or(x, y):
    return mk(x.iv + y.iv)


@lru_cache(maxsize=200000)
def _not(x):
    out = []
    p = 0
    for a, b in x.iv:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAX:
        out.append((p, MAX))
    return _intern(tuple(out))


EMPTY = _intern(())
ALL = _intern(((0, MAX),))
SURR = mk([(0xD800, 0xDFFF)])
SCALAR = ALL - SURR
NONNUL = SCALAR - mk([(0, 0)])


def chars(s):
    return mk([(ord(c), ord(c)) for c in s])


def rng(a, b):
    return mk([(ord(a), ord(b))])


@lru_cache(maxsize=None)
def one(c):
    return _intern(((c, c),))


_allstr = None


def allstr():
    global _allstr
    if _allstr is None:
        _allstr = "".join(map(chr, range(MAX + 1)))
    return _allstr


def from_pred(pred):
    out = []
    start = None
    for c in range(MAX + 1):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAX))
    return _intern(tuple(out))


@lru_cache(maxsize=None)
def from_regex(pattern, flags=0):
    """Code points matched by a single-char pattern, by the real re engine."""
    import re

    rx = re.compile(f"(?:{pattern})+", flags | re.DOTALL if pattern != "." else flags)
    return _intern(tuple((m.start(), m.end() - 1) for m in rx.finditer(allstr())))


@lru_cache(maxsize=None)
def strpred(name):
    """Char set of str.isX for single characters."""
    return from_pred(getattr(str, name))


ASCII_DIGIT = rng("0", "9")
ASCII_LOWER = rng("a", "z")
ASCII_UPPER = rng("A", "Z")
ASCII_ALPHA = ASCII_LOWER | ASCII_UPPER
ASCII_ALNUM = ASCII_ALPHA | ASCII_DIGIT
HEX = ASCII_DIGIT | rng("a", "f") | rng("A", "F")
LINEBREAKS = mk([(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)])
