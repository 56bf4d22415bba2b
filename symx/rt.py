"""Runtime that instrumented code calls, and the import hook that instruments it."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import importlib
import importlib.machinery
import os
import collections
import collections.abc
import sys
import types

import z3

from . import charset as C
from . import symre
from .core import ENGINE, Inconclusive, Infeasible, Var, ch_eq, ch_in, t_and, t_not, t_or
from .strs import (
    SymBool,
    SymInt,
    SymStr,
    chs,
    concretise_str,
    contains,
    eq_chs,
    ev_str,
    fromint,
    is_s,
    lift,
    mkbool,
    mkint,
    mkstr,
    not_,
    term,
    toint,
)

ALLOW_HASH = False
FUNCS = set()

# ---------------------------------------------------------------- containers


def issym(k):
    t = type(k)
    if t is SymStr or t is SymInt:
        return True
    if t is tuple:
        for x in k:
            if issym(x):
                return True
    return False


def keyeq(a, b):
    """term for a == b on dict keys, without forking"""
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return t_and([keyeq(x, y) for x, y in zip(a, b)])
    return term(a == b)


class _DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymDict:
            return isinstance(x, dict)
        return type.__instancecheck__(cls, x)


_MISS = object()


class SymDict(dict, metaclass=_DictMeta):
    __slots__ = ("_sym", "__weakref__", "__dict__")

    def __init__(self, *a, **k):
        self._sym = False
        self.update(*a, **k)

    def _find(self, k):
        """stored key equal to k, or _MISS"""
        if not self._sym and not issym(k):
            return k if dict.__contains__(self, k) else _MISS
        ks = issym(k)
        for kk in dict.keys(self):
            if kk is k:
                return kk
            if ks or issym(kk):
                if ENGINE.decide(keyeq(kk, k)):
                    return kk
            elif kk == k:
                return kk
        return _MISS

    def _native(self, fn, k, *a):
        global ALLOW_HASH
        if not issym(k):
            if self._sym:
                # a concrete key that may probe into symbolic ones: hashes differ, so no comparison
                pass
            return fn(self, k, *a)
        old = ALLOW_HASH
        ALLOW_HASH = True
        try:
            return fn(self, k, *a)
        finally:
            ALLOW_HASH = old

    def __contains__(self, k):
        return self._find(k) is not _MISS

    def __getitem__(self, k):
        kk = self._find(k)
        if kk is _MISS:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._native(dict.__getitem__, kk)

    def get(self, k, d=None):
        kk = self._find(k)
        return d if kk is _MISS else self._native(dict.__getitem__, kk)

    def __setitem__(self, k, v):
        kk = self._find(k)
        if kk is _MISS:
            kk = k
            if issym(k):
                self._sym = True
        self._native(dict.__setitem__, kk, v)

    def setdefault(self, k, d=None):
        kk = self._find(k)
        if kk is _MISS:
            self[k] = d
            return d
        return self._native(dict.__getitem__, kk)

    def __delitem__(self, k):
        kk = self._find(k)
        if kk is _MISS:
            raise KeyError(k)
        self._native(dict.__delitem__, kk)

    def pop(self, k, *d):
        kk = self._find(k)
        if kk is _MISS:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._native(dict.__getitem__, kk)
        self._native(dict.__delitem__, kk)
        return v

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            elif hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def items(self):
        if not self._sym:
            return dict.items(self)
        return [(k, self._native(dict.__getitem__, k)) for k in dict.keys(self)]

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) and type(o) is SymDict else SymDict(o)
        for k, v in self.items():
            kk = o._find(k)
            if kk is _MISS:
                return False
            if not (v == o._native(dict.__getitem__, kk)):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __deepcopy__(self, memo):
        from copy import deepcopy

        r = type(self)()
        for k, v in self.items():
            r[deepcopy(k, memo)] = deepcopy(v, memo)
        return r

    def __reduce__(self):
        raise TypeError("no pickling")

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


class DefaultDict(SymDict):
    """collections.defaultdict"""

    __slots__ = ("default_factory",)

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return DefaultDict(self.default_factory, self)

    __copy__ = copy


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or isinstance(x, (set, frozenset))


class SymSet(metaclass=_SetMeta):
    def __init__(self, it=()):
        self.d = SymDict()
        for x in it:
            self.d[x] = None

    def __class_getitem__(cls, x):
        return set[x]

    def add(self, x):
        self.d.setdefault(x)

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        for k in self.d:
            del self.d[k]
            return k
        raise KeyError("pop from an empty set")

    def clear(self):
        self.d.clear()
        self.d._sym = False

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        self.d = self.intersection(*its).d

    def copy(self):
        return SymSet(self)

    def __contains__(self, x):
        return x in self.d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def union(self, *its):
        r = SymSet(self)
        r.update(*its)
        return r

    def intersection(self, *its):
        r = list(self)
        for it in its:
            o = it if isinstance(it, (SymSet, dict)) and not isinstance(it, (set, frozenset)) else SymSet(it)
            r = [x for x in r if x in o]
        return SymSet(r)

    def difference(self, *its):
        r = SymSet(self)
        r.difference_update(*its)
        return r

    def symmetric_difference(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, SymSet):
            return NotImplemented
        o = SymSet(o)
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __hash__(self):
        h = 0
        for x in self:
            h ^= hash(x)
        return h

    def __repr__(self):
        return f"{{{', '.join(map(repr, self))}}}"


# ---------------------------------------------------------------- builtin shims

_str, _int, _float = str, int, float


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _str)

    def __subclasscheck__(cls, x):
        return x is cls or issubclass(x, _str)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return to_str(a[0])
        if a and isinstance(a[0], SymBytes):
            return a[0].decode(*a[1:], **k)
        return _str(*a, **k)

    def __getattr__(cls, n):
        f = getattr(_str, n)
        if n == "maketrans":
            return lambda *a: SymDict(_str.maketrans(*[{k: v for k, v in x.items()} if isinstance(x, dict) else x for x in a]))
        if n in STRM or n in ("lower", "upper"):
            return lambda s, *a, **k: callm(s, n, *a, **k)
        return f

    def __eq__(cls, o):
        return o is cls or o is _str

    def __hash__(cls):
        return hash(_str)


class Str(metaclass=_StrMeta):
    pass


Str.__name__ = Str.__qualname__ = "str"


def to_str(x):
    if type(x) is SymStr:
        return x
    if type(x) is SymInt:
        return int_to_str(x)
    if isinstance(x, (_str, _int, _float, type(None))):
        return _str(x)
    f = type(x).__str__
    if f is object.__str__:
        return to_repr(x)
    if f is BaseException.__str__:
        if len(x.args) == 1:
            return to_str(x.args[0])
        return _str(x.args)
    r = f(x)
    return r


def to_repr(x):
    if type(x) is SymStr:
        return repr(x)
    return repr(x)


def int_to_str(n):
    if n < 0:
        return "-" + int_to_str(-n)
    digits = 1
    while not (n < 10**digits):
        digits += 1
        if digits > 12:
            return _str(n.__index__())
    return fmt_digits(n, digits, 10)


def fmt_digits(n, digits, base, upper=False):
    out = []
    for i in range(digits - 1, -1, -1):
        d = (n // (base**i)) % base if i else n % base
        if type(d) is not SymInt:
            out.append(ord("0123456789abcdef"[d]))
            continue
        if base == 10:
            r = d + 48
        else:
            z = z3.If(d.z < 10, d.z + 48, d.z + (55 if upper else 87))
            r = SymInt(z, d.vs, lambda m, d=d: ord(("0123456789ABCDEF" if upper else "0123456789abcdef")[d.ev(m)]))
        from .core import ZCh

        dom = C.ASCII_DIGIT if base == 10 else C.ASCII_DIGIT | (C.rng("A", "F") if upper else C.rng("a", "f"))
        out.append(ZCh(r.z, r.vs, r.ev, dom, (base, d)))
    return mkstr(out)


import re as _re

_spec = _re.compile(r"(?:(.)?([<>^=]))?([+ -]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)", _re.DOTALL)


def fmt(v, spec):
    if type(spec) is SymStr:
        spec = concretise_str(spec)
    if type(v) is SymStr:
        if not spec:
            return v
        m = _spec.fullmatch(spec)
        if m and m[9] in ("", "s") and not m[3] and not m[4]:
            if m[8]:
                v = v[: int(m[8])]
            w = int(m[6] or 0)
            a = m[2] or "<"
            f = m[1] or " "
            return v.ljust(w, f) if a == "<" else v.rjust(w, f) if a == ">" else v.center(w, f)
        raise ValueError("bad format spec")
    if type(v) is SymInt:
        if not spec:
            return int_to_str(v)
        m = _spec.fullmatch(spec)
        if m and m[9] in ("x", "X", "d", "") and not m[3] and not m[4] and not m[7]:
            base = 16 if m[9] in ("x", "X") else 10
            if v < 0:
                return format(v.__index__(), spec)
            digits = 1
            while not (v < base**digits):
                digits += 1
            s = fmt_digits(v, digits, base, m[9] == "X")
            w = int(m[6] or 0)
            fill = m[1] or ("0" if m[5] else " ")
            a = m[2] or ">"
            if len(s) < w:
                s = fill * (w - len(s)) + s if a in (">", "=") else s + fill * (w - len(s))
            return s
        return format(v.__index__(), spec)
    if type(v) is SymBool:
        return format(bool(v), spec)
    if not spec and not isinstance(v, (_str, _int, _float)):
        if type(v).__format__ is object.__format__:
            return to_str(v)
    return format(v, spec)


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = to_repr(v)
            elif conv == 115:
                v = to_str(v)
            elif conv == 97:
                v = ascii(v)
            p = fmt(v, spec)
        if type(p) is SymStr:
            sym = True
        out.append(p)
    if not sym:
        return "".join(out)
    cs = []
    for p in out:
        cs.extend(chs(p))
    return mkstr(cs)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _int)

    def __subclasscheck__(cls, x):
        return x is cls or issubclass(x, _int)

    def __call__(cls, *a, **k):
        if a and type(a[0]) is SymStr:
            return parse_int(a[0], *a[1:], **k)
        if a and type(a[0]) is SymInt:
            return a[0]
        return _int(*a, **k)

    def __getattr__(cls, n):
        return getattr(_int, n)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class Int(metaclass=_IntMeta):
    pass


Int.__name__ = Int.__qualname__ = "int"

_decdigit = {}


def decimal_sets():
    if not _decdigit:
        import unicodedata

        for c in C.strpred("isdecimal"):
            _decdigit.setdefault(unicodedata.decimal(chr(c)), []).append((c, c))
        for k in list(_decdigit):
            _decdigit[k] = C.mk(_decdigit[k])
    return _decdigit


def parse_int(s, base=10):
    if base not in (10, 16, 8, 2):
        return _int(concretise_str(s), base)
    orig = s
    s = s.strip()
    c = list(chs(s))
    neg = False
    i = 0
    if c and ENGINE.decide(ch_in(c[0], C.chars("+-"))):
        neg = ENGINE.decide(ch_in(c[0], C.one(45)))
        i = 1
    err = ValueError(f"invalid literal for int() with base {base}")
    if base == 16 and len(c) - i >= 3 and ENGINE.decide(ch_in(c[i], C.one(48))) and ENGINE.decide(ch_in(c[i + 1], C.chars("xX"))):
        i += 2
        if len(c) > i and ENGINE.decide(ch_in(c[i], C.one(95))):
            i += 1
    if i >= len(c):
        raise err
    total = 0
    prev_us = True
    ds = decimal_sets()
    dec = C.strpred("isdecimal")
    for x in c[i:]:
        if ENGINE.decide(ch_in(x, C.one(95))):
            if prev_us:
                raise err
            prev_us = True
            continue
        prev_us = False
        dg = getattr(x, "digit", None)
        if dg is not None and dg[0] <= base:
            d = dg[1]
        elif ENGINE.decide(ch_in(x, C.ASCII_DIGIT)):
            d = toint(x) - 48
            if base < 10 and not (d < base):
                raise err
        elif ENGINE.decide(ch_in(x, dec)):
            for v, cs in ds.items():
                if ENGINE.decide(ch_in(x, cs)):
                    d = v
                    break
            if d >= base:
                raise err
        elif base == 16 and ENGINE.decide(ch_in(x, C.rng("a", "f"))):
            d = toint(x) - 87
        elif base == 16 and ENGINE.decide(ch_in(x, C.rng("A", "F"))):
            d = toint(x) - 55
        else:
            raise err
        total = total * base + d if not (type(total) is _int and total == 0) else d
    if prev_us:
        raise err
    return -total if neg else total


_float_rx = None


class SymFloat:
    """Result of float(symbolic string) that parsed; its value is only used by concretising."""

    __class__ = property(lambda self: _float)

    def __init__(self, s):
        self.s = s

    def _v(self):
        return _float(concretise_str(self.s))

    def __float__(self):
        return self._v()

    def __eq__(self, o):
        if type(o) is SymFloat:
            if ENGINE.decide(term(self.s == o.s)):
                return True
            return self._v() == o._v()
        return self._v() == o

    def __lt__(self, o):
        return self._v() < o

    def __le__(self, o):
        return self._v() <= o

    def __gt__(self, o):
        return self._v() > o

    def __ge__(self, o):
        return self._v() >= o

    def __hash__(self):
        return hash(self._v())

    def __bool__(self):
        return bool(self._v())

    def __int__(self):
        return _int(self._v())

    def is_integer(self):
        return self._v().is_integer()

    def __repr__(self):
        return repr(self._v())


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _float)

    def __subclasscheck__(cls, x):
        return x is cls or issubclass(x, _float)

    def __call__(cls, *a):
        if a and type(a[0]) is SymStr:
            global _float_rx
            if _float_rx is None:
                d = r"\d(?:_?\d)*"
                _float_rx = symre.compile(
                    rf"[+-]?(?:(?:{d}(?:\.(?:{d})?)?|\.{d})(?:[eE][+-]?{d})?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])"
                )
            s = a[0].strip()
            if not _float_rx.fullmatch(s):
                raise ValueError("could not convert string to float")
            return SymFloat(a[0])
        if a and type(a[0]) is SymFloat:
            return a[0]
        return _float(*a)

    def __getattr__(cls, n):
        return getattr(_float, n)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class Float(metaclass=_FloatMeta):
    pass


def b_ord(c):
    if type(c) is SymStr:
        if len(c.c) != 1:
            raise TypeError("ord() expected a character")
        return toint(c.c[0])
    return ord(c)


def b_chr(n):
    if type(n) is SymInt:
        return fromint(n)
    return chr(n)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymStr or type(x) is _str:
            return Str
        if type(x) is SymInt or type(x) is _int:
            return Int
        if type(x) is SymBool:
            return bool
        return type(x)
    return type(*a)


def b_print(*a, **k):
    if k.get("file") is not None:
        return
    PRINTED.append(a)


PRINTED = []


class SymBytes:
    """bytes of an encoded symbolic string; only decoding with the same codec is modelled."""

    __class__ = property(lambda self: bytes)

    def __init__(self, s, enc="utf-8", errors="strict"):
        self.s = s
        self.enc = enc
        self.errors = errors

    def decode(self, enc="utf-8", errors="strict"):
        return self.s

    def ascii(self):
        """the contents, when all of it is known to be ASCII"""
        if type(self.s) is SymStr and not ENGINE.decide(t_and([ch_in(c, C.mk([(0, 127)])) for c in self.s.c])):
            raise Inconclusive("pattern matching on symbolic non-ASCII bytes")
        return self.s

    def _b(self):
        return concretise_str(self.s).encode(self.enc, self.errors) if type(self.s) is SymStr else self.s.encode(self.enc)

    def __len__(self):
        return len(self._b())

    def __bytes__(self):
        return self._b()

    def __bool__(self):
        return len(self.s) > 0

    def __eq__(self, o):
        if isinstance(o, SymBytes) and type(o) is SymBytes:
            return self.s == o.s
        return self._b() == o

    def __hash__(self):
        return hash(self._b())


    def __add__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        return SymBytes(self.s + btext(o), self.enc)

    def __radd__(self, o):
        return SymBytes(btext(o) + self.s, self.enc)

    def splitlines(self, keepends=False):
        return [SymBytes(x, self.enc) for x in callm(self.ascii(), "splitlines", keepends)]

    def startswith(self, p, *a):
        return callm(self.s, "startswith", tuple(map(btext, p)) if type(p) is tuple else btext(p), *a)

    def strip(self, p=None):
        return SymBytes(self.s.strip(None if p is None else btext(p)), self.enc)


def btext(b):
    """the text of which bytes are the UTF-8 encoding"""
    if type(b) in (SymBytes, SymByteArray):
        return b.s
    return b.decode("utf-8")


class SymByteArray:
    """bytearray, for what is the UTF-8 encoding of a text"""

    __class__ = property(lambda self: bytearray)

    def __init__(self, source=b""):
        self.s = btext(source)
        self.enc = "utf-8"

    def extend(self, b):
        self.s = self.s + btext(b)

    def __iadd__(self, b):
        self.extend(b)
        return self

    def __len__(self):
        return len(SymBytes(self.s)._b()) if type(self.s) is SymStr else len(self.s.encode())

    def __bool__(self):
        return len(self.s) > 0

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        try:
            return self.s == btext(o)
        except UnicodeDecodeError:
            return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def decode(self, enc="utf-8", errors="strict"):
        return self.s


class _BytearrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _bytearray)

    def __call__(cls, *a):
        if not a or isinstance(a[0], (bytes, _bytearray)):
            return SymByteArray(*a)
        return _bytearray(*a)


_bytearray = bytearray


class ByteArray(metaclass=_BytearrayMeta):
    pass


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _bytes)

    def __subclasscheck__(cls, x):
        return x is cls or issubclass(x, _bytes)

    def __call__(cls, *a, **k):
        if a and type(a[0]) in (SymBytes, SymByteArray):
            return SymBytes(a[0].s)
        if a and type(a[0]) is SymStr:
            return a[0].encode(*a[1:], **k)
        return _bytes(*a, **k)

    def __getattr__(cls, n):
        return getattr(_bytes, n)

    def __eq__(cls, o):
        return o is cls or o is _bytes

    def __hash__(cls):
        return hash(_bytes)


_bytes = bytes


class Bytes(metaclass=_BytesMeta):
    pass


def b_open(*a, **k):
    return importlib.import_module("checks.shim_fs").open(*a, **k)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bool)


# ---------------------------------------------------------------- operations


def sx_in(a, b):
    tb = type(b)
    if tb is SymStr:
        return contains(b, a)
    if type(a) is SymStr:
        if isinstance(b, _str):
            if len(a.c) == 1:
                return mkbool(ch_in(a.c[0], C.chars(b)))
            return contains(b, a)
        if tb in (tuple, list):
            return mkbool(t_or([term(x == a) if x is not a else True for x in b]))
        if isinstance(b, SymSet) and type(b) is SymSet:
            if not b.d:
                return False
            return mkbool(t_or([keyeq(x, a) for x in b.d]))
        if tb in (set, frozenset):
            return mkbool(t_or([term(a == x) for x in b]))
        if tb is dict:
            return mkbool(t_or([term(a == x) for x in b]))
        if tb is SymDict:
            if len(b) and all(not issym(k) for k in b):
                return mkbool(t_or([keyeq(k, a) for k in dict.keys(b)]))
    return a in b


def sx_notin(a, b):
    return not_(sx_in(a, b))


def sx_mod(a, b):
    if isinstance(a, _str) and type(a) is not SymStr:
        args = b if isinstance(b, tuple) else (b,)
        if any(type(x) in (SymStr, SymInt) for x in args) or isinstance(b, dict):
            return pct_format(a, b)
        if any(not isinstance(x, (_str, _int, _float)) for x in args):
            return pct_format(a, b)
    elif type(a) is SymStr:
        return concretise_str(a) % b
    return a % b


_pct = _re.compile(r"%(?:\(([^)]*)\))?([-+ #0]*)(\d*|\*)(?:\.(\d+))?([a-zA-Z%])")


def pct_format(f, b):
    out = []
    p = 0
    i = 0
    args = b if isinstance(b, tuple) else (b,)
    for m in _pct.finditer(f):
        out.append(f[p : m.start()])
        p = m.end()
        if m[5] == "%":
            out.append("%")
            continue
        if m[1] is not None:
            v = b[m[1]]
        else:
            v = args[i]
            i += 1
        c = m[5]
        if c == "s":
            v = to_str(v)
            if m[4]:
                v = v[: int(m[4])]
            w = int(m[3] or 0)
            if w:
                v = callm(v, "ljust" if "-" in m[2] else "rjust", w)
        elif c == "r":
            v = to_repr(v)
        elif c in "di":
            v = fmt(v, ("0" if "0" in m[2] else "") + m[3])
        elif c in "xX":
            v = fmt(v, ("0" if "0" in m[2] else "") + m[3] + c)
        else:
            v = m[0] % v
        out.append(v)
    out.append(f[p:])
    return fstr(*out)


STRM = set(
    "join replace startswith endswith find rfind index rindex count split rsplit partition rpartition strip lstrip rstrip "
    "removeprefix removesuffix translate format format_map ljust rjust center zfill".split()
)


def callm(o, name, *a, **k):
    if type(o) is _str or (isinstance(o, _str) and type(o) is not SymStr):
        if name == "join":
            it = list(a[0])
            for x in it:
                if type(x) is SymStr:
                    return SymStr(lift(o)).join(it)
            return o.join(it)
        if name == "format":
            if any(type(x) in (SymStr, SymInt) for x in a) or any(type(x) in (SymStr, SymInt) for x in k.values()):
                return str_format(o, a, k)
            return o.format(*a, **k)
        if name == "format_map":
            return str_format(o, (), a[0])
        if name == "translate":
            t = a[0]
            vals = t.values() if isinstance(t, dict) else ()
            if any(type(v) is SymStr for v in vals):
                return SymStr(lift(o)).translate(t)
            return o.translate(t)
        for x in a:
            if type(x) is SymStr or (type(x) is tuple and any(type(y) is SymStr for y in x)):
                return getattr(SymStr(lift(o)), name)(*a, **k)
    elif name == "join" and isinstance(o, bytes) and type(o) is not SymBytes:
        it = list(a[0])
        if any(type(x) is SymBytes for x in it):
            return SymBytes(callm(o.decode("utf-8"), "join", [btext(x) for x in it]))
        return o.join(it)
    return getattr(o, name)(*a, **k)


def fmt_parse(f):
    """string.Formatter().parse(); in symbolic formats, only braces make fields"""
    import string

    if type(f) is not SymStr:
        yield from string.Formatter().parse(f)
        return
    c = list(f.c)
    i = 0
    lit = []
    lb, rb = C.one(123), C.one(125)
    isin = lambda x, cs: ENGINE.decide(ch_in(x, cs))
    while i < len(c):
        if isin(c[i], lb):
            if i + 1 < len(c) and isin(c[i + 1], lb):
                lit.append(123)
                i += 2
                continue
            j = i + 1
            while j < len(c) and not isin(c[j], rb):
                if isin(c[j], lb):
                    raise Inconclusive("nested format fields")
                j += 1
            if j >= len(c):
                raise ValueError("expected '}' before end of string" if i + 1 < len(c) else "Single '{' encountered in format string")
            body = concretise_str(mkstr(c[i : j + 1])) if any(type(x) is not _int for x in c[i : j + 1]) else "".join(map(chr, c[i : j + 1]))
            ((_, field, spec, conv),) = string.Formatter().parse(body)
            yield mkstr(lit), field, spec, conv
            lit = []
            i = j + 1
        elif isin(c[i], rb):
            if i + 1 < len(c) and isin(c[i + 1], rb):
                lit.append(125)
                i += 2
                continue
            raise ValueError("Single '}' encountered in format string")
        else:
            lit.append(c[i])
            i += 1
    if lit:
        yield mkstr(lit), None, None, None


def str_format(f, a, k):
    import string

    out = []
    n = 0
    for lit, field, spec, conv in fmt_parse(f):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[n]
            n += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v, _ = string.Formatter().get_field(field, a, k)
        out.append((v, ord(conv) if conv else -1, spec or ""))
    return fstr(*out)


def mkdict(*items):
    d = SymDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkset(*items):
    return SymSet(items)


def sx_or(*ts):
    return mkbool(t_or([term(t) for t in ts]))


def sx_and(*ts):
    return mkbool(t_and([term(t) for t in ts]))


def enter(name):
    FUNCS.add(name)


# ---------------------------------------------------------------- AST


_SIMPLE = (ast.Name, ast.Constant)


def _simple_cmp(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return _simple_cmp(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(_simple_cmp(v) for v in n.values)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op = n.ops[0]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return isinstance(n.left, _SIMPLE) and isinstance(n.comparators[0], _SIMPLE)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = n.comparators[0]
            return isinstance(n.left, _SIMPLE) and (
                isinstance(c, ast.Constant)
                or (isinstance(c, (ast.Tuple, ast.Set, ast.List)) and all(isinstance(e, ast.Constant) for e in c.elts))
            )
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def name(self, n, like):
        return ast.copy_location(ast.Name(n, ast.Load()), like)

    def call(self, fn, args, like, keywords=()):
        return ast.copy_location(ast.Call(self.name(fn, like), list(args), list(keywords)), like)

    # boolean positions
    def _bool(self, n):
        """rewrite a boolean-context expression made of simple comparisons into one non-forking term"""
        if isinstance(n, ast.BoolOp) and _simple_cmp(n):
            vals = [self._bool(v) for v in n.values]
            return self.call("__sx_or__" if isinstance(n.op, ast.Or) else "__sx_and__", vals, n)
        if isinstance(n, ast.BoolOp):
            # merge runs of simple comparisons
            vals = []
            run = []
            fn = "__sx_or__" if isinstance(n.op, ast.Or) else "__sx_and__"

            def flush():
                if len(run) > 1:
                    vals.append(self.call(fn, [self._bool(v) for v in run], run[0]))
                elif run:
                    vals.append(self._bool(run[0]))
                run.clear()

            for v in n.values:
                if _simple_cmp(v):
                    run.append(v)
                else:
                    flush()
                    vals.append(self._bool(v))
            flush()
            if len(vals) == 1:
                return vals[0]
            n.values = vals
            return n
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.call("__sx_not__", [self._bool(n.operand)], n)
        return self.visit(n)

    def visit_If(self, n):
        n.test = self._bool(n.test)
        n.body = [y for x in n.body for y in self._l(self.visit(x))]
        n.orelse = [y for x in n.orelse for y in self._l(self.visit(x))]
        return n

    @staticmethod
    def _l(x):
        return x if isinstance(x, list) else [x] if x is not None else []

    def visit_While(self, n):
        return self.visit_If(n)

    def visit_IfExp(self, n):
        n.test = self._bool(n.test)
        n.body = self.visit(n.body)
        n.orelse = self.visit(n.orelse)
        return n

    def visit_comprehension(self, n):
        n.target = self.visit(n.target)
        n.iter = self.visit(n.iter)
        n.ifs = [self._bool(i) for i in n.ifs]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            fn = "__sx_in__" if isinstance(n.ops[0], ast.In) else "__sx_notin__"
            return self.call(fn, [n.left, n.comparators[0]], n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(ast.Constant(""), n)
                parts.append(
                    ast.copy_location(
                        ast.Tuple([val, ast.copy_location(ast.Constant(v.conversion), n), spec], ast.Load()), n
                    )
                )
            else:
                parts.append(v)
        return self.call("__sx_fstr__", parts, n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = []
        for k, v in zip(n.keys, n.values):
            elts = [v] if k is None else [k, v]
            items.append(ast.copy_location(ast.Tuple(elts, ast.Load()), n))
        return self.call("__sx_dict__", items, n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.call("__sx_set__", n.elts, n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.call("__sx_SymSet__", [ast.copy_location(ast.GeneratorExp(n.elt, n.generators), n)], n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        kv = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        return self.call("__sx_SymDict__", [ast.copy_location(ast.GeneratorExp(kv, n.generators), n)], n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.call("__sx_mod__", [n.left, n.right], n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STRM and isinstance(f.ctx, ast.Load):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return n
            return self.call(
                "__sx_callm__", [f.value, ast.copy_location(ast.Constant(f.attr), n), *n.args], n, n.keywords
            )
        if isinstance(f, ast.Name) and f.id == "type" and len(n.args) == 1 and not n.keywords:
            return self.call("__sx_type__", n.args, n)
        return n

    def visit_AnnAssign(self, n):
        # annotations are left alone
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _func(self, n):
        self.stack.append(n.name)
        q = ".".join(self.stack)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = [y for x in n.body for y in self._l(self.visit(x))]
        i = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            i = 1
        e = ast.Expr(self.call("__sx_enter__", [ast.copy_location(ast.Constant(f"{self.mod}:{q}"), n)], n))
        n.body.insert(i, ast.copy_location(e, n))
        self.stack.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.bases = [
            self.name("__sx_real_" + b.id + "__", b) if isinstance(b, ast.Name) and b.id in ("str", "int", "float") else self.visit(b)
            for b in n.bases
        ]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = [y for x in n.body for y in self._l(self.visit(x))]
        self.stack.pop()
        return n

    def visit_match_case(self, n):
        # patterns are left alone
        if n.guard is not None:
            n.guard = self._bool(n.guard)
        n.body = [y for x in n.body for y in self._l(self.visit(x))]
        return n


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


NAMES = {
    "__sx_in__": sx_in,
    "__sx_notin__": sx_notin,
    "__sx_not__": not_,
    "__sx_or__": sx_or,
    "__sx_and__": sx_and,
    "__sx_fstr__": fstr,
    "__sx_dict__": mkdict,
    "__sx_set__": mkset,
    "__sx_SymSet__": SymSet,
    "__sx_SymDict__": SymDict,
    "__sx_mod__": sx_mod,
    "__sx_callm__": callm,
    "__sx_type__": b_type,
    "__sx_enter__": enter,
    "__sx_real_str__": str,
    "__sx_real_int__": int,
    "__sx_real_float__": float,
}

def _module(real, **repl):
    m = types.ModuleType(real.__name__)
    m.__dict__.update(vars(real))
    m.__dict__.update(repl)
    return m


SHIM_MODULES = {"re": symre, "collections": _module(collections, defaultdict=DefaultDict)}
PREFIXES = ["moz", "fluent", "iniparse", "polib", "gitignorant", "checks"]
# Python models of library modules that cannot be executed symbolically, loaded when first imported
LAZY_SHIMS = {"json": "checks.shim_json", "io": "checks.shim_io", "configparser": "checks.shim_configparser", "lxml": "checks.shim_lxml", "logging": "checks.shim_logging", "os": "checks.shim_os", "glob": "checks.shim_glob", "shutil": "checks.shim_shutil", "posixpath": "checks.shim_os_path", "functools": "checks.shim_functools"}
# ... that replace only a part of the module
PARTIAL = {
    "functools": ["lru_cache", "cache"],
    "io": ["StringIO", "BytesIO", "open"],
    "os": ["path", "sep", "altsep", "fspath", "getcwd", "listdir", "scandir", "walk", "mkdir", "makedirs", "remove", "unlink", "replace", "rename"],
    "configparser": ["Error", "ParsingError", "MissingSectionHeaderError"],
}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if "." in name and name.split(".")[0] in LAZY_SHIMS:
            _import(name.split(".")[0])
        if name in LAZY_SHIMS and name not in SHIM_MODULES:
            m = importlib.import_module(LAZY_SHIMS[name])
            if name in PARTIAL:
                m = _module(importlib.import_module(name), **{k: getattr(m, k) for k in PARTIAL[name]})
            SHIM_MODULES[name] = m
        m = SHIM_MODULES.get(name)
        if m is not None:
            return m
        if "." in name:
            top = name.split(".")[0]
            if top in SHIM_MODULES:
                m = SHIM_MODULES[top]
                if not fromlist:
                    return m
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    __import__=_import,
    dict=SymDict,
    set=SymSet,
    frozenset=SymSet,
    str=Str,
    int=Int,
    float=Float,
    ord=b_ord,
    chr=b_chr,
    print=b_print,
    open=b_open,
    bytes=Bytes,
    bytearray=ByteArray,
)
BUILTINS.update(NAMES)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            return instrument(f.read(), path, fullname)

    def exec_module(self, module):
        module.__dict__["__builtins__"] = BUILTINS
        super().exec_module(module)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        top = name.split(".")[0]
        if top not in PREFIXES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if Finder not in sys.meta_path:
        sys.meta_path.insert(0, Finder)


# ---------------------------------------------------------------- structural equality / evaluation


def deep_eq(a, b):
    """term for a == b over the data model; forks only to pair up symbolic dict keys"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (SymStr, SymInt, SymBool) or tb in (SymStr, SymInt, SymBool):
        r = a == b
        if r is NotImplemented:
            return False
        return term(r)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            t = deep_eq(x, y)
            if t is False:
                return False
            out.append(t)
        return t_and(out)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        bb = b if type(b) is SymDict else SymDict(b)
        out = []
        for k, v in a.items():
            kk = bb._find(k)
            if kk is _MISS:
                return False
            t = deep_eq(v, bb._native(dict.__getitem__, kk))
            if t is False:
                return False
            out.append(t)
        return t_and(out)
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        if ta is not tb:
            return False
        out = []
        for f in dataclasses.fields(a):
            if f.compare:
                t = deep_eq(getattr(a, f.name), getattr(b, f.name))
                if t is False:
                    return False
                out.append(t)
        return t_and(out)
    if type(a) is SymSet or type(b) is SymSet:
        return bool(a == b)
    return bool(a == b)


def evaluate(x, m):
    """Concrete copy of x under model m, as canonical JSON-able data."""
    t = type(x)
    if t is SymStr:
        return ev_str(x, m)
    if t is SymInt:
        return x.ev(m)
    if t is SymBool:
        return x.t.ev(m)
    if isinstance(x, enum.Enum):
        return ["enum", x.name]
    if t is SymFloat:
        s = x.s
        return ["float", repr(_float(ev_str(s, m) if type(s) is SymStr else s))]
    if isinstance(x, float):
        return ["float", repr(x)]
    if isinstance(x, (str, int, type(None), bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [evaluate(y, m) for y in x]
    if isinstance(x, dict):
        return ["dict", [[evaluate(k, m), evaluate(v, m)] for k, v in x.items()]]
    if isinstance(x, (SymSet, set, frozenset)):
        return ["set", sorted((evaluate(y, m) for y in x), key=repr)]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [type(x).__name__, [[f.name, evaluate(getattr(x, f.name), m)] for f in dataclasses.fields(x)]]
    if isinstance(x, BaseException):
        return ["exc", type(x).__name__]
    return ["obj", type(x).__name__]
