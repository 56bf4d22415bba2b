"""Symbolic str / int / bool values."""
from __future__ import annotations

import sys

import z3

from . import charset as C
from .core import (
    ENGINE,
    Off,
    StepLimit,
    Term,
    Var,
    ZCh,
    ZT,
    ch_eq,
    ch_ev,
    ch_in,
    ch_vars,
    ch_z,
    map_char,
    t_and,
    t_not,
    t_or,
)

_str = str
_int = int
_bool = bool


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: _bool)

    def __bool__(self):
        return ENGINE.decide(self.t)

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __and__(self, o):
        return mkbool(t_and([self.t, term(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(t_or([self.t, term(o)]))

    __ror__ = __or__

    def __xor__(self, o):
        o = term(o)
        return mkbool(t_or([t_and([self.t, t_not(o)]), t_and([t_not(self.t), o])]))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, _bool):
            return mkbool(t_not((self ^ o).t if isinstance(self ^ o, SymBool) else (self ^ o)))
        return _bool(self) == o

    def __ne__(self, o):
        return mkbool(t_not(term(self == o)))

    def __hash__(self):
        return hash(_bool(self))

    def __add__(self, o):
        return _int(self) + o

    __radd__ = __add__

    def __repr__(self):
        return "<symbool>"


def mkbool(t):
    if t is True or t is False:
        return t
    return SymBool(t)


def term(x):
    """Python truth value or SymBool -> term (no fork)"""
    if type(x) is SymBool:
        return x.t
    if isinstance(x, Term):
        return x
    if type(x) is _bool:
        return x
    if type(x) is SymInt:
        return term(x != 0)
    return _bool(x)


def not_(x):
    if type(x) is SymBool:
        return mkbool(t_not(x.t))
    return not x


# ---------------------------------------------------------------- int


class SymInt:
    __slots__ = ("z", "vs", "ev", "lin")

    def __init__(self, z, vs, ev, lin=None):
        self.z = z
        self.vs = vs
        self.ev = ev
        self.lin = lin  # (Var, k): the value is Var + k

    __class__ = property(lambda self: _int)

    @staticmethod
    def parts(o):
        t = type(o)
        if t is SymInt:
            return o.z, o.vs, o.ev
        if t is _int or t is _bool:
            o = _int(o)
            return z3.IntVal(o), (), lambda m: o
        if t is SymBool:
            o = _int(o)
            return z3.IntVal(o), (), lambda m: o
        return None

    def _bin(self, o, fz, fp, rev=False):
        p = SymInt.parts(o)
        if p is None:
            return NotImplemented
        z, vs, ev = p
        vs2 = tuple({v.i: v for v in self.vs + vs}.values())
        se = self.ev
        if rev:
            return mkint(fz(z, self.z), vs2, lambda m: fp(ev(m), se(m)))
        return mkint(fz(self.z, z), vs2, lambda m: fp(se(m), ev(m)))

    def _cmp(self, o, fz, fp):
        p = SymInt.parts(o)
        if p is None:
            if isinstance(o, float):
                z, vs, ev = z3.RealVal(o), (), lambda m: o
            else:
                return NotImplemented
        else:
            z, vs, ev = p
        vs2 = tuple({v.i: v for v in self.vs + vs}.values())
        se = self.ev
        if not vs and self.lin is not None and p is not None:
            var, k = self.lin
            n = ev(None) - k
            cs = C.mk(
                ([(0, min(n - 1, C.MAX))] if n > 0 and fp(0, 1) else [])
                + ([(n, n)] if 0 <= n <= C.MAX and fp(0, 0) else [])
                + ([(max(n + 1, 0), C.MAX)] if n < C.MAX and fp(1, 0) else [])
            )
            return mkbool(ch_in(var, cs))
        return mkbool(ZT(fz(self.z, z), vs2, lambda m: fp(se(m), ev(m))))

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
        if type(o) is _int and self.lin is not None:
            r.lin = (self.lin[0], self.lin[1] + o)
        return r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
        if type(o) is _int and self.lin is not None:
            r.lin = (self.lin[0], self.lin[1] - o)
        return r

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, _str) or isinstance(o, (list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if type(o) is _int and o > 0:
            return self._bin(o, lambda a, b: a / b, lambda a, b: a // b)
        return self.__index__() // o

    def __mod__(self, o):
        if type(o) is _int and o > 0:
            return self._bin(o, lambda a, b: a % b, lambda a, b: a % b)
        return self.__index__() % o

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __rpow__(self, o):
        return o ** self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __rlshift__(self, o):
        return o << self.__index__()

    def __xor__(self, o):
        return self.__index__() ^ o

    __rxor__ = __xor__

    def __rand__(self, o):
        return self & o

    def __ror__(self, o):
        return self | o

    def __invert__(self):
        return -1 - self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self if n is None else round(self.__index__(), n)

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, *a, **k):
        return self.__index__().to_bytes(*a, **k)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, _str):
            return NotImplemented
        return o % self.__index__()

    def __pow__(self, o):
        return self.__index__() ** o

    def __rshift__(self, o):
        return self // (1 << o)

    def __lshift__(self, o):
        return self * (1 << o)

    def __and__(self, o):
        if type(o) is _int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(self):
        return _bool(self != 0)

    def __index__(self):
        return concretise_int(self)

    __int__ = __index__

    def __float__(self):
        return float(concretise_int(self))

    def __hash__(self):
        return hash(concretise_int(self))

    def __format__(self, spec):
        return format(concretise_int(self), spec)

    def __repr__(self):
        return repr(concretise_int(self))


def mkint(z, vs, ev):
    if not vs:
        return ev({})
    return SymInt(z, vs, ev)


def concretise_int(x):
    """Case-split over the values of x: exhaustive when it has finitely many, in any case a fork each."""
    n = 0
    while True:
        if n > 64:
            ENGINE.stats.concretised += 1
            raise StepLimit("concretise int")
        v = ENGINE.choose_value(x.ev)
        n += 1
        if x == v:
            return v


# ---------------------------------------------------------------- str


def lift(s):
    return tuple(map(ord, s))


def chs(s):
    """chars of a SymStr or str"""
    if type(s) is SymStr:
        return s.c
    return tuple(map(ord, s))


def mkstr(cs):
    """str if concrete, otherwise SymStr"""
    cs = tuple(cs)
    for c in cs:
        if type(c) is not _int:
            return SymStr(cs)
    return "".join(map(chr, cs))


def is_s(x):
    return type(x) is SymStr or isinstance(x, _str)


def _need(x):
    if not is_s(x):
        raise TypeError(f"expected str, got {type(x).__name__}")
    return chs(x)


def eq_chs(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y:
            continue
        t = ch_eq(x, y)
        if t is False:
            return False
        if t is not True:
            out.append(t)
    return t_and(out)


def _rangeof(i, j, n):
    if i is None:
        i = 0
    if j is None:
        j = n
    i = _idx(i)
    j = _idx(j)
    if i < 0:
        i = max(0, i + n)
    if j < 0:
        j = max(0, j + n)
    return i, min(j, n)


def _idx(i):
    return i.__index__()


WS = None


def ws():
    global WS
    if WS is None:
        WS = C.strpred("isspace")
    return WS


def charmatch(c, cs):
    return ENGINE.decide(ch_in(c, cs))


class SymStr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    __class__ = property(lambda self: _str)

    # -- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return True

    def __iter__(self):
        for c in self.c:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[i])
        return mkstr((self.c[_idx(i)],))

    def __eq__(self, o):
        if type(o) is SymStr:
            return mkbool(eq_chs(self.c, o.c))
        if isinstance(o, _str):
            if len(o) != len(self.c):
                return False
            return mkbool(eq_chs(self.c, lift(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __hash__(self):
        from . import rt

        if rt.ALLOW_HASH:
            return 0x5EED
        return hash(concretise_str(self))

    def _lt(self, o, strict):
        a, b = self.c, _need(o)
        for x, y in zip(a, b):
            if _bool(mkbool(ch_eq(x, y))):
                continue
            return _bool(toint(x) < toint(y))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        if not is_s(o):
            return NotImplemented
        return self._lt(o, True)

    def __le__(self, o):
        if not is_s(o):
            return NotImplemented
        return self._lt(o, False)

    def __gt__(self, o):
        if not is_s(o):
            return NotImplemented
        return not self._lt(o, False)

    def __ge__(self, o):
        if not is_s(o):
            return NotImplemented
        return not self._lt(o, True)

    def __add__(self, o):
        if not is_s(o):
            return NotImplemented
        return mkstr(self.c + chs(o))

    def __radd__(self, o):
        if not is_s(o):
            return NotImplemented
        return mkstr(chs(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * _idx(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return concretise_str(self) % args

    def __contains__(self, sub):
        return contains(self, sub)

    def __repr__(self):
        # used only in messages; quotes and escapes are not modelled
        return mkstr_concrete_repr(self)

    def __str__(self):
        return concretise_str(self)

    def __format__(self, spec):
        return format(concretise_str(self), spec)

    # -- search
    def _find_iter(self, sub, i, j):
        s = self.c
        n = len(sub)
        for k in range(i, j - n + 1):
            if _bool(mkbool(eq_chs(s[k : k + n], sub))):
                return k
        return -1

    def find(self, sub, i=None, j=None):
        i, j = _rangeof(i, j, len(self.c))
        return self._find_iter(_need(sub), i, j)

    def rfind(self, sub, i=None, j=None):
        i, j = _rangeof(i, j, len(self.c))
        sub = _need(sub)
        n = len(sub)
        for k in range(j - n, i - 1, -1):
            if _bool(mkbool(eq_chs(self.c[k : k + n], sub))):
                return k
        return -1

    def index(self, sub, i=None, j=None):
        r = self.find(sub, i, j)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, i=None, j=None):
        r = self.rfind(sub, i, j)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, i=None, j=None):
        i, j = _rangeof(i, j, len(self.c))
        sub = _need(sub)
        if not sub:
            return j - i + 1
        n = 0
        while True:
            k = self._find_iter(sub, i, j)
            if k < 0:
                return n
            n += 1
            i = k + len(sub)

    def startswith(self, p, i=None, j=None):
        i, j = _rangeof(i, j, len(self.c))
        if isinstance(p, tuple):
            return mkbool(t_or([term(self.startswith(x, i, j)) for x in p]))
        p = _need(p)
        if i > len(self.c) or i + len(p) > j:
            return False
        return mkbool(eq_chs(self.c[i : i + len(p)], p))

    def endswith(self, p, i=None, j=None):
        i, j = _rangeof(i, j, len(self.c))
        if isinstance(p, tuple):
            return mkbool(t_or([term(self.endswith(x, i, j)) for x in p]))
        p = _need(p)
        if j - len(p) < i:
            return False
        return mkbool(eq_chs(self.c[j - len(p) : j], p))

    # -- transform
    def replace(self, old, new, count=-1):
        old = _need(old)
        new = _need(new)
        s = self.c
        out = []
        if not old:
            for k, c in enumerate(s):
                if count == 0:
                    out.extend(s[k:])
                    return mkstr(out)
                out.extend(new)
                out.append(c)
                count -= 1
            if count != 0:
                out.extend(new)
            return mkstr(out)
        k = 0
        n = len(old)
        if n == 1 and len(new) == 1 and count < 0 and type(old[0]) is _int and type(new[0]) is _int:
            mp = [(C.one(old[0]), new[0] - old[0])]
            out = [map_char(c, mp) for c in s]
            if None not in out:
                return mkstr(out)
            out = []
        while k < len(s):
            if count != 0 and k + n <= len(s) and _bool(mkbool(eq_chs(s[k : k + n], old))):
                out.extend(new)
                k += n
                count -= 1
            else:
                out.append(s[k])
                k += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        s = self.c
        out = []
        if sep is None:
            cur = []
            k = 0
            w = ws()
            while k < len(s):
                while k < len(s) and charmatch(s[k], w):
                    k += 1
                if k >= len(s):
                    break
                if maxsplit == 0:
                    e = len(s)
                    while charmatch(s[e - 1], w):
                        e -= 1
                    out.append(mkstr(s[k:e]))
                    break
                a = k
                while k < len(s) and not charmatch(s[k], w):
                    k += 1
                out.append(mkstr(s[a:k]))
                maxsplit -= 1
            return out
        sep = _need(sep)
        if not sep:
            raise ValueError("empty separator")
        i = 0
        while maxsplit != 0:
            k = self._find_iter(sep, i, len(s))
            if k < 0:
                break
            out.append(mkstr(s[i:k]))
            i = k + len(sep)
            maxsplit -= 1
        out.append(mkstr(s[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        s = self.c
        if sep is None:
            if maxsplit < 0:
                return self.split()
            out = []
            e = len(s)
            w = ws()
            while e > 0:
                while e > 0 and charmatch(s[e - 1], w):
                    e -= 1
                if e == 0:
                    break
                if maxsplit == 0:
                    a = 0
                    while charmatch(s[a], w):
                        a += 1
                    out.append(mkstr(s[a:e]))
                    break
                k = e
                while k > 0 and not charmatch(s[k - 1], w):
                    k -= 1
                out.append(mkstr(s[k:e]))
                e = k
                maxsplit -= 1
            return out[::-1]
        out = []
        sp = _need(sep)
        if not sp:
            raise ValueError("empty separator")
        e = len(s)
        while maxsplit != 0:
            k = self.rfind(sep, 0, e)
            if k < 0:
                break
            out.append(mkstr(s[k + len(sp) : e]))
            e = k
            maxsplit -= 1
        out.append(mkstr(s[:e]))
        return out[::-1]

    def splitlines(self, keepends=False):
        s = self.c
        out = []
        a = k = 0
        while k < len(s):
            if charmatch(s[k], C.LINEBREAKS):
                e = k
                if charmatch(s[k], C.one(13)) and k + 1 < len(s) and charmatch(s[k + 1], C.one(10)):
                    k += 1
                k += 1
                out.append(mkstr(s[a : k if keepends else e]))
                a = k
            else:
                k += 1
        if a < len(s):
            out.append(mkstr(s[a:]))
        return out

    def partition(self, sep):
        k = self.find(sep)
        if k < 0:
            return (self, "", "")
        return (mkstr(self.c[:k]), sep, mkstr(self.c[k + len(sep) :]))

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return ("", "", self)
        return (mkstr(self.c[:k]), sep, mkstr(self.c[k + len(sep) :]))

    def _inset(self, c, chars):
        if chars is None:
            return charmatch(c, ws())
        if isinstance(chars, C.CharSet):
            return charmatch(c, chars)
        return ENGINE.decide(t_or([ch_eq(c, x) for x in chars]))

    @staticmethod
    def _stripset(chars):
        if chars is None:
            return None
        if type(chars) is SymStr:
            return chars.c
        return C.chars(chars)

    def lstrip(self, chars=None):
        cs = self._stripset(chars)
        s = self.c
        a = 0
        while a < len(s) and self._inset(s[a], cs):
            a += 1
        return mkstr(s[a:])

    def rstrip(self, chars=None):
        cs = self._stripset(chars)
        s = self.c
        e = len(s)
        while e > 0 and self._inset(s[e - 1], cs):
            e -= 1
        return mkstr(s[:e])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        if type(r) is SymStr:
            return r.rstrip(chars)
        if type(chars) is SymStr:
            return SymStr(lift(r)).rstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: -len(p)] if len(p) and self.endswith(p) else self

    def _casemap(self, fn):
        out = []
        for c in self.c:
            if type(c) is _int:
                out.extend(map(ord, fn(chr(c))))
                continue
            out.extend(casemap(c, fn))
        return mkstr(out)

    def lower(self):
        return self._casemap(_str.lower)

    def upper(self):
        return self._casemap(_str.upper)

    def casefold(self):
        return self._casemap(_str.casefold)

    def swapcase(self):
        return self._casemap(_str.swapcase)

    def title(self):
        out = []
        prev = False
        cased = C.strpred("isupper") | C.strpred("islower") | C.strpred("istitle")
        for c in self.c:
            f = _str.lower if prev else _str.title
            out.extend(chs(SymStr((c,))._casemap(f)) if type(c) is not _int else lift(f(chr(c))))
            prev = charmatch(c, cased)
        return mkstr(out)

    def capitalize(self):
        return self[:1].title() + self[1:].lower() if len(self) > 1 else self.title()

    def _all(self, pred):
        cs = C.strpred(pred)
        return mkbool(t_and([ch_in(c, cs) for c in self.c]))

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isspace(self):
        return self._all("isspace")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return self._all("isascii")

    def isidentifier(self):
        st = C.strpred("isidentifier")
        ct = _xid_continue()
        return mkbool(t_and([ch_in(c, ct if i else st) for i, c in enumerate(self.c)]))

    def isupper(self):
        up, lo, ti = C.strpred("isupper"), C.strpred("islower"), C.strpred("istitle")
        return mkbool(
            t_and([t_or([ch_in(c, up) for c in self.c])] + [t_not(ch_in(c, lo | (ti - up))) for c in self.c])
        )

    def islower(self):
        up, lo, ti = C.strpred("isupper"), C.strpred("islower"), C.strpred("istitle")
        return mkbool(
            t_and([t_or([ch_in(c, lo) for c in self.c])] + [t_not(ch_in(c, up | (ti - lo))) for c in self.c])
        )

    def istitle(self):
        return concretise_str(self).istitle()

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.c)
            first = False
            out.extend(_need(x))
        return mkstr(out)

    def _pad(self, w, fill, mode):
        n = w - len(self.c)
        if n <= 0:
            return self
        f = _need(fill)
        if mode == "l":
            return mkstr(self.c + f * n)
        if mode == "r":
            return mkstr(f * n + self.c)
        left = n // 2 + (n & w & 1)
        return mkstr(f * left + self.c + f * (n - left))

    def ljust(self, w, fill=" "):
        return self._pad(w, fill, "l")

    def rjust(self, w, fill=" "):
        return self._pad(w, fill, "r")

    def center(self, w, fill=" "):
        return self._pad(w, fill, "c")

    def zfill(self, w):
        n = w - len(self.c)
        if n <= 0:
            return self
        if charmatch(self.c[0], C.chars("+-")):
            return mkstr(self.c[:1] + (48,) * n + self.c[1:])
        return mkstr((48,) * n + self.c)

    def expandtabs(self, n=8):
        return concretise_str(self).expandtabs(n)

    def translate(self, table):
        out = []
        keys = None
        for c in self.c:
            if type(c) is _int:
                try:
                    r = table[c]
                except LookupError:
                    out.append(c)
                    continue
            else:
                if keys is None:
                    if not isinstance(table, dict):
                        return concretise_str(self).translate(table)
                    keys = list(table)
                for k in keys:
                    if ENGINE.decide(ch_in(c, C.one(k))):
                        r = table[k]
                        break
                else:
                    out.append(c)
                    continue
            if r is None:
                continue
            if isinstance(r, _int) and type(r) is not SymStr:
                out.append(r)
            else:
                out.extend(chs(r))
        return mkstr(out)

    def encode(self, encoding="utf-8", errors="strict"):
        from .rt import SymBytes

        return SymBytes(self, encoding, errors)

    def format(self, *a, **k):
        from .rt import str_format

        return str_format(self, a, k)

    def format_map(self, m):
        from .rt import str_format

        return str_format(self, (), m)


def _xid_continue():
    global _XC
    try:
        return _XC
    except NameError:
        _XC = C.from_pred(lambda ch: ("a" + ch).isidentifier())
        return _XC


_casecls = {}


def casemap(c, fn):
    """Case mapping of one symbolic char: fork on identity / constant offset classes; other mappings one by one."""
    k = fn.__name__
    if k not in _casecls:
        same, offs, rest = [], {}, []
        for i in range(C.MAX + 1):
            r = fn(chr(i))
            if len(r) == 1:
                d = ord(r) - i
                if d == 0:
                    continue
                offs.setdefault(d, []).append((i, i))
            else:
                rest.append(i)
        _casecls[k] = (sorted(((C.mk(v), d) for d, v in offs.items()), key=lambda x: -x[0].size()), rest)
    offs, rest = _casecls[k]
    rest_cs = C.mk([(i, i) for i in rest])
    if rest and charmatch(c, rest_cs):
        for i in rest:
            if charmatch(c, C.one(i)):
                return lift(fn(chr(i)))
    r = map_char(c, offs)
    if r is not None:
        return [r]
    for cs, d in offs:
        if charmatch(c, cs):
            return [ZCh(c.z + d, c.vs, lambda m: c.ev(m) + d)]
    return [c]


def contains(s, sub):
    s = chs(s)
    sub = _need(sub)
    n = len(sub)
    if n == 0:
        return True
    return mkbool(t_or([eq_chs(s[k : k + n], sub) for k in range(len(s) - n + 1)]))


def toint(c):
    """ord of a char expr"""
    if type(c) is _int:
        return c
    lin = (c, 0) if isinstance(c, Var) else (c.v, c.k) if isinstance(c, Off) else None
    return SymInt(ch_z(c), ch_vars(c), lambda m: ch_ev(c, m), lin)


def fromint(n):
    """chr of a SymInt"""
    if type(n) is not SymInt:
        return chr(n)
    if not _bool((n >= 0) & (n <= 0x10FFFF)):
        raise ValueError("chr() arg not in range(0x110000)")
    if n.lin is not None:
        v, k = n.lin
        return mkstr((v if k == 0 else Off(v, k),))
    return mkstr((ZCh(n.z, n.vs, n.ev),))


def concretise_str(s):
    """Case-split to a concrete value.  Exhaustive only while the number of values stays small."""
    ENGINE.stats.concretised += 1
    out = []
    for c in s.c:
        out.append(c if type(c) is _int else concretise_int(toint(c)))
    return "".join(map(chr, out))


def mkstr_concrete_repr(s):
    return "'" + "".join(chr(c) if type(c) is _int else "\u25a1" for c in s.c) + "'"


def ev_str(s, m):
    if type(s) is SymStr:
        return "".join(chr(ch_ev(c, m)) for c in s.c)
    return s
