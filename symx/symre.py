"""
A `re` replacement: real re on concrete strings, a forking backtracking matcher with the
same priorities (greedy/lazy, alternation order) on symbolic ones.
"""
from __future__ import annotations

import re as _re
import sys
import types
from re import _constants as K
from re import _parser as P

from . import charset as C
from .core import ENGINE, ch_eq, ch_in, t_and, t_not, t_or
from .strs import SymStr, chs, concretise_str, is_s, lift, mkbool, mkstr

_nodecs = {}


def _cat_cs(cat, flags):
    a = flags & _re.ASCII
    m = {
        K.CATEGORY_DIGIT: r"\d",
        K.CATEGORY_NOT_DIGIT: r"\D",
        K.CATEGORY_SPACE: r"\s",
        K.CATEGORY_NOT_SPACE: r"\S",
        K.CATEGORY_WORD: r"\w",
        K.CATEGORY_NOT_WORD: r"\W",
    }
    return C.from_regex(m[cat], a)


def _lit_cs(c, flags):
    if flags & _re.IGNORECASE:
        return C.from_regex(_re.escape(chr(c)), flags & (_re.IGNORECASE | _re.ASCII))
    return C.one(c)


def _in_cs(items, flags):
    neg = False
    cs = C.EMPTY
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            cs = cs | _lit_cs(av, flags)
        elif op is K.RANGE:
            if flags & _re.IGNORECASE:
                cs = cs | C.from_regex("[" + _re.escape(chr(av[0])) + "-" + _re.escape(chr(av[1])) + "]", flags & (_re.IGNORECASE | _re.ASCII))
            else:
                cs = cs | C.mk([(av[0], av[1])])
        elif op is K.CATEGORY:
            cs = cs | _cat_cs(av, flags)
        else:
            raise NotImplementedError(op)
    return ~cs if neg else cs


NOTNL = ~C.one(10)


def single_cs(op, av, flags):
    """CharSet of a single-character node, or None"""
    if op is K.LITERAL:
        return _lit_cs(av, flags)
    if op is K.NOT_LITERAL:
        return ~_lit_cs(av, flags)
    if op is K.ANY:
        return C.ALL if flags & _re.DOTALL else NOTNL
    if op is K.IN:
        return _in_cs(av, flags)
    return None


def compile_nodes(tree, flags, var=None):
    """sre tree -> list of simple tuples"""
    out = []
    for op, av in tree:
        if var and op is K.LITERAL and av in var:
            out.append(("v", var[av]))
            continue
        cs = single_cs(op, av, flags)
        if cs is not None:
            out.append(("c", cs))
        elif op is K.AT:
            out.append(("at", av, flags))
        elif op is K.BRANCH:
            out.append(("alt", [compile_nodes(b, flags, var) for b in av[1]]))
        elif op is K.SUBPATTERN:
            g, add, rem, p = av
            out.append(("g", g, compile_nodes(p, (flags | add) & ~rem, var)))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, p = av
            body = compile_nodes(p, flags, var)
            kind = {K.MAX_REPEAT: "max", K.MIN_REPEAT: "min", K.POSSESSIVE_REPEAT: "poss"}[op]
            hi = 1 << 30 if hi is K.MAXREPEAT else int(hi)
            if len(body) == 1 and body[0][0] == "c":
                out.append(("r1", kind, int(lo), hi, body[0][1]))
            else:
                out.append(("r", kind, int(lo), hi, body))
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            w = p.getwidth()[0] if d < 0 else None
            out.append(("look", op is K.ASSERT, w, compile_nodes(p, flags, var)))
        elif op is K.GROUPREF:
            out.append(("ref", av))
        elif op is K.GROUPREF_EXISTS:
            g, y, n = av
            out.append(("cond", g, compile_nodes(y, flags, var), compile_nodes(n, flags, var) if n is not None else []))
        elif op is K.ATOMIC_GROUP:
            out.append(("atomic", compile_nodes(av, flags, var)))
        elif op is K.FAILURE:
            out.append(("c", C.EMPTY))
        else:
            raise NotImplementedError(str(op))
    return out


def is_in(c, cs):
    return ENGINE.decide(ch_in(c, cs))


class Matcher:
    """Continuation-passing backtracking matcher; k(pos, groups) -> result or None"""

    def __init__(self, s, end):
        self.s = s
        self.end = end

    def seq(self, nodes, i, pos, g, k):
        if i == len(nodes):
            return k(pos, g)
        n = nodes[i]
        op = n[0]
        if op == "c":
            if pos < self.end and is_in(self.s[pos], n[1]):
                return self.seq(nodes, i + 1, pos + 1, g, k)
            return None
        if op == "v":
            if pos < self.end and ENGINE.decide(ch_eq(self.s[pos], n[1])):
                return self.seq(nodes, i + 1, pos + 1, g, k)
            return None
        if op == "r1":
            _, kind, lo, hi, cs = n
            s = self.s
            p = pos
            cnt = 0
            if kind == "min":
                while cnt < lo:
                    if p < self.end and is_in(s[p], cs):
                        p += 1
                        cnt += 1
                    else:
                        return None
                while True:
                    r = self.seq(nodes, i + 1, p, g, k)
                    if r is not None:
                        return r
                    if cnt < hi and p < self.end and is_in(s[p], cs):
                        p += 1
                        cnt += 1
                    else:
                        return None
            while cnt < hi and p < self.end and is_in(s[p], cs):
                p += 1
                cnt += 1
            if kind == "poss":
                return self.seq(nodes, i + 1, p, g, k) if cnt >= lo else None
            while cnt >= lo:
                r = self.seq(nodes, i + 1, p, g, k)
                if r is not None:
                    return r
                p -= 1
                cnt -= 1
            return None
        if op == "at":
            if self.at(n[1], n[2], pos):
                return self.seq(nodes, i + 1, pos, g, k)
            return None
        if op == "alt":
            for b in n[1]:
                r = self.seq(b, 0, pos, g, lambda p, g2: self.seq(nodes, i + 1, p, g2, k))
                if r is not None:
                    return r
            return None
        if op == "g":
            gi = n[1]

            def done(p, g2):
                if gi is not None:
                    g2 = dict(g2)
                    g2[gi] = (pos, p)
                    g2["last"] = gi
                return self.seq(nodes, i + 1, p, g2, k)

            return self.seq(n[2], 0, pos, g, done)
        if op == "r":
            _, kind, lo, hi, body = n
            if kind == "poss":
                p, g2, cnt = pos, g, 0
                while cnt < hi:
                    r = self.seq(body, 0, p, g2, lambda q, h: (q, h))
                    if r is None or (r[0] == p and cnt >= lo):
                        break
                    p, g2 = r
                    cnt += 1
                return self.seq(nodes, i + 1, p, g2, k) if cnt >= lo else None

            def rep(cnt, p, g2):
                def more(q, h):
                    if q == p and cnt >= lo:
                        return None
                    return rep(cnt + 1, q, h)

                if cnt < lo:
                    return self.seq(body, 0, p, g2, more)
                if kind == "max":
                    if cnt < hi:
                        r = self.seq(body, 0, p, g2, more)
                        if r is not None:
                            return r
                    return self.seq(nodes, i + 1, p, g2, k)
                r = self.seq(nodes, i + 1, p, g2, k)
                if r is not None:
                    return r
                if cnt < hi:
                    return self.seq(body, 0, p, g2, more)
                return None

            return rep(0, pos, g)
        if op == "look":
            _, want, w, body = n
            if w is None:
                r = self.seq(body, 0, pos, g, lambda p, h: (p, h))
            elif pos - w < 0:
                r = None
            else:
                r = self.seq(body, 0, pos - w, g, lambda p, h: (p, h) if p == pos else None)
            if want:
                if r is None:
                    return None
                return self.seq(nodes, i + 1, pos, r[1], k)
            if r is not None:
                return None
            return self.seq(nodes, i + 1, pos, g, k)
        if op == "ref":
            sp = g.get(n[1])
            if sp is None:
                return None
            a, b = sp
            if pos + b - a > self.end:
                return None
            t = t_and([ch_eq(self.s[a + j], self.s[pos + j]) for j in range(b - a)])
            if ENGINE.decide(t):
                return self.seq(nodes, i + 1, pos + b - a, g, k)
            return None
        if op == "cond":
            b = n[2] if n[1] in g else n[3]
            return self.seq(b, 0, pos, g, lambda p, h: self.seq(nodes, i + 1, p, h, k))
        if op == "atomic":
            r = self.seq(n[1], 0, pos, g, lambda p, h: (p, h))
            if r is None:
                return None
            return self.seq(nodes, i + 1, r[0], r[1], k)
        raise NotImplementedError(op)

    def at(self, what, flags, pos):
        s = self.s
        end = self.end
        if what is K.AT_BEGINNING:
            if flags & _re.MULTILINE:
                return pos == 0 or is_in(s[pos - 1], C.one(10))
            return pos == 0
        if what is K.AT_BEGINNING_STRING:
            return pos == 0
        if what is K.AT_END:
            if pos == end:
                return True
            if flags & _re.MULTILINE:
                return is_in(s[pos], C.one(10))
            return pos == end - 1 and is_in(s[pos], C.one(10))
        if what is K.AT_END_STRING:
            return pos == end
        w = C.from_regex(r"\w", flags & _re.ASCII)
        a = pos > 0 and is_in(s[pos - 1], w)
        b = pos < end and is_in(s[pos], w)
        if what is K.AT_BOUNDARY:
            return a != b
        if what is K.AT_NON_BOUNDARY:
            return a == b
        raise NotImplementedError(str(what))


class SymMatch:
    def __init__(self, pat, string, s, g, start, end, pos, endpos):
        self.re = pat
        self.string = string
        self._s = s
        self._g = dict(g)
        self.lastindex = self._g.pop("last", None)
        self._g[0] = (start, end)
        self.pos = pos
        self.endpos = endpos

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _i(self, g):
        if isinstance(g, str) and not isinstance(g, int):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._g.get(self._i(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mkstr(self._s[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .rt import SymDict

        return SymDict((k, self._get(v, default)) for k, v in self.re.groupindex.items())

    def expand(self, tmpl):
        return _expand(self, tmpl)

    def __bool__(self):
        return True

    def __repr__(self):
        return "<symmatch>"


_tmpl = _re.compile(r"\\(?:g<([^>]+)>|(\d{1,2})|(.))", _re.DOTALL)


def _expand(m, tmpl):
    if type(tmpl) is SymStr:
        tmpl = concretise_str(tmpl)
    out = []
    p = 0
    for x in _tmpl.finditer(tmpl):
        out.extend(map(ord, tmpl[p : x.start()]))
        p = x.end()
        if x[1] is not None or x[2] is not None:
            g = x[1] or x[2]
            g = int(g) if g.isdigit() else g
            out.extend(chs(m._get(g, "")))
        else:
            esc = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "a": "\a", "f": "\f", "v": "\v", "b": "\b"}
            if x[3] not in esc:
                raise NotImplementedError("template escape")
            out.append(ord(esc[x[3]]))
    out.extend(map(ord, tmpl[p:]))
    return mkstr(out)


class Pattern:
    def __init__(self, pattern, flags=0, var=None):
        self._re = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = self._re.groupindex
        self._nodes = None
        # symbolic literals, by their stand-ins
        self._var = var

    __class__ = property(lambda self: _re.Pattern)

    def nodes(self):
        if self._nodes is None:
            t = P.parse(self.pattern, self.flags & ~_re.UNICODE if isinstance(self.pattern, str) else self.flags)
            self._nodes = compile_nodes(t, self.flags, self._var)
        return self._nodes

    def __repr__(self):
        return repr(self._re)

    def __eq__(self, o):
        return isinstance(o, Pattern) and self._re == o._re

    def __hash__(self):
        return hash(self._re)

    def _bounds(self, string, pos, endpos):
        n = len(string)
        endpos = n if endpos is None else max(0, min(endpos, n))
        return max(0, min(pos, n)), endpos

    def _sym_at(self, string, s, pos, endpos, p0, full=False):
        m = Matcher(s, endpos)
        if full:
            k = lambda p, g: (p, g) if p == endpos else None
        else:
            k = lambda p, g: (p, g)
        r = m.seq(self.nodes(), 0, pos, {}, k)
        if r is None:
            return None
        return SymMatch(self, string, s, r[1], pos, r[0], p0, endpos)

    def match(self, string, pos=0, endpos=None):
        if self._var and type(string) is not SymStr:
            string = SymStr(lift(string))
        if type(string) is not SymStr:
            return self._re.match(string, *(() if endpos is None and pos == 0 else (pos, len(string) if endpos is None else endpos)))
        pos, endpos = self._bounds(string, pos, endpos)
        return self._sym_at(string, string.c, pos, endpos, pos)

    def fullmatch(self, string, pos=0, endpos=None):
        if self._var and type(string) is not SymStr:
            string = SymStr(lift(string))
        if type(string) is not SymStr:
            return self._re.fullmatch(string, pos, len(string) if endpos is None else endpos)
        pos, endpos = self._bounds(string, pos, endpos)
        return self._sym_at(string, string.c, pos, endpos, pos, True)

    def search(self, string, pos=0, endpos=None):
        if self._var and type(string) is not SymStr:
            string = SymStr(lift(string))
        if type(string) is not SymStr:
            return self._re.search(string, pos, len(string) if endpos is None else endpos)
        pos, endpos = self._bounds(string, pos, endpos)
        for p in range(pos, endpos + 1):
            r = self._sym_at(string, string.c, p, endpos, pos)
            if r is not None:
                return r
        return None

    def finditer(self, string, pos=0, endpos=None):
        if self._var and type(string) is not SymStr:
            string = SymStr(lift(string))
        if type(string) is not SymStr:
            yield from self._re.finditer(string, pos, len(string) if endpos is None else endpos)
            return
        pos, endpos = self._bounds(string, pos, endpos)
        p = pos
        must_advance = False
        while p <= endpos:
            found = None
            for q in range(p, endpos + 1):
                if must_advance and q == p:
                    m = Matcher(string.c, endpos)
                    q0 = q
                    r = m.seq(self.nodes(), 0, q, {}, lambda e, g: (e, g) if e != q0 else None)
                    if r is not None:
                        found = SymMatch(self, string, string.c, r[1], q, r[0], pos, endpos)
                        break
                    continue
                r = self._sym_at(string, string.c, q, endpos, pos)
                if r is not None:
                    found = r
                    break
            if found is None:
                return
            yield found
            must_advance = found.end() == found.start()
            p = found.end()

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m[0])
            elif self.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def _any_sym(self, repl, string):
        return type(string) is SymStr or type(repl) is SymStr or callable(repl)

    def subn(self, repl, string, count=0):
        if not self._var and not self._any_sym(repl, string):
            return self._re.subn(repl, string, count)
        if type(string) is not SymStr and callable(repl):
            pass
        s = chs(string)
        out = []
        p = 0
        n = 0
        it = self.finditer(string)
        for m in it:
            out.extend(s[p : m.start()])
            if callable(repl):
                out.extend(chs(repl(m)))
            elif type(m) is SymMatch:
                out.extend(chs(_expand(m, repl)))
            elif type(repl) is SymStr:
                out.extend(chs(m.expand(concretise_str(repl))))
            else:
                out.extend(chs(m.expand(repl)))
            p = m.end()
            n += 1
            if count and n >= count:
                break
        out.extend(s[p:])
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if self._var and type(string) is not SymStr:
            string = SymStr(lift(string))
        if type(string) is not SymStr:
            return self._re.split(string, maxsplit)
        out = []
        p = 0
        n = 0
        for m in self.finditer(string):
            out.append(mkstr(string.c[p : m.start()]))
            out.extend(m.groups())
            p = m.end()
            n += 1
            if maxsplit and n >= maxsplit:
                break
        out.append(mkstr(string.c[p:]))
        return out


class BytesPattern:
    """Patterns over bytes; symbolic bytes have to be ASCII."""

    def __init__(self, pattern, flags):
        self._re = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._re.flags
        self.groups = self._re.groups
        self._str = Pattern(pattern.decode("latin-1"), flags | _re.ASCII)

    def subn(self, repl, data, count=0):
        from .rt import SymBytes

        if type(data) is not SymBytes:
            return self._re.subn(repl, data, count)
        if not isinstance(repl, bytes):
            raise TypeError("only bytes replacements are modelled")
        s, n = self._str.subn(repl.decode("latin-1"), data.ascii(), count)
        return SymBytes(s, data.enc, data.errors), n

    def sub(self, repl, data, count=0):
        return self.subn(repl, data, count)[0]

    def _bm(self, name, data):
        from .rt import SymBytes

        if type(data) is not SymBytes:
            return getattr(self._re, name)(data)
        m = getattr(self._str, name)(data.ascii())
        return None if m is None else BytesMatch(m)

    def search(self, data):
        return self._bm("search", data)

    def match(self, data):
        return self._bm("match", data)

    def fullmatch(self, data):
        return self._bm("fullmatch", data)

    def __getattr__(self, name):
        return getattr(self._re, name)


class BytesMatch:
    def __init__(self, m):
        self._m = m

    def group(self, i=0):
        from .rt import SymBytes

        r = self._m[i]
        return None if r is None else SymBytes(r)

    __getitem__ = group


def _pattern_text(s):
    """
    A symbolic pattern, with stand-ins for the characters that are symbolic literals.
    Characters that are or may be part of the syntax are case-split.
    """
    meta = C.chars(".^$*+?{}[]\\|()")
    out = []
    var = {}
    in_class = False
    brace = 0
    prev = ""
    for c in s.c:
        if type(c) is not int:
            if in_class or prev in ("\\", "?", "{") or brace or is_in(c, meta):
                from .strs import concretise_int, toint

                c = concretise_int(toint(c))
            else:
                ph = 0xF0000 + len(var)
                var[ph] = c
                out.append(chr(ph))
                prev = "x"
                continue
        ch = chr(c)
        out.append(ch)
        if prev == "\\":
            prev = "x"
            continue
        if in_class:
            if ch == "]" and prev not in ("[", "[^"):
                in_class = False
            prev = "[^" if prev == "[" and ch == "^" else "\\" if ch == "\\" else "x"
            continue
        if ch == "[":
            in_class = True
        elif ch == "{":
            brace = 1
        elif ch == "}":
            brace = 0
        prev = ch
    return "".join(out), var


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if type(pattern) is SymStr:
        if int(flags) & (_re.VERBOSE | _re.IGNORECASE):
            pattern = concretise_str(pattern)
        else:
            text, var = _pattern_text(pattern)
            if var:
                return Pattern(text, flags, var)
            pattern = text
    k = (pattern, int(flags))
    r = _cache.get(k)
    if r is None:
        if isinstance(pattern, bytes):
            r = _cache[k] = BytesPattern(pattern, flags)
            return r
        r = _cache[k] = Pattern(pattern, flags)
    return r


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


_special = C.chars("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")


def escape(p):
    if type(p) is not SymStr:
        return _re.escape(p)
    out = []
    for c in p.c:
        if is_in(c, _special):
            out.append(92)
        out.append(c)
    return mkstr(out)


Match = _re.Match
error = _re.error
RegexFlag = _re.RegexFlag
A = ASCII = _re.ASCII
I = IGNORECASE = _re.IGNORECASE
M = MULTILINE = _re.MULTILINE
S = DOTALL = _re.DOTALL
U = UNICODE = _re.UNICODE
X = VERBOSE = _re.VERBOSE
L = LOCALE = _re.LOCALE


def purge():
    pass
