"""Shared helpers of the harnesses (run both symbolically and concretely)."""
from __future__ import annotations

from moz.l10n.model import Comment, Entry, Expression, Markup, PatternMessage, Resource, Section, VariableRef


def entries_of(res):
    return [e for s in res.sections for e in s.entries if isinstance(e, Entry)]


def text_of(msg):
    """Literal text of a PatternMessage made of strings only, joined."""
    out = ""
    for p in msg.pattern:
        out = out + p
    return out


def joined(pattern):
    """pattern with adjacent strings joined and empty ones dropped"""
    out = []
    for p in pattern:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return out


def assume_comment(x, c, extra=""):
    """The documented shape of a comment: lines separated by newlines, no trailing whitespace, not blank."""
    n = len(c)
    for i in range(n):
        sp = x.inset(c[i], "re:\\s")
        if i == n - 1:
            x.assume(x.implies(sp, False))
        else:
            nl = x.inset(c[i], "\n")
            x.assume(x.any([x.implies(sp, False), nl, x.implies(x.inset(c[i + 1], "\n"), False)]))
    if n:
        x.assume(x.none(c[0], "\n"))
        if extra:
            x.assume(x.none(c, extra))


def pm(s):
    return PatternMessage([s] if s else [])


# --- message builders with symbolic contents -----------------------------------------------------


def mk_value(x, tag, kind, n, alpha="scalar"):
    """kind: 0 none, 1 literal, 2 variable"""
    if kind == 0:
        return None
    s = x.str(tag, n, alpha)
    return s if kind == 1 else VariableRef(s)


def mk_attrs(x, tag, kind, n, alpha="scalar"):
    """kind: 0 none, 1 flag, 2 literal, 3 both"""
    out = {}
    if kind in (1, 3):
        out["f" + x.str(tag + "f", 1, "ab")] = True
    if kind in (2, 3):
        out["v"] = x.str(tag, n, alpha)
    return out


def mk_expr(x, tag, n=1, alpha="scalar", valid=True, opts=3):
    """An expression of any shape"""
    a = x.choice(tag + ".arg", 3)
    f = x.flag(tag + ".fn")
    if valid and a == 0 and not f:
        x.reject()
    o = x.choice(tag + ".opt", opts) if f else 0
    at = x.choice(tag + ".att", 4)
    options = {}
    if o:
        options["o"] = mk_value(x, tag + ".o", o, n, alpha)
        options["p"] = "1"
    return Expression(
        mk_value(x, tag + ".a", a, n, alpha), x.str(tag + ".f", 1, "fg") if f else None, options, mk_attrs(x, tag + ".t", at, n, alpha)
    )


def mk_markup(x, tag, n=1, alpha="scalar"):
    o = x.choice(tag + ".opt", 3)
    return Markup(
        x.choice(tag + ".kind", ["open", "standalone", "close"]),
        x.str(tag + ".name", 1, "ab"),
        {"o": mk_value(x, tag + ".o", o, n, alpha)} if o else {},
        mk_attrs(x, tag + ".t", x.choice(tag + ".att", 4), n, alpha),
    )
