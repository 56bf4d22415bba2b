from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats.mf2.to_json import mf2_to_json
from moz.l10n.formats.mf2.validate import MF2ValidationError
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

from checks.common import mk_expr, mk_markup

BOUNDS = {
    "quick": "patterns of up to 3 parts, each an expression or markup of any combination of argument, function, options and attributes, "
    "or text, with every string in it symbolic (0-2 characters, any scalar value); select messages with up to 2 selectors and 3 variants; "
    "a data model tree with any one node replaced by any of 12 other JSON values",
    "thorough": "as quick with strings of up to 4 characters and two nodes replaced",
}
ASSUMPTIONS = ["messages are valid as the model documents it (an expression has an argument or a function)"]


def json_types(x, j):
    if isinstance(j, (list, tuple)):
        x.check(isinstance(j, list), "JSON arrays are lists")
        for v in j:
            json_types(x, v)
    elif isinstance(j, dict):
        for k, v in j.items():
            x.check(isinstance(k, str), "object keys are strings")
            json_types(x, v)
    else:
        x.check(j is True or isinstance(j, str), "JSON types only")


def roundtrip(x, msg):
    j = mf2_to_json(msg)
    x.obs("json", j)
    json_types(x, j)
    got = mf2_from_json(j)
    x.check(type(got) is type(msg), "kind of message")
    x.check_eq(got, msg, "the message comes back")
    x.check_eq(list(got.declarations), list(msg.declarations), "order of declarations")
    if isinstance(msg, SelectMessage):
        x.check_eq(
            [[k.value if isinstance(k, CatchallKey) else k for k in ks] for ks in got.variants],
            [[k.value if isinstance(k, CatchallKey) else k for k in ks] for ks in msg.variants],
            "order of variants and catchall labels",
        )
        x.check_eq([[isinstance(k, CatchallKey) for k in ks] for ks in got.variants], [[isinstance(k, CatchallKey) for k in ks] for ks in msg.variants], "key kinds")
    x.check_eq(mf2_to_json(got), j, "same data model again")


def expr(x, n):
    roundtrip(x, PatternMessage([mk_expr(x, "e", n)]))


def markup(x, n):
    roundtrip(x, PatternMessage(["a", mk_markup(x, "m", n), x.str("t", n)]))


def two(x, n):
    roundtrip(x, PatternMessage([x.str("t", n), mk_expr(x, "e", n, opts=2), Markup("open", x.str("m", n))]))


def decls(x, n):
    d = {}
    a, b = x.str("a", n), x.str("b", n)
    d[a] = mk_expr(x, "e", n)
    d[b] = Expression(VariableRef(x.str("c", n)), x.str("f", n))
    roundtrip(x, PatternMessage([], d))


def select(x, n):
    a, b = x.str("a", n), x.str("b", n)
    k1 = x.str("k1", n)
    k2 = x.str("k2", n)
    label = x.str("label", n) if x.flag("labelled") else None
    c = CatchallKey(label)
    vs = {(k1, c): [x.str("t", n)], (c, k2): [Expression("x")], (k2, k1): []}
    vs[(CatchallKey(), c)] = ["other"]
    roundtrip(x, SelectMessage({a: Expression(VariableRef(a), "f"), b: Expression("1", "g")}, (VariableRef(a), VariableRef(b)), vs))


JUNK = [None, True, False, 0, 1, "", "literal", "variable", [], [1], {}, {"type": "literal", "value": "v"}]


def tree(which):
    if which == 0:
        return {
            "type": "message",
            "declarations": [
                {"type": "input", "name": "x", "value": {"type": "expression", "arg": {"type": "variable", "name": "x"}}},
                {"type": "local", "name": "y", "value": {"type": "expression", "arg": {"type": "literal", "value": "x"}}},
            ],
            "pattern": ["t", {"type": "expression", "function": {"type": "function", "name": "f", "options": {"o": {"type": "literal", "value": "v"}}}}],
        }
    if which == 1:
        return {
            "type": "message",
            "declarations": [],
            "pattern": [
                {"type": "markup", "kind": "open", "name": "b", "options": {"o": {"type": "variable", "name": "v"}}, "attributes": {"a": True, "b": {"type": "literal", "value": "w"}}},
                {"type": "expression", "arg": {"type": "literal", "value": "x"}, "attributes": {"a": True}},
            ],
        }
    return {
        "type": "select",
        "declarations": [{"type": "input", "name": "x", "value": {"type": "expression", "arg": {"type": "variable", "name": "x"}, "function": {"type": "function", "name": "f"}}}],
        "selectors": [{"type": "variable", "name": "x"}],
        "variants": [{"keys": [{"type": "literal", "value": "k"}], "value": ["a"]}, {"keys": [{"type": "*", "value": "o"}], "value": []}],
    }


def nodes(j, path=()):
    out = []
    if isinstance(j, list):
        for i, v in enumerate(j):
            out.append(path + (i,))
            out += nodes(v, path + (i,))
    elif isinstance(j, dict):
        for k, v in j.items():
            out.append(path + (k,))
            out += nodes(v, path + (k,))
    return out


def damage(x, j, tag):
    ns = nodes(j)
    at = ns[x.choice(tag + ".at", len(ns))]
    how = x.choice(tag + ".how", len(JUNK) + 2)
    parent = j
    for k in at[:-1]:
        parent = parent[k]
    if how == len(JUNK):
        del parent[at[-1]]
    elif how == len(JUNK) + 1:
        parent[at[-1]] = x.str(tag + ".s", 2)
    else:
        v = JUNK[how]
        parent[at[-1]] = list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
    return at


def damaged(x, which, k):
    """Invalid data: the documented error, or else a message."""
    j = tree(which)
    for i in range(k):
        damage(x, j, "d" + str(i))
    try:
        msg = mf2_from_json(j)
    except MF2ValidationError:
        return
    x.check(isinstance(msg, (PatternMessage, SelectMessage)), "a message")


def cases(tier):
    t = tier == "thorough"
    out = []
    for fn in ("expr", "markup", "two", "decls", "select"):
        for n in range(0, 5 if t else 3):
            out.append(dict(name=f"{fn}-{n}", fn=fn, params=dict(n=n)))
    for which in (0, 1, 2):
        out.append(dict(name=f"damaged-{which}", fn="damaged", params=dict(which=which, k=1)))
        if t:
            out.append(dict(name=f"damaged2-{which}", fn="damaged", params=dict(which=which, k=2)))
    return out
