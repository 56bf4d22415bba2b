from moz.l10n.message.from_json import entry_from_json, message_from_json
from moz.l10n.message.to_json import entry_to_json, message_to_json
from moz.l10n.model import CatchallKey, Entry, Expression, Markup, Metadata, PatternMessage, SelectMessage, VariableRef

from checks.common import mk_expr, mk_markup

BOUNDS = {
    "quick": "patterns of up to 3 parts, each an expression or markup of any combination of argument, function, options and attributes (also attributes alone), "
    "or text, with every string in it symbolic (0-2 characters, any scalar value); select messages with 2 selectors and 4 variants; "
    "entry ids of up to 3 parts of up to 3 characters, two metadata, a property and a comment",
    "thorough": "as quick with strings of up to 4 characters and 4 id parts",
}
ASSUMPTIONS = ["options appear only together with a function, as the model documents", "catch-all key labels are compared except that an empty label is no label"]


def json_types(x, j):
    if isinstance(j, (list, tuple)):
        x.check(isinstance(j, list), "JSON arrays are lists")
        for v in j:
            json_types(x, v)
    elif isinstance(j, dict):
        for k, v in j.items():
            x.check(isinstance(k, str), "object keys are strings")
            json_types(x, v)
    else:
        x.check(j is True or isinstance(j, str), "JSON types only")


def same(x, got, msg, what):
    x.check(type(got) is type(msg), what + ": kind")
    x.check_eq(got, msg, what)
    x.check_eq(list(got.declarations), list(msg.declarations), what + ": order of declarations")
    if isinstance(msg, SelectMessage):
        x.check_eq(
            [[k.value if isinstance(k, CatchallKey) else k for k in ks] for ks in got.variants],
            [[(k.value or None) if isinstance(k, CatchallKey) else k for k in ks] for ks in msg.variants],
            what + ": order of variants and catchall labels",
        )
        x.check_eq([[isinstance(k, CatchallKey) for k in ks] for ks in got.variants], [[isinstance(k, CatchallKey) for k in ks] for ks in msg.variants], what + ": key kinds")


def roundtrip(x, msg):
    j = message_to_json(msg)
    x.obs("json", j)
    json_types(x, j)
    same(x, message_from_json(j), msg, "the message comes back")


def expr(x, n):
    roundtrip(x, PatternMessage([mk_expr(x, "e", n, valid=False)]))


def markup(x, n):
    roundtrip(x, PatternMessage(["a", mk_markup(x, "m", n), x.str("t", n)]))


def two(x, n):
    roundtrip(x, PatternMessage([x.str("t", n), mk_expr(x, "e", n, opts=2), Markup("open", x.str("m", n))]))


def decls(x, n):
    a, b = x.str("a", n), x.str("b", n)
    d = {a: mk_expr(x, "e", n)}
    d[b] = Expression(VariableRef(x.str("c", n)), "f" + x.str("f", n))
    roundtrip(x, PatternMessage([x.str("t", n)] if x.flag("text") else [], d))


def select(x, n):
    a, b = x.str("a", n), x.str("b", n)
    k1 = x.str("k1", n)
    k2 = x.str("k2", n)
    label = x.str("label", n) if x.flag("labelled") else None
    c = CatchallKey(label)
    vs = {(k1, c): [x.str("t", n)], (c, k2): [Expression("x")], (k2, k1): []}
    vs[(CatchallKey(), c)] = ["other"]
    decl = {a: Expression(VariableRef(a), "f"), b: Expression("1", "g")} if x.flag("declared") else {}
    roundtrip(x, SelectMessage(decl, (VariableRef(a), VariableRef(b)), vs))


def entry_back(x, e):
    id, j = entry_to_json(e)
    x.obs("id", id)
    x.obs("json", j)
    x.check(isinstance(id, str), "the id is a string")
    json_types(x, j)
    got = entry_from_json(id, j)
    x.obs("got", got)
    x.check_eq(got, e, "the entry comes back")
    x.check_eq(list(got.properties), list(e.properties), "order of properties")
    same(x, got.value, e.value, "value")


def ids(x, ns):
    entry_back(x, Entry(tuple(x.str(f"id{i}", n) for i, n in enumerate(ns)), PatternMessage(["x"])))


def id_pairs(x, ns, ms):
    """Different ids never get the same key"""
    a = tuple(x.str(f"a{i}", n) for i, n in enumerate(ns))
    b = tuple(x.str(f"b{i}", n) for i, n in enumerate(ms))
    ka, _ = entry_to_json(Entry(a, PatternMessage([])))
    kb, _ = entry_to_json(Entry(b, PatternMessage([])))
    x.check(x.implies(x.eq(ka, kb), x.eq(a, b)), "distinct ids have distinct keys")


def entry(x, n):
    value = x.choice("value", 4)
    v = [
        lambda: PatternMessage([]),
        lambda: PatternMessage([x.str("t", n)]),
        lambda: PatternMessage([], {"v": Expression(x.str("l", n))}),
        lambda: SelectMessage({"v": Expression(VariableRef("v"), "f")}, (VariableRef("v"),), {(CatchallKey(),): []}),
    ][value]()
    props = {}
    np = x.choice("props", 3)
    if np:
        props["p" + x.str("pk", n)] = PatternMessage([x.str("pv", n)] if x.flag("pvs") else [])
        if np == 2:
            props["q" + x.str("qk", n)] = SelectMessage({}, (VariableRef("v"),), {(CatchallKey(),): [x.str("qv", n)]})
    meta = [Metadata(x.str(f"mk{i}", n), x.str(f"mv{i}", n)) for i in range(x.choice("meta", 3))]
    entry_back(x, Entry(("a", "b"), v, properties=props, comment=x.str("c", n) if x.flag("comment") else "", meta=meta))


def cases(tier):
    t = tier == "thorough"
    out = []
    for fn in ("expr", "markup", "two", "decls", "select", "entry"):
        for n in range(0, 5 if t else 3):
            out.append(dict(name=f"{fn}-{n}", fn=fn, params=dict(n=n)))
    for ns in [(1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 1, 1), (2, 1, 1)] + ([(5,), (3, 2), (1, 1, 1, 1), (2, 2, 2)] if t else []):
        out.append(dict(name=f"ids-{ns}", fn="ids", params=dict(ns=ns)))
    for ns, ms in [((3,), (1, 1)), ((4,), (2, 1)), ((2, 1), (1, 2)), ((1, 1, 1), (3, 1))]:
        out.append(dict(name=f"id_pairs-{ns}-{ms}", fn="id_pairs", params=dict(ns=ns, ms=ms)))
    return out
