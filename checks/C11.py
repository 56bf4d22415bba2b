from moz.l10n.formats.mf2.message_parser import mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

from checks.common import joined

BOUNDS = {
    "quick": "literal, option, attribute and key texts of 0-3 characters and pattern texts of 0-3 characters over every Unicode scalar value but NUL; "
    "names of 1-2 characters; patterns of up to 3 parts; up to 3 declarations with any dependencies between them; 1-2 selectors, up to 2 keyed variants",
    "thorough": "as quick with texts to 5 characters, names to 4 and 4 declarations",
}
ASSUMPTIONS = [
    "messages are those that mf2_validate_message accepts",
    "NUL does not appear in text (MessageFormat 2 has no way to write it)",
]


def norm(msg):
    if isinstance(msg, PatternMessage):
        return PatternMessage(joined(msg.pattern), msg.declarations)
    return SelectMessage(msg.declarations, msg.selectors, {k: joined(p) for k, p in msg.variants.items()})


def roundtrip(x, msg):
    try:
        mf2_validate_message(msg)
    except MF2ValidationError:
        x.reject()
    src = mf2_serialize_message(msg)
    x.obs("src", src)
    try:
        got = mf2_parse_message(src)
    except ValueError:
        x.fail("the serialization of a valid message parses")
    x.obs("got", got)
    exp = norm(msg)
    x.check(type(got) is type(exp), "kind of message")
    x.check_eq(got, exp, "the message comes back")
    x.check_eq(list(got.declarations), list(exp.declarations), "order of declarations")
    if isinstance(exp, SelectMessage):
        x.check_eq(list(got.variants), list(exp.variants), "order of variants")


def literal(x, n):
    roundtrip(x, PatternMessage([Expression(x.str("lit", n, "nonnul"))]))


def literal_fn(x, n, o, a):
    opts = {"o": x.str("opt", o, "nonnul")} if o is not None else {}
    attrs = {"a": x.str("att", a, "nonnul")} if a is not None else {}
    arg = x.str("lit", n, "nonnul") if n is not None else None
    roundtrip(x, PatternMessage(["a", Expression(arg, "f", opts, attrs), "b"]))


def texts(x, ns, simple):
    parts = [x.str(f"t{i}", n, "nonnul") for i, n in enumerate(ns)]
    decl = {} if simple else {"x": Expression(VariableRef("x"), "f")}
    roundtrip(x, PatternMessage(parts, decl))


def text_expr(x, n, m, markup):
    ph = Markup("standalone", "m") if markup else Expression(VariableRef("v"))
    roundtrip(x, PatternMessage([x.str("a", n, "nonnul"), ph, x.str("b", m, "nonnul")]))


def names(x, what, n):
    name = x.str("name", n, "nonnul")
    if what == "var":
        ph = Expression(VariableRef(name))
    elif what == "fn":
        ph = Expression(VariableRef("v"), name)
    elif what == "opt":
        ph = Expression(VariableRef("v"), "f", {name: VariableRef("w"), "b": "c"})
    elif what == "optvar":
        ph = Expression(VariableRef("v"), "f", {"o": VariableRef(name)}, {"a": True})
    elif what == "attr":
        ph = Expression(VariableRef("v"), None, {}, {name: True, "b": "c"})
    elif what == "attr2":
        ph = Expression("1", "f", {"o": "1"}, {"b": True, name: "d"})
    elif what == "markup":
        ph = Markup(x.choice("kind", ["open", "standalone", "close"]), name, {"o": "1"} if x.flag("o") else {}, {"a": True} if x.flag("a") else {})
    else:
        roundtrip(x, PatternMessage([], {name: Expression("1", "f"), "b": Expression(VariableRef(name))}))
        return
    roundtrip(x, PatternMessage(["<", ph, ">"]))


def fn_namespaced(x, n):
    ns = x.str("ns", n, "nonnul")
    nm = x.str("nm", n, "nonnul")
    roundtrip(x, PatternMessage([Expression(None, ns + ":" + nm, {ns + ":o": nm + "1"})]))


def markup_opts(x, n, m):
    kind = x.choice("kind", ["open", "standalone", "close"])
    roundtrip(x, PatternMessage([Markup(kind, "m", {"o": x.str("o", n, "nonnul")}, {"a": x.str("a", m, "nonnul")})]))


def decls(x, k, opts):
    """Declarations in any order with any references between them."""
    nms = ["a", "b", "c", "d"][:k]
    refs = nms + ["z"]
    decl = {}
    for nm in nms:
        a = x.choice("arg_" + nm, len(refs) + 1)
        arg = "1" if a == len(refs) else VariableRef(refs[a])
        o = x.choice("opt_" + nm, len(refs) + 1) if opts else len(refs)
        if o == len(refs):
            decl[nm] = Expression(arg)
        else:
            decl[nm] = Expression(arg, "f", {"o": VariableRef(refs[o])})
    roundtrip(x, PatternMessage(["t"], decl))


def select1(x, n, m):
    """One selector, two symbolic keys"""
    key = x.str("key", n, "nonnul")
    key2 = x.str("key2", m, "nonnul")
    vs = {(key,): ["one"]}
    if x.flag("swap"):
        vs[(CatchallKey("other"),)] = ["other"]
    vs[(key2,)] = [Expression(VariableRef("x"))]
    vs[(CatchallKey("other"),)] = ["other"]
    roundtrip(x, SelectMessage({"x": Expression(VariableRef("x"), "number")}, (VariableRef("x"),), vs))


def select2(x, n):
    key = x.str("key", n, "nonnul")
    pat = x.str("pat", n, "nonnul")
    c = CatchallKey()
    decl = {"x": Expression(VariableRef("x"), "number"), "y": Expression(VariableRef("x")), "z": Expression("1", "string")}
    sel = tuple(VariableRef(v) for v in x.choice("sel", [("x", "y"), ("y", "z"), ("z", "z")]))
    vs = {(key, c): [pat], (c, key): [Markup("open", "b"), "t"], (c, c): []}
    roundtrip(x, SelectMessage(decl, sel, vs))


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for n in range(0, 6 if t else 4):
        add("literal", n, n=n)
    for n, o, a in [(None, None, None), (0, None, None), (None, 0, None), (None, None, 0), (1, 1, None), (1, None, 1), (None, 2, None), (None, None, 2), (1, 1, 1)]:
        add("literal_fn", f"{n}-{o}-{a}", n=n, o=o, a=a)
    for simple in (True, False):
        for ns in [(0,), (1,), (2,), (3,), (0, 1), (1, 1), (1, 2), (2, 1), (1, 0, 1)] + ([(4,), (5,), (2, 2), (1, 1, 2)] if t else []):
            add("texts", f"{ns}-{simple}", ns=ns, simple=simple)
    for n, m in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2)] + ([(3, 1), (2, 2)] if t else []):
        for mk in (False, True):
            add("text_expr", f"{n}-{m}-{mk}", n=n, m=m, markup=mk)
    for what in ("var", "fn", "opt", "optvar", "attr", "attr2", "markup", "decl"):
        for n in (1, 2, 3, 4, 5) if t else (1, 2, 3):
            add("names", f"{what}-{n}", what=what, n=n)
    add("fn_namespaced", 1, n=1)
    for n, m in [(0, 0), (1, 1), (2, 0), (0, 2)]:
        add("markup_opts", f"{n}-{m}", n=n, m=m)
    add("decls", "3", k=3, opts=False)
    add("decls", "3-opts", k=3, opts=True)
    if t:
        add("decls", "4", k=4, opts=False)
    for n, m in [(0, 1), (1, 1), (2, 1)] + ([(2, 2), (3, 1)] if t else []):
        add("select1", f"{n}-{m}", n=n, m=m)
    for n in (0, 1) + ((2,) if t else ()):
        add("select2", n, n=n)
    return out
