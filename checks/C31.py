from moz.l10n.formats.android.parse import android_parse_message
from moz.l10n.formats.android.serialize import android_serialize_message
from moz.l10n.formats.fluent.parse import fluent_parse, fluent_parse_entry
from moz.l10n.formats.fluent.serialize import fluent_astify, fluent_astify_entry, fluent_astify_message, fluent_serialize_entry, fluent_serialize_message
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats.mf2.message_parser import mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.mf2.to_json import mf2_to_json
from moz.l10n.formats.properties.serialize import properties_serialize_message
from moz.l10n.formats.webext.parse import webext_parse_message
from moz.l10n.formats.webext.serialize import webext_serialize_message
from moz.l10n.formats.xliff.serialize import xliff_serialize_message
from moz.l10n.message.from_json import entry_from_json, message_from_json
from moz.l10n.message.serialize import serialize_message
from moz.l10n.message.to_json import entry_to_json, message_to_json
from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource.add_entries import add_entries
from moz.l10n.resource.l10n_equal import l10n_equal
from moz.l10n.resource.serialize_resource import serialize_resource

from checks.resources import COUNT, FORMATS, PARSE, SERIALIZE, build, options, snap

BOUNDS = {
    "quick": "2-4 resources of each format with all kinds of entries, values, comments and metadata, with an id, a text and a comment of 0-2 free XML characters each; the same with the result of parsing them; 14 shapes of messages in each message serialization and conversion",
    "thorough": "as quick with up to 2 more free characters",
}
ASSUMPTIONS = [
    "lxml and json are replaced by models in Python",
    "the documented reordering of declarations by mf2_validate_message() and normalize() are outside the claim",
]
XMLCH = "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
SIMPLE = "re:[^\ufffe\uffff\ud800-\udfff\x00-\x1f\x85\u2028\u2029-]"


def twice(x, f, args, label):
    """f twice, with no change in its arguments or results"""
    before = snap(args)

    def call():
        try:
            r = f(*args)
            return snap(r) if not isinstance(r, str) else r
        except ValueError as e:
            return ["ValueError"]

    one = call()
    x.obs(label, one)
    x.check_eq(snap(args), before, label + ": arguments")
    two = call()
    x.check_eq(snap(args), before, label + ": arguments the second time")
    x.check_eq(two, one, label + ": result the second time")
    return one


def resource(x, fmt, i, n, m, com):
    """Serializing, comparing and adding resources"""
    s, v = x.str("s", n, "re:[a-z]"), x.str("v", m, XMLCH)
    c = "C" + x.str("c", com, SIMPLE) if com is not None else ""
    make = lambda: build(fmt, i, s, v, (c, c, c, c))
    res = make()
    for trim in (False, True):
        # some of the comments are not supported by some of the formats
        out = twice(x, lambda r: "".join(SERIALIZE[fmt](r, trim_comments=trim, **options(fmt, i))), (res,), "serialize")
        if isinstance(out, str):
            src = out
    if not isinstance(out, str):
        # its text is not one that the format has
        x.reject()
    twice(x, lambda r: "".join(serialize_resource(r, None, trim_comments=True)), (res,), "serialize_resource")
    other = build(fmt, i, s, "v" + v)
    twice(x, l10n_equal, (res, other), "l10n_equal")
    twice(x, l10n_equal, (res, make()), "l10n_equal of the same")
    before = snap(res)
    add_entries(other, res)
    x.check_eq(snap(res), before, "add_entries")
    x.check_eq("".join(SERIALIZE[fmt](res, trim_comments=True, **options(fmt, i))), out, "serialization afterwards")
    for sec in res.sections:
        for e in sec.entries:
            if isinstance(e, Entry) and not isinstance(e.value, str):
                twice(x, entry_to_json, (e,), "entry_to_json")
    x.check_eq(snap(make()), snap(res), "the resource is as it was built")
    try:
        parsed = PARSE[fmt](src)
    except ValueError:
        # the text is more than that, such as a placeholder
        return
    twice(x, lambda r: "".join(SERIALIZE[fmt](r, **options(fmt, i))), (parsed,), "parsed")


def make_message(shape, v, w):
    V = VariableRef
    d = {"b": Expression(V("b"), "number", {"o": v}), "a": Expression(V("b"), "string", {"p": V("c")}), "c": Expression(v, "number"), "unused": Expression("u"), "Z": Expression(V("Z"), "number", {"p": v, "o": w}, {"q": v, "k": w})}
    if shape == 0:
        return PatternMessage([v, w, "", "x"])
    if shape == 1:
        return PatternMessage([v, Expression(V("a"), attributes={"source": "%s"}), w, Expression(V("a"), attributes={"source": "%s"})])
    if shape == 2:
        return PatternMessage([v, Expression(V("a")), Markup("open", "b", {"o": w}), w, Markup("close", "b")], d)
    if shape == 3:
        return SelectMessage(d, (V("b"), V("a")), {("one", "x"): [v, w], ("one", CatchallKey()): [w], (CatchallKey("other"), "x"): [Expression(V("b")), v], (CatchallKey(), CatchallKey("y")): []})
    if shape == 4:
        return PatternMessage([v, Expression("m" + w, "message"), Expression(V("c"), "datetime", {"o": w}), Expression(v), "\n", w, "y"])
    if shape == 5:
        n = {"n": Expression(V("n"), "number")}
        return SelectMessage(n, (V("n"),), {("one",): ["\n", v], ("0",): [w, Expression(V("n"))], (CatchallKey("other"),): [Expression(V("n"), "number"), v]})
    if shape == 6:
        return PatternMessage([v, Expression(V("foo"), attributes={"source": "$foo$"}), w, Expression(V("arg1"), attributes={"source": "$1"}), Expression(V("bar"))], {"foo": Expression(v, attributes={"x": w, "example": w}), "bar": Expression(V("arg1"), attributes={"source": "$1"})})
    if shape == 7:
        return PatternMessage([v, Markup("standalone", "br"), Markup("open", "a", {"b": v, "a": w}, {"t": w, "s": v}), w, Markup("close", "a"), Expression(v, None, {}, {"translate": "no"}), Expression(V("e"), "entity")])
    if shape == 8:
        return PatternMessage([Expression(v, None, {"o": w}, {"z": w, "y": True}), Markup("open", "x", {"q": V("r")}, {"source": "<x>", "k": v}), w])
    if shape == 9:
        return PatternMessage([])
    if shape == 10:
        # invalid
        return SelectMessage({}, (), {(): [v]})
    if shape == 11:
        return SelectMessage(d, (V("b"),), {("x" + v,): [w]})
    if shape == 12:
        return PatternMessage([v, Markup("close", "b"), w, Markup("open", "c")])
    return PatternMessage([v, Expression(None, "FOO", {"o": w}, {"fluent-fn": "FOO"}), w], {"q": Expression(V("q"), "number")})


CALLS = {
    "mf2": mf2_serialize_message,
    "mf2_json": mf2_to_json,
    "json": message_to_json,
    "android": lambda m: android_serialize_message(m) + "|" + android_serialize_message(m, allow_cdata=True),
    "fluent": lambda m: fluent_serialize_message(m) + "|" + fluent_serialize_message(m, escape_syntax=False, escape_empty=True),
    "fluent_entry": lambda m: fluent_serialize_entry(Entry(("a",), m, {"b": m})),
    "properties": properties_serialize_message,
    "webext": webext_serialize_message,
    "xliff": xliff_serialize_message,
    "pattern": lambda m: [serialize_message(f, m.pattern if isinstance(m, PatternMessage) else m) for f in (Format.fluent, Format.gettext, Format.webext)],
    "str": lambda m: [repr(type(m)), m.is_empty(), list(m.selector_expressions()) if isinstance(m, SelectMessage) else ""],
}


def message(x, call, shape, n, m):
    """Serializing and converting messages"""
    v, w = x.str("v", n, XMLCH), x.str("w", m, XMLCH)
    msg = make_message(shape, v, w)
    twice(x, CALLS[call], (msg,), call)
    x.check_eq(snap(msg), snap(make_message(shape, v, w)), "the message is as it was built")


def conversion(x, shape, n, m):
    """Reading JSON, and using what was read or written, leaves the source as it was"""
    v, w = x.str("v", n, XMLCH), x.str("w", m, XMLCH)
    msg = make_message(shape, v, w)
    j = message_to_json(msg)
    twice(x, message_from_json, (j,), "message_from_json")
    key, ej = entry_to_json(Entry(("a",), msg, {"p": msg}, "c" + v, [Metadata("k", w)]))
    twice(x, entry_from_json, (key, ej), "entry_from_json")
    x.check_eq(snap(msg), snap(make_message(shape, v, w)), "the message is as it was built")
    try:
        mj = mf2_to_json(msg)
    except (ValueError, AssertionError):
        return
    twice(x, mf2_from_json, (mj,), "mf2_from_json")


def placeholders(x, n, m, upper):
    """Placeholders of a message of a WebExtension"""
    v, w = x.str("v", n, XMLCH), x.str("w", m, XMLCH)
    name = "Foo" if upper else "foo"
    ph = {name: {"content": "$1" if m == 0 else w, "example": v}, "bar": {"content": v}}
    twice(x, webext_parse_message, ("a" + v + "$FOO$$bar$$foo$", ph), "webext_parse_message")


def ast(x, n, m):
    """Fluent syntax trees are not changed by reading or writing them"""
    s, v = x.str("s", n, "re:[a-z]"), x.str("v", m, "re:[^\\s{}*.\\[#\ud800-\udfff]")
    for i in range(3):
        res = build("fluent", i, s, v, ("c", "c", "c", "c"))
        tree = fluent_astify(res)
        before = snap(tree)
        got = fluent_parse(tree)
        x.check_eq(snap(tree), before, "fluent_parse")
        x.check_eq(snap(fluent_parse(tree)), snap(got), "fluent_parse the second time")
        e = tree.body[len(tree.body) - 1]
        if type(e).__name__ in ("Message", "Term"):
            fluent_parse_entry(e)
        x.check_eq(snap(tree), before, "fluent_parse_entry")


def cases(tier):
    d = 2 if tier == "thorough" else 0
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for fmt in FORMATS:
        for i in range(COUNT[fmt]):
            for n, m, com in ((0, 1, None), (1, 1, 1)) + (((1, 1, 2), (1, 2, 0), (1, 3, None)) if d else ()):
                add("resource", f"{fmt}-{i}-{n}{m}{com}", fmt=fmt, i=i, n=n, m=m, com=com)
    for call in CALLS:
        for shape in range(14):
            for n, m in ((1, 1), (2, 0), (0, 2)) if not d else ((1, 1), (2, 1), (0, 3)):
                add("message", f"{call}-{shape}-{n}{m}", call=call, shape=shape, n=n, m=m)
    for shape in range(14):
        if shape != 10:
            for n, m in ((1, 1), (0, 2)):
                add("conversion", f"{shape}-{n}{m}", shape=shape, n=n, m=m)
    for n, m in ((1, 1), (2, 0), (0, 2)):
        for upper in (False, True):
            add("placeholders", f"{n}{m}-{upper}", n=n, m=m, upper=upper)
    for n, m in ((0, 1), (1, 2)):
        add("ast", f"{n}{m}", n=n, m=m)
    return out
