"""Resources of each format, with as many kinds of parts as the format has, and symbolic contents."""
from moz.l10n.formats import Format
from moz.l10n.formats.android.parse import android_parse
from moz.l10n.formats.android.serialize import android_serialize
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.dtd.serialize import dtd_serialize
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.fluent.serialize import fluent_serialize
from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.gettext.serialize import gettext_serialize
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.inc.serialize import inc_serialize
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.ini.serialize import ini_serialize
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.plain_json.serialize import plain_json_serialize
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.formats.properties.serialize import properties_serialize
from moz.l10n.formats.webext.parse import webext_parse
from moz.l10n.formats.webext.serialize import webext_serialize
from moz.l10n.formats.xliff.parse import xliff_parse
from moz.l10n.formats.xliff.serialize import xliff_serialize
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

PARSE = {
    "android": android_parse, "dtd": dtd_parse, "fluent": fluent_parse, "gettext": gettext_parse, "inc": inc_parse, "ini": ini_parse,
    "plain_json": plain_json_parse, "properties": properties_parse, "webext": webext_parse, "xliff": xliff_parse,
}
SERIALIZE = {
    "android": android_serialize, "dtd": dtd_serialize, "fluent": fluent_serialize, "gettext": gettext_serialize, "inc": inc_serialize, "ini": ini_serialize,
    "plain_json": plain_json_serialize, "properties": properties_serialize, "webext": webext_serialize, "xliff": xliff_serialize,
}
FORMATS = list(PARSE)
# those that have comments
COMMENTED = ["android", "dtd", "fluent", "gettext", "inc", "ini", "properties", "webext", "xliff"]
XLIFF = [Metadata("@version", "1.2"), Metadata("@xmlns", "urn:oasis:names:tc:xliff:document:1.2")]


def pm(*parts):
    return PatternMessage(list(parts))


def number(*keys):
    return {"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),)


def build(fmt, i, s, v, c=("", "", "", "")):
    """
    The i:th resource of a format, with s an id (letters only), v a text,
    and c the comments of the resource, a section, an entry and a standalone one.
    """
    src = lambda name, source, fn=None: Expression(VariableRef(name), fn, attributes={"source": source})
    a, b = Entry(("a" + s,), pm("x", v)), Entry(("b",), pm(v, "y"), comment=c[2])
    es = [a, b, Entry(("Z",), pm("last"))]
    res = Resource(Format[fmt], [Section((), es)], c[0])
    sec = res.sections[0]
    if c[3]:
        es.insert(1, Comment(c[3]))
    if fmt == "android":
        sec.comment = ""
        if i == 1:
            b.value = pm(v, src("arg1", "%1$d", "integer"), Markup("open", "b", {"c": v}), "y", Expression(VariableRef("foo"), "entity"), Markup("close", "b"))
            res.sections.insert(0, Section(("!ENTITY",), [Entry(("foo",), pm("f", v))]))
            b.meta = [Metadata("translatable", "false"), Metadata("m", "1")]
            res.meta = [Metadata("xmlns:u", "urn:u"), Metadata("l", "m")]
        elif i == 2:
            q = {"quantity": Expression(VariableRef("quantity"), "number")}
            b.value = SelectMessage(q, (VariableRef("quantity"),), {("one",): ["1", v], (CatchallKey("other"),): [src("arg", "%d", "integer"), v]})
            es.append(Entry(("q", "0"), pm(v, "q"), comment=c[2]))
            es.append(Entry(("q", "1"), pm("r")))
        elif i == 3:
            sec.comment = c[1]
            b.value = pm("z", Expression(v, None, {}, {"translate": "no"}), Expression("x" + v, "xliff:g", {"id": v}, {"translate": "no"}))
            a.value = "x" + v
    elif fmt == "dtd":
        if i == 1:
            sec.comment = c[1]
            res.meta = [Metadata("ext", "u" + v)]
        elif i == 2:
            res.sections.append(Section((), [Entry(("d", s + "e"), "x" + v)], comment=c[1]))
            a.id = ("d", "a" + s)
    elif fmt == "fluent":
        if i == 0:
            a.properties = {"at": pm("p", v)}
        elif i == 1:
            sec.comment = c[1]
            b.value = pm(v, Expression(VariableRef("x")), Expression("-t", "message", {"k": v}), Expression(v), Expression("1", "number"))
            es.append(Entry(("-t",), pm("t", v), {"at": pm(v, "u")}, c[2]))
        elif i == 2:
            decl = {"n": Expression(VariableRef("n"), "number"), "m_1": Expression(VariableRef("m"), "number", {"style": v}, {"fluent-fn": "NUMBER"})}
            b.value = SelectMessage(decl, (VariableRef("n"), VariableRef("m_1")), {(k, l): [v, str(k), str(l)] for k in ("one", CatchallKey("other")) for l in ("0", CatchallKey("other"))})
            res.sections.append(Section((), [Entry(("d",), pm(v, "\n", v, "d")), *([Comment(c[3])] if c[3] else [])], comment=c[1]))
        elif i == 3:
            b.meta, res.meta, sec.meta = [Metadata("k", v)], [Metadata("info", c[0])] if c[0] else [], [Metadata("l", v), Metadata("l", "m")]
    elif fmt == "gettext":
        es[:] = [e for e in es if isinstance(e, Entry)]
        if i == 1:
            b.value = SelectMessage(*number(), {("0",): [v], (CatchallKey("1"),): [v, "s"]})
            b.meta = [Metadata("plural", "bs" + v), *([Metadata("translator-comments", c[3])] if c[3] else [])]
            res.meta = [Metadata("X-Z", "z"), Metadata("Project-Id-Version", "p"), Metadata("Plural-Forms", "nplurals=2; plural=(n != 1);")]
        elif i == 2:
            b.id = ("b", "c" + v)
            if c[3]:
                b.meta = [Metadata("reference", "f" + s + ":1"), Metadata("flag", "c-format"), Metadata("translator-comments", c[3])]
            res.sections.append(Section((), [Entry(("d",), "d" + v)]))
    elif fmt == "inc":
        if i == 1:
            sec.comment = c[1]
            res.sections.append(Section((), [Entry(("d",), "d" + v, comment=c[2])], c[1]))
    elif fmt == "ini":
        sec.id = ("S",)
        if i == 1:
            sec.comment = c[1]
            res.sections.append(Section(("T" + s, "U"), [Entry(("d", "e"), "d" + v, comment=c[2])], c[1]))
    elif fmt == "plain_json":
        es[:] = [e for e in es if isinstance(e, Entry)]
        res.comment = b.comment = ""
        if i == 1:
            sec.id = ("S",)
            a.id = ("q", "a" + s)
            b.id = ("q", "b")
            b.value = "x" + v
    elif fmt == "properties":
        if i == 1:
            sec.comment = c[1]
            res.sections.append(Section(("T",), [Entry(("d", "e" + s), "d" + v, comment=c[2])], c[1]))
            b.value = pm(v, src("arg1", "%1$S", "string"), "%", Expression("%", attributes={"source": "%%"}))
    elif fmt == "webext":
        es[:] = [e for e in es if isinstance(e, Entry)]
        res.comment = ""
        if i == 1:
            ex = {"example": c[3]} if c[3] else {}
            b.value = PatternMessage([v, src("foo", "$foo$"), "d", src("Bar", "$BAR$"), v, src("arg2", "$2"), " ", Expression(VariableRef("nosrc"))], {"foo": Expression("c" + v, attributes=dict(ex)), "Bar": Expression(VariableRef("arg1"), attributes={"source": "$1", **ex}), "nosrc": Expression("y")})
        elif i == 2:
            b.value = "x" + v
    elif fmt == "xliff":
        res.meta = list(XLIFF)
        sec.id = ("f",)
        sm = lambda: [Metadata("source", "k" + v)]
        for e in es:
            if isinstance(e, Entry):
                e.meta = sm()
        if i == 1:
            sec.comment = c[1]
            b.value = pm(v, Markup("open", "g", {"id": v}), "y", Markup("close", "g"), Markup("standalone", "x", {"id": "2"}))
            if c[3]:
                b.meta += [Metadata("note/@from", "f" + s), Metadata("note", c[3])]
            res.sections.append(Section(("f", "g"), [Entry(("d",), pm("d", v), meta=sm())]))
        elif i == 2:
            sec.id = ("f.xcstrings",)
            sec.meta = [Metadata("header/tool/@tool-id", "com.apple.dt.xcode")]
            es[:] = [e for e in es if isinstance(e, Entry)]
            ph = lambda: Expression(VariableRef("int"), None, attributes={"source": "%d"})
            b.value = SelectMessage({"int": Expression(VariableRef("int"), "integer")}, (VariableRef("int"),), {("one",): [v, ph()], (CatchallKey("other"),): [ph(), v]})
            b.meta = [Metadata("one/source", "k" + v), Metadata("other/source", v + "%d")] + ([Metadata("other/note", c[3])] if c[3] else [])
            b.comment = ""
            a.value = pm("x", v, ph())
            dev = SelectMessage({"device": Expression(None, "device")}, (VariableRef("device"),), {("ipad",): [v, "i"], (CatchallKey("other"),): ["j"]})
            es.append(Entry(("dev",), dev, meta=[Metadata("ipad/source", "k"), Metadata("other/source", v + "l")]))
            sub = SelectMessage({"w": Expression(VariableRef("w"), "integer", attributes={"source": "%#@w@", "substitution": True})}, (VariableRef("w"),), {("one",): ["a" + v, Expression(VariableRef("w"), attributes={"source": "%d"})], (CatchallKey("other"),): [Expression(VariableRef("w"), attributes={"source": "%d"}), v, "b"]})
            es.append(Entry(("sub",), sub, meta=[Metadata("source", "%#@w@"), Metadata("w/one/source", "k"), Metadata("w/other/source", v + "l")]))
        elif i == 3:
            sec.id = ("f.stringsdict",)
            sec.meta = [Metadata("header/tool/@tool-id", "com.apple.dt.xcode")]
            ph = lambda: Expression(VariableRef("int"), "integer", attributes={"source": "%d"})
            sel = SelectMessage({"v": Expression(VariableRef("v"), "number", attributes={"source": "%#@v@" + v})}, (VariableRef("v"),), {("one",): ["1", v], (CatchallKey("other"),): [ph(), v]})
            es[:] = [Entry(("d" + s,), sel, meta=[Metadata("one/source", "k" + v), Metadata("other/source", v + "l"), Metadata("other/target/@state", "s")] + ([Metadata("other/note", c[3])] if c[3] else []))]
    return res


COUNT = {"android": 4, "dtd": 3, "fluent": 4, "gettext": 3, "inc": 2, "ini": 2, "plain_json": 2, "properties": 2, "webext": 3, "xliff": 4}


def options(fmt, i):
    return {"serialize_metadata": lambda m: f"{m.key}: {m.value}"} if fmt == "fluent" else {}


def snap(o):
    """All that there is of an object, in order"""
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, *[snap(e) for e in o]]
    if isinstance(o, dict):
        return ["dict", *[(snap(k), snap(v)) for k, v in o.items()]]
    if hasattr(o, "__dataclass_fields__"):
        return [type(o).__name__, *[snap(getattr(o, f)) for f in o.__dataclass_fields__]]
    if isinstance(o, set):
        return ["set", sorted(o)]
    if isinstance(o, (str, int, bool)) or o is None or isinstance(o, Format):
        return o
    return [type(o).__name__, *[(k, snap(w)) for k, w in vars(o).items()]]
