from moz.l10n.formats.android.parse import android_parse, android_parse_message
from moz.l10n.formats.android.serialize import android_serialize, android_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from checks.common import assume_comment, entries_of, joined

BOUNDS = {
    "quick": "text of 0-2 free characters alone and within templates, in each of 6 positions; 16 shapes of text, placeholders, entities and markup with 2 free characters; names, attributes, comments and entity values of 0-3; source templates of 1-3 free characters, with each parser option; over all XML characters (control codes too where they can be escaped)",
    "thorough": "as quick with one more free character",
}
ASSUMPTIONS = [
    "lxml is replaced by a model in Python (checks/shim_lxml.py); replays run the real lxml",
    "text parts with both tags and spaces, whose spaces may become line breaks by design, and %< references to earlier placeholders are outside the claim",
    "processing instructions, external entities and entities that have markup or references in their own value are outside the claim",
    "a string-array is contiguous in its section; element prefixes are declared by the resource",
]
XMLCH = "re:[^\ufffe\uffff\ud800-\udfff]"


XLIFF = "urn:oasis:names:tc:xliff:document:1.2"


def flat(pattern):
    """pattern, with its literals as they are in the source, and as text where that is how they are written"""
    out = []
    for p in pattern:
        if isinstance(p, Expression) and p.function not in ("entity", "reference"):
            src = p.attributes["source"] if "source" in p.attributes else p.arg
            if p.attributes.get("translate") == "no":
                p = ("g", src, list(p.options.items()) if p.function else [])
            else:
                p = src
        if isinstance(p, Markup) and p.kind == "standalone":
            out.append(Markup("open", p.name, p.options, p.attributes))
            p = Markup("close", p.name, {}, p.attributes)
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return out


def back(x, msg, where):
    """msg by way of its serialization"""
    if where == 0:
        out = android_serialize_message(msg)
        x.obs("out", out)
        got = android_parse_message(out)
    elif where == 1:
        out = android_serialize_message(msg, allow_cdata=True)
        x.obs("out", out)
        got = android_parse_message(out)
    else:
        if where == 2:
            e = Entry(("b",), msg)
        elif where == 3:
            e = Entry(("b", "0"), msg)
        else:
            var = {("one",): msg.pattern, (CatchallKey("other"),): ["x"]} if where == 4 else {("one",): ["x"], (CatchallKey("other"),): msg.pattern}
            e = Entry(("b",), SelectMessage({"quantity": Expression(VariableRef("quantity"), "number")}, (VariableRef("quantity"),), var))
        es = [Entry(("a",), PatternMessage(["first"])), e, Entry(("c",), PatternMessage(["last"]))]
        res = Resource(None, [Section(("!ENTITY",), [Entry((n,), PatternMessage(["v"])) for n in ("foo", "bar")]), Section((), es)])
        out = "".join(android_serialize(res))
        x.obs("out", out)
        got = android_parse(out)
        x.check_eq([e.id for e in entries_of(got)], [e.id for e in entries_of(res)], "ids")
        x.check_eq((entries_of(got)[2], entries_of(got)[4]), (es[0], es[2]), "other entries")
        again = "".join(android_serialize(got))
        x.check_eq(again, out, "fixpoint")
        got = entries_of(got)[3].value
        if where > 3:
            x.check(isinstance(got, SelectMessage), "kind")
            x.check_eq((got.declarations, got.selectors), (e.value.declarations, e.value.selectors), "selector")
            x.check_eq(list(got.variants), list(e.value.variants), "variants")
            k = ("one",) if where == 5 else (CatchallKey("other"),)
            x.check_eq(got.variants[k], ["x"], "other variant")
            got = PatternMessage(got.variants[("one",) if where == 4 else (CatchallKey("other"),)])
    x.obs("got", got)
    x.check(isinstance(got, PatternMessage), "kind")
    return got


def usable(x, s):
    """outside the claim: references to a previous placeholder"""
    if "%<" in s:
        x.reject()


def text(x, pre, n, post, where, alpha=XMLCH):
    """Any text survives"""
    s = pre + x.str("s", n, alpha) + post
    usable(x, s)
    got = back(x, PatternMessage([s]), where)
    x.check_eq(flat(got.pattern), flat([s]), "text")
    if "%" not in s and not ("<" in s and ">" in s):
        x.check(len(got.pattern) <= 1, "only text")


SOURCES = ["%1$s", "%d", "%-5.2f", "%%", "%n", "%1$tY", "<b>", "<br/>", "<p='\"'>"]


def expr(i):
    src = SOURCES[i]
    if src[0] == "<":
        return Expression(src, "html")
    if src in ("%%", "%n"):
        return Expression("%" if src == "%%" else "\n", attributes={"source": src})
    return Expression(VariableRef("arg1" if "1$" in src else "arg"), {"s": "string", "d": "integer", "f": "number", "Y": "datetime"}[src[-1]], attributes={"source": src})


def pieces(x, shape, n, m, where, k=0):
    """Text, placeables and markup survive next to each other"""
    alpha = XMLCH if n + m < 3 else "re:[^\ufffe\uffff\ud800-\udfff%<\x00-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f]"
    # control codes can't be attribute values
    beta = alpha if shape not in (11, 12, 13, 15) else "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
    s, t = x.str("s", n, alpha), x.str("t", m, beta)
    v = expr(k)
    no = {"translate": "no"}
    if shape == 0:
        p = [s, v, t]
    elif shape == 1:
        p = [v, s, v]
    elif shape == 2:
        p = [s, t]
    elif shape == 3:
        p = ["", s, "", v, "", t, ""]
    elif shape == 4:
        p = [s, Expression(VariableRef("foo"), "entity"), t]
    elif shape == 5:
        p = [Expression(VariableRef("foo"), "entity"), s, Expression(VariableRef("bar"), "entity")]
    elif shape == 6:
        p = [s, Markup("open", "b"), t, Markup("close", "b")]
    elif shape == 7:
        p = [Markup("open", "b"), s, Markup("close", "b"), t]
    elif shape == 8:
        p = [Markup("open", "b"), Markup("open", "i"), s, Markup("close", "i"), t, Markup("close", "b"), Markup("standalone", "br")]
    elif shape == 9:
        p = [s, Markup("standalone", "br"), t]
    elif shape == 10:
        p = [s, Expression("x" + t, None, {}, no)]
    elif shape == 11:
        p = [Expression("x" + t, "xliff:g", {"id2": t}, no), s]
    elif shape == 12:
        p = [s, Expression(VariableRef("user"), "xliff:g", {"id": "user", "example": t}, {"translate": "no", "source": "%1$s"}), s]
    elif shape == 13:
        p = [Markup("open", "xliff:g", {"a": t}, no), s, Markup("open", "b"), Expression("Foo", None, {}, no), Markup("close", "b"), Markup("close", "xliff:g", {}, no)]
    elif shape == 14:
        p = [s, Expression(VariableRef("foo"), "entity", {}, no), t]
    elif shape == 15:
        p = [s, Markup("open", "a", {"href": t, "b": "c"}), v, Markup("close", "a"), "x"]
    if shape in (6, 7, 8):
        p = [e for e in p if not isinstance(e, str) or e != ""]
    flats = ["".join(q) for q in ([a for a in flat(p) if isinstance(a, str)],)][0]
    usable(x, flats)
    plain = [e for e in p if isinstance(e, str)]
    got = back(x, PatternMessage(p), where)
    x.check_eq(flat(got.pattern), flat(p), "parts")
    if shape in (0, 1, 3) and "%" not in "".join(plain) and "<" not in "".join(plain) and ">" not in "".join(plain):
        # and the placeholders are what they were
        if SOURCES[k][0] == "%":
            want = []
            for e in p:
                if isinstance(e, str) and (e == "" or want and isinstance(want[-1], str)):
                    if e:
                        want[-1] = want[-1] + e
                else:
                    want.append(e)
            x.check_eq(got.pattern, want, "placeholders")


def names(x, what, n):
    """Names are written as they are, or refused"""
    s = x.str("s", n)
    start = "re:[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]"
    rest = start[:-1] + ".0-9\xB7\u0300-\u036F\u203F-\u2040-]"
    ok = False if n == 0 else x.only(s[0], start) if n == 1 else x.all([x.only(s[0], start), x.only(s[1:], rest)])
    v = PatternMessage(["v"])
    meta, ents = [], []
    if what == 0:
        e = Entry((s,), v)
    elif what == 1:
        e = Entry((s, "0"), v)
    elif what == 2:
        ents = [Entry((s,), v)]
        e = Entry(("b",), v)
    elif what == 3:
        e = Entry(("b",), v, meta=[Metadata(s, "w")])
        if s == "name":
            x.reject()
    elif what == 4:
        e = Entry(("b",), PatternMessage([Markup("open", s), "x", Markup("close", s)]))
        if ":" in s:
            x.reject()
    elif what == 5:
        e = Entry(("b",), PatternMessage([Markup("open", "b", {s: "w"}), "x", Markup("close", "b")]))
    elif what == 6:
        e = Entry(("b",), v)
        meta = [Metadata(s, "w")]
        if s == "xmlns":
            x.reject()
    elif what == 7:
        e = Entry(("b",), PatternMessage([Expression("x", "xliff:g", {s: "w"}, {"translate": "no"})]))
        if s == "id":
            x.reject()
    es = [Entry(("a",), v), e]
    res = Resource(None, ([Section(("!ENTITY",), ents)] if ents else []) + [Section((), es)], meta=meta)
    try:
        out = "".join(android_serialize(res))
    except ValueError:
        x.check(x.implies(ok, False), "names are accepted")
        return
    x.check(ok, "what is not a name is refused")
    x.obs("out", out)
    got = android_parse(out)
    x.check_eq(got.sections, res.sections, "comes back")
    x.check_eq([m for m in got.meta if m.key[:6] != "xmlns:"], meta, "metadata")


def arrays(x, names, com):
    """Items, strings and plurals in any order and with any comments come back"""
    c = x.str("c", com, "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f\x85\u2028\u2029-]")
    assume_comment(x, c)
    for i in range(com):
        if i == 0 or c[i - 1] == "\n":
            x.assume(x.none(c[i], "re:[^\\S\n]"))
    es = []
    idx = {}
    for ch in names:
        if ch in "AB":
            i = idx.get(ch, 0)
            idx[ch] = i + 1
            es.append(Entry((ch, str(i)), PatternMessage([f"{ch}{i}"]), comment=c if i % 2 == com % 2 else ""))
        elif ch == "p":
            es.append(Entry(("p",), SelectMessage({"quantity": Expression(VariableRef("quantity"), "number")}, (VariableRef("quantity"),), {("one",): ["x"], (CatchallKey("other"),): ["y"]}), comment=c))
        elif ch == "#":
            if com:
                es.append(Comment(c))
        else:
            es.append(Entry((ch,), PatternMessage([ch]), comment=c))
    res = Resource(None, [Section((), es)])
    out = "".join(android_serialize(res))
    x.obs("out", out)
    got = android_parse(out)
    x.obs("got", got)
    x.check_eq([e.id for e in entries_of(got)], [e.id for e in entries_of(res)], "ids")
    x.check_eq([e.value for e in entries_of(got)], [e.value for e in entries_of(res)], "values")
    x.check_eq(got.sections[0].entries, es, "entries")
    x.check_eq("".join(android_serialize(got)), out, "fixpoint")
    trim = "".join(android_serialize(res, trim_comments=True))
    x.check("<!--" not in trim, "trimmed")
    x.check_eq([(e.id, e.value, e.comment) for e in entries_of(android_parse(trim))], [(e.id, e.value, "") for e in entries_of(res)], "trimmed messages")


def arraynames(x, n, m, k):
    """Items of arrays stay in their own arrays"""
    s, t, u = x.str("s", n, "ab"), x.str("t", m, "ab"), x.str("u", 1, "ab")
    ns = [s, t, u][:k]
    es = []
    for i in range(k):
        for j in range(i):
            x.assume(ns[i] != ns[j])
        for j in range(1 + (i + k) % 2):
            es.append(Entry((ns[i], str(j)), PatternMessage([f"{i}{j}"]), meta=[Metadata("k", str(i))]))
    res = Resource(None, [Section((), es)])
    out = "".join(android_serialize(res))
    x.obs("out", out)
    got = android_parse(out)
    x.check_eq(got.sections[0].entries, es, "entries")


def indices(x, k, m, mid):
    """Items are numbered from zero in order, or refused"""
    nums = [x.str(f"n{i}", m, "0123456789") for i in range(k)]
    es = [Entry(("a", n), PatternMessage([f"v{i}"])) for i, n in enumerate(nums)]
    if mid == 2:
        es[1:1] = [Comment("c")]
    elif mid == 3:
        es.insert(0, Entry(("b", "0"), PatternMessage(["x"])))
        es.insert(1, Entry(("b", "1"), PatternMessage(["x"])))
    elif mid == 4:
        for e in es:
            e.comment = "c"
    res = Resource(None, [Section((), es)])
    ok = x.all([x.eq(n, "0" * (m - 1) + str(i)) for i, n in enumerate(nums)])
    try:
        out = "".join(android_serialize(res))
    except ValueError:
        x.obs("refused", True)
        x.check(not ok, "ordered items are written")
        return
    x.check(ok, "items that are not in order are refused")
    if m > 1:
        return
    got = android_parse(out)
    x.check_eq([(e.id, e.value) for e in entries_of(got)], [(e.id, e.value) for e in entries_of(res)], "items come back")


def gaps(x, what, n, m):
    """Comments belong to what follows, or stand alone before an empty line and at the end"""
    w, v = x.str("w", n, " \n\t"), x.str("v", m, "\n ")
    end = ["<string name='a'>x</string>", "<plurals name='a'><item quantity='other'>x</item></plurals>", "<string-array name='a'><item>x</item></string-array>", "<string-array name='a'><!-- e --><item>x</item></string-array>", ""][what]
    two = m > 0
    src = "<resources>\n<string name='z'>y</string>\n<!-- c -->" + (v + "<!-- d -->" if two else "") + w + end + "\n</resources>"
    res = android_parse(src)
    x.obs("res", res)
    want, pending = [], ["c"]
    if two:
        if v.count("\n") > 1:
            want.append("c")
            pending = []
        pending.append("d")
    if what == 4:
        want.append("\n\n".join(pending))
    else:
        if w.count("\n") > 1:
            want.append("\n\n".join(pending))
            pending = []
        if what == 3:
            pending.append("e")
    es = res.sections[0].entries
    x.check_eq(es[0], Entry(("z",), PatternMessage(["y"])), "the entry before")
    k = 1 + len(want)
    x.check_eq(es[1:k], [Comment(c) for c in want], "standalone comments")
    x.check(len(es) == k + (1 if what < 4 else 0), "number of entries")
    if what < 4:
        x.check_eq(es[k].id, ("a", "0") if what in (2, 3) else ("a",), "id")
        x.check_eq(es[k].comment, "\n\n".join(pending), "comment")
    else:
        again = android_parse("".join(android_serialize(res)))
        x.check_eq(again.sections[0].entries, es, "comes back")


def stripped(c):
    """c, as comments are read"""
    lines = [line.strip() for line in c.splitlines()]
    return "\n".join(lines).strip("\n").replace("--", "-\u200b-\u200b")


def comments(x, where, n):
    """No comment adds or changes anything else, and each comes back without its indentation"""
    c = x.str("c", n, "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b-\x1f\x85\u2028\u2029]")
    es = [Entry(("a",), PatternMessage(["v"])), Entry(("b",), PatternMessage(["w"]), comment=c if where == 1 else ""), Entry(("d",), PatternMessage(["v"]))]
    if where == 2:
        es.insert(1, Comment(c))
    res = Resource(None, [Section((), es, c if where == 3 else "")], c if where == 0 else "")
    out = "".join(android_serialize(res))
    x.obs("out", out)
    got = android_parse(out)
    x.obs("got", got)
    x.check_eq([(e.id, e.value) for e in entries_of(got)], [(e.id, e.value) for e in entries_of(res)], "messages")
    want = stripped(c)
    x.check_eq(got.comment, want if where == 0 else "", "resource comment")
    ge = got.sections[0].entries
    x.check_eq([e.comment for e in entries_of(got)], ["", want if where == 1 else "", ""], "entry comments")
    alone = [(i, e.comment) for i, e in enumerate(ge) if isinstance(e, Comment) and e.comment]
    x.check_eq(alone, [(1 if where == 2 else 0, want)] if where > 1 and want else [], "standalone comments")
    x.check_eq("".join(android_serialize(got)), out if want or not c else "".join(android_serialize(got)), "fixpoint")


def entities(x, shape, n, m):
    """Entity values come back"""
    alpha = "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
    s, t = x.str("s", n, alpha), x.str("t", m, alpha)
    ref = Expression(VariableRef("foo"), "entity")
    p = [[s + t], [s, ref, t], [ref, s, ref], [s, t]][shape]
    res = Resource(None, [Section(("!ENTITY",), [Entry(("foo",), PatternMessage(["x"])), Entry(("bar",), PatternMessage(p) if shape < 3 else s + t), Entry(("baz",), PatternMessage(["y"]))]), Section((), [Entry(("a",), PatternMessage(["z"]))])])
    out = "".join(android_serialize(res))
    x.obs("out", out)
    got = android_parse(out)
    x.obs("got", got)
    x.check_eq([e.id for e in entries_of(got)], [e.id for e in entries_of(res)], "ids")
    es = entries_of(got)
    x.check_eq((es[0].value, es[2].value, es[3].value), (PatternMessage(["x"]), PatternMessage(["y"]), PatternMessage(["z"])), "other values")
    x.check_eq(joined(es[1].value.pattern), joined(p), "value")
    x.check_eq("".join(android_serialize(got)), out, "fixpoint")


def metadata(x, where, n):
    """Attributes come back"""
    s = x.str("s", n, "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]")
    m = [Metadata("a", s), Metadata("{u}b", "x")]
    e = Entry(("a",), PatternMessage(["v"]), meta=m if where else [])
    if where == 2:
        e = Entry(("a", "0"), PatternMessage(["v"]), meta=m)
    elif where == 3:
        e = Entry(("a",), SelectMessage({"quantity": Expression(VariableRef("quantity"), "number")}, (VariableRef("quantity"),), {(CatchallKey("other"),): ["y"]}), meta=m)
    ns = [Metadata("xmlns:u", "u")]
    res = Resource(None, [Section((), [e, Entry(("c",), PatternMessage(["w"]))])], meta=(m if where == 0 else []) + ns)
    out = "".join(android_serialize(res))
    x.obs("out", out)
    got = android_parse(out)
    x.check_eq(got, res if got.format is None else Resource(got.format, res.sections, meta=res.meta), "resource")
    x.check_eq("".join(android_serialize(got)), out, "fixpoint")


def source(x, pre, n, mid, m, post, mode, alpha=None):
    """What was parsed comes back from its serialization"""
    alpha = alpha or "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
    src = pre + x.str("s", n, alpha) + mid + x.str("t", m, alpha) + post
    kw = [{}, {"ascii_spaces": True}, {"literal_quotes": True}][mode]
    try:
        res = android_parse(src, **kw)
    except (ValueError, SyntaxError):
        return
    x.obs("res", res)
    try:
        out = "".join(android_serialize(res))
    except ValueError:
        return
    x.obs("out", out)
    again = android_parse(out, **kw)
    x.obs("again", again)
    x.check_eq([(e.id, e.comment, e.meta) for e in entries_of(again)], [(e.id, e.comment, e.meta) for e in entries_of(res)], "entries")
    for a, b in zip(entries_of(again), entries_of(res)):
        if isinstance(b.value, SelectMessage):
            x.check_eq([(k, flat(p)) for k, p in a.value.variants.items()], [(k, flat(p)) for k, p in b.value.variants.items()], "variants")
        else:
            x.check_eq(flat(a.value.pattern), flat(b.value.pattern), "value")
    x.check_eq("".join(android_serialize(again)), out, "fixpoint")


def reads(x, n):
    """Each part is read as what it is"""
    pl = "re:[a-zA-Z0-9.,]"
    s, t = x.str("s", n, pl), x.str("t", n, pl)
    i = x.choice("i", 4)
    conv, fn = [("s", "string"), ("d", "integer"), ("f", "number"), ("tY", "datetime")][i]
    sp = [" ", "\n    ", "\t", "\u2003"][x.choice("sp", 4)]
    q = "" if n == 0 else s
    src = (
        f'<?xml version="1.0"?><!DOCTYPE resources [<!ENTITY ent "e">]><!-- {s} --><resources xmlns:xliff="{XLIFF}"><!-- a{s} -->\n\n<!-- b{t} --><string name="i{s}" k="{t}">{sp}x{s}{sp}{sp}\\u0041\\n\\t\\"\\\'"{sp}"%2${conv}<b k="{s}">{t}{sp}</b>'
        f"<xliff:g>g{t}</xliff:g><xliff:g id=\"v{t}\">{t}.</xliff:g><xliff:g example='{t}' k='x{s}'>&ent;</xliff:g>{sp}</string><string-array name='j'><item>{s}</item><!-- c --><item>@string/a{s}</item></string-array>"
        f"<plurals name='k'><item quantity='one'>1{s}</item><item quantity='other'>%d{sp}</item></plurals></resources>"
    )
    res = android_parse(src)
    x.obs("res", res)
    sec = res.sections[1]
    x.check_eq((res.sections[0].id, res.sections[0].entries), (("!ENTITY",), [Entry(("ent",), PatternMessage(["e"]))]), "entity")
    xs = sp
    vt = "".join([c for c in t if c not in ","])
    want = [
        Comment("a" + s),
        Entry(("i" + s,), PatternMessage(["x" + s + " A\n\t\"'" + xs, Expression(VariableRef("arg2"), fn, attributes={"source": f"%2${conv}"}), Markup("open", "b", {"k": s}), t + " ", Markup("close", "b"), Expression("g" + t, None, {}, {"translate": "no"}), Expression(VariableRef("v" + vt), "xliff:g", {"id": "v" + t}, {"translate": "no", "source": t + "."}), Expression(VariableRef("ent"), "entity", {"example": t, "k": "x" + s}, {"translate": "no"})]), comment="b" + t, meta=[Metadata("k", t)]),
        Entry(("j", "0"), PatternMessage([s] if n else [])),
        Entry(("j", "1"), PatternMessage([Expression("@string/a" + s, "reference")]), comment="c"),
        Entry(("k",), SelectMessage({"quantity": Expression(VariableRef("quantity"), "number")}, (VariableRef("quantity"),), {("one",): ["1" + s], (CatchallKey("other"),): [Expression(VariableRef("arg"), "integer", attributes={"source": "%d"})]})),
    ]
    for c in s:
        x.assume(x.none(c, ".,"))
    x.check_eq(res.comment, s, "resource comment")
    x.check_eq(sec.entries, want, "entries")


def decoded(x, s, ws):
    """How Android reads a string: escapes, quotes, and whitespace outside them"""
    a, b = 0, len(s)
    while a < b and x.inset(s[a], WS):
        a += 1
    while a < b and x.inset(s[b - 1], WS):
        b -= 1
    s = s[a:b]
    out, quoted, i, space = "", False, 0, False
    while i < len(s):
        c = s[i]
        i += 1
        if c == "\\":
            space = False
            if i == len(s):
                return out + "\\"
            c = s[i]
            i += 1
            if c == "u" and i + 4 <= len(s) and x.all([x.inset(h, "0123456789abcdefABCDEF") for h in s[i : i + 4]]):
                code = int(s[i : i + 4], 16)
                i += 4
                if 0xD800 <= code < 0xDC00 and s[i : i + 2] == "\\u" and i + 6 <= len(s) and x.all([x.inset(h, "0123456789abcdefABCDEF") for h in s[i + 2 : i + 6]]):
                    low = int(s[i + 2 : i + 6], 16)
                    if 0xDC00 <= low < 0xE000:
                        code = 0x10000 + ((code - 0xD800) << 10) + low - 0xDC00
                        i += 6
                out += chr(code)
            elif c == "n":
                out += "\n"
            elif c == "t":
                out += "\t"
            elif not quoted and x.inset(c, ws):
                out += " "
                while i < len(s) and x.inset(s[i], ws):
                    i += 1
            else:
                out += c
        elif c == '"':
            quoted = not quoted
            space = False
        elif not quoted and x.inset(c, ws):
            if not space:
                out += " "
            space = True
        else:
            space = False
            out += c
    return out


WS = " \t\n\u2003"
ASCII_WS = " \t\n"


def escapes(x, pre, n, post, alpha, where, mode=0):
    """Text is read as Android reads it"""
    s = pre + x.str("s", n, alpha) + post
    for i in range(len(s) - 1):
        x.assume(not (s[i] == "\\" and s[i + 1] == "\n"))
    body = "<string name='a'>" + s + "</string>"
    if where == 1:
        body = "<plurals name='a'><item quantity='one'>" + s + "</item><item quantity='other'>" + s + "</item></plurals>"
    elif where == 2:
        body = "<string-array name='a'><item>" + s + "</item></string-array>"
    if mode == 1 and s:
        # space at the ends is removed either way
        x.assume(x.none(s[0], WS))
        x.assume(x.none(s[-1], WS))
    res = android_parse("<resources>" + body + "<string name='z'>end</string></resources>", ascii_spaces=mode == 1)
    x.obs("res", res)
    es = [e for e in res.sections[0].entries]
    x.check(len(es) == 2, "two entries")
    for p in es[0].value.variants.values() if where == 1 else [es[0].value.pattern]:
        x.check(all(isinstance(q, str) for q in p), "text")
        got = ""
        for q in p:
            got = got + q
        x.check_eq(got, decoded(x, s, ASCII_WS if mode else WS), "as Android reads it")


TAGS = ["<p>", "</ul>", "<li a='b'>", "<h1>", "<br>", "<br/>", "<hr>", "<hr/>", "<b>", "</p>", "<brx>", "<pre>"]


def html(x, i, n, m, end):
    """Space before block tags and after line breaks is read as a line break, unless it is escaped"""
    tag = TAGS[i]
    s, t = x.str("s", n, "a \n\\"), x.str("t", m, "a \n\u2003")
    x.assume(not ("\\\n" in s))
    if n:
        x.assume(s[-1] != "\\" or (n > 1 and s[-2] == "\\"))
        x.assume(not (n == 3 and x.all([c == "\\" for c in s])))
    t = t + end
    src = "a" + s + tag + t + "b"
    body = src.replace("<", "&lt;")
    res = android_parse(f"<resources><string name='k'>{body}</string></resources>")
    x.obs("res", res)
    got = entries_of(res)[0].value.pattern
    before = decoded(x, '""a' + s + '""', WS)
    # whether the last space of s is one that may be a line break
    raw = s != "" and s[-1] in " \n" and not (len(s) > 1 and s[-2] == "\\" and not (len(s) > 2 and s[-3] == "\\"))
    if raw and i in (0, 1, 2, 3, 6, 7):
        before = before[:-1] + "\n"
    after = decoded(x, '""' + t + 'b', WS)
    if i in (4, 5, 6, 7) and x.inset(after[0], " "):
        after = "\n" + after[1:]
    q = [a if isinstance(a, str) else a.attributes["source"] if "source" in a.attributes else a for a in got]
    x.check_eq(joined(q), [before, Expression(tag, "html"), after], "parts")
    out = "".join(android_serialize(res))
    x.obs("out", out)
    x.check_eq(android_parse(out), res, "round trip")
    # and such messages come back however they are made
    for msg in ([before + " ", Expression(tag, "html"), " " + after], [" " + tag + " " + after], [" ", Expression(tag, "html"), " "]):
        out = android_serialize_message(PatternMessage(msg))
        x.check_eq(flat(android_parse_message(out).pattern), flat(msg), "message")


def refused(x, what, n):
    """What cannot be written is refused"""
    s = x.str("s", n)
    v = PatternMessage(["v"])
    e = Entry(("i",), v)
    res = Resource(None, [Section((), [Entry(("h",), v), e])])
    if what == 0:
        e.id = ()
    elif what == 1:
        e.id = ("a", "0", s)
    elif what == 2:
        res.sections[0] = Section(("s" + s,), [e])
    elif what == 3:
        res.sections[0].meta.append(Metadata("x", s))
    elif what == 4:
        e.meta.append(Metadata("name", s))
    elif what == 5:
        e.value = PatternMessage([Expression(None, "x" + s)])
    elif what == 6:
        e.value = PatternMessage([s, Markup("close", "b")])
    elif what == 7:
        e.value = PatternMessage([Markup("open", "a" + s), "x", Markup("close", "b")])
        if s == "b":
            x.reject()
    elif what == 8:
        e.value = PatternMessage([Markup("open", "a", {"b": VariableRef(s)})])
    elif what == 9:
        e.value = SelectMessage({"v": Expression(VariableRef("v"), "string")}, (VariableRef("v"),), {(s,): ["x"], (CatchallKey(),): ["y"]})
    elif what == 10:
        e.value = SelectMessage({"v": Expression(VariableRef("v"), "number")}, (VariableRef("v"),), {("x" + s,): ["x"], (CatchallKey(),): ["y"]})
    elif what == 11:
        e.id = ("i", s)
        if n and s[0] == "0" and x.only(s, "re:[0\\s]"):
            x.reject()
        x.assume(x.none(s, "re:[\\d\\s_+-]"))
    elif what == 12:
        e.id = ("i", "1")
    elif what == 13:
        e.value = PatternMessage([Expression("@" + s, "reference")])
        x.assume(x.none(s, "/"))
    elif what == 14:
        e.value = PatternMessage(v.pattern, {"a": Expression(s)})
    elif what == 15:
        e.value = PatternMessage([s, Markup("open", "b"), s])
    elif what == 16:
        e.value = PatternMessage([Markup("open", "b"), Markup("open", "b"), s, Markup("close", "b"), s])
    elif what == 17:
        e.value = SelectMessage({"v": Expression(VariableRef("v"), "number")}, (VariableRef("v"),), {("one",): ["x", Markup("open", "b"), s], (CatchallKey(),): ["y"]})
    try:
        "".join(android_serialize(res))
    except ValueError:
        return
    x.fail("not refused")


def cases(tier):
    d = 1 if tier == "thorough" else 0
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for where in range(6):
        for n in range(0, 3 + d):
            add("text", f"{n}-{where}", pre="", n=n, post="", where=where)
        for i, (pre, n, post) in enumerate([("<b>", 2, ""), ("<", 1, ">]]>"), ("a ", 1, " b"), ("%", 1, "s"), ("a", 1, "\\u0"), ("@string/", 1, ""), ("?", 1, "a"), ("&", 1, "lt;")]):
            if where in (0, 1, 2) or i in (0, 3) or d:
                add("text", f"tpl{i}-{where}", pre=pre, n=n + d, post=post, where=where)
    for shape in range(16):
        for n, m in ((1, 1), (2, 0), (0, 2)) if not d else ((1, 2), (2, 1), (3, 0), (0, 3)):
            for where in (0, 2) if not d else range(6):
                add("pieces", f"{shape}-{n}{m}-{where}", shape=shape, n=n, m=m, where=where)
    for k in range(1, len(SOURCES)):
        for shape in (0, 1, 15):
            add("pieces", f"{shape}-11-2-{k}", shape=shape, n=1, m=1, where=2, k=k)
    for what in range(8):
        for n in range(0, 3 + d):
            add("names", f"{what}-{n}", what=what, n=n)
    for names in ("AAA", "A#x", "AAp", "x#A", "p#x"):
        for com in (0, 1, 2) + ((3,) if d else ()):
            add("arrays", f"{names}-{com}", names=names, com=com)
    for n, m, k in ((1, 2, 2), (2, 1, 2), (2, 2, 2), (2, 2, 3), (1, 2, 3)):
        add("arraynames", f"{n}{m}{k}", n=n + d, m=m + d, k=k)
    for what in range(5):
        for n, m in ((0, 0), (2, 0), (3, 0), (1, 2), (3, 2), (2, 3)):
            add("gaps", f"{what}-{n}{m}", what=what, n=n + d if n else 0, m=m + d if m else 0)
    for where in range(4):
        for n in range(0, 4 + d):
            add("comments", f"{where}-{n}", where=where, n=n)
    for shape in range(4):
        for n, m in ((1, 1), (2, 0), (0, 2), (3, 0)):
            add("entities", f"{shape}-{n}{m}", shape=shape, n=n + d, m=m)
    for where in range(4):
        for n in range(0, 3 + d):
            add("metadata", f"{where}-{n}", where=where, n=n)
    R, S = "<resources>", "</string></resources>"
    for i, (pre, n, mid, m, post) in enumerate([
        (R + "<string name='a'>", 3, "", 0, S), (R + "<string name='a'>x ", 1, "<b>", 1, "</b>" + S), (R + "<string name='a'>", 1, "<!-- c -->", 1, S), (R + "<string name='a'>\\", 2, "", 0, S), (R + '<string name="a">"', 1, '"', 1, S), (R + "<string name='a'>%", 2, "", 0, S), (R + "<string name='a", 1, "' ", 2, ">" + S),
        (R + "<!--", 2, "-->", 1, "<string name='a'>" + S), (R + "<plurals name='a'>", 1, "<item quantity='one'>", 1, "</item><item quantity='other'>b</item></plurals></resources>"), (R + "<string-array name='a'>", 1, "<item>", 1, "</item></string-array></resources>"),
        ("<!DOCTYPE resources [<!ENTITY a '", 2, "'>]>" + R + "<string name='a'>", 0, S), (f"<resources xmlns:xliff='{XLIFF}'><string name='a'>", 1, "<xliff:g>", 1, "</xliff:g>" + S), (f"<resources xmlns:xliff='{XLIFF}'><string name='a'><xliff:g id='", 1, "'>", 1, "</xliff:g>" + S), (R + "<string name='a'>\\ud83d\\u", 2, "00", 0, S),
    ]):
        for mode in range(3):
            if mode == 0 or i < 5:
                add("source", f"{i}-{mode}", pre=pre, n=n + d, mid=mid, m=m, post=post, mode=mode, alpha="0123456789abcdefABCDEF" if "ud83d" in pre else None)
    for n in (0, 1, 2):
        add("reads", n, n=n)
    for where in range(3):
        for n in range(1, (5 if where == 0 else 3) + d):
            add("escapes", f"{n}-{where}", pre="", n=n, post="", alpha="a\\\"' \nnt", where=where)
    for i, (pre, n, mid) in enumerate([("\\u00", 3, "z"), ("\\ud83d\\ude", 2, "z"), ("\\ud83d\\u", 2, "00"), ("\\u", 4, ""), ("\\\\u", 2, "41"), ("x \\u00", 2, ' " y')]):
        add("escapes", f"u{i}", pre=pre, n=n, post=mid, alpha="0123456789abcdefABCDEFn" if n < 3 else "09afdD8n\\" if n == 3 else "09dDefg", where=0)
    for pre, post in (("", ""), ("a \u2003", "b"), ('x" ', '"y')):
        for mode in (0, 1):
            add("escapes", f"ws{pre}-{mode}", pre=pre, n=3, post=post, alpha="a\" \n\u2003", where=0, mode=mode)
    for i, (pre, n, post) in enumerate([("\"a ", 3, ' b"'), ("a", 3, "\\'"), ("  ", 3, "\u2003")]):
        add("escapes", f"q{i}", pre=pre, n=n, post=post, alpha="a\\\" \nn", where=0)
    for i in range(len(TAGS)):
        for n, m in ((0, 0), (1, 1), (2, 1), (0, 2)) if not d else ((1, 2), (3, 1), (1, 3)):
            for end in ("", " %s"):
                add("html", f"{i}-{n}{m}{end}", i=i, n=n, m=m, end=end)
    for what in range(18):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    for k in (1, 2, 3):
        for m in (1, 2):
            for mid in (0, 2, 3, 4):
                if m == 1 or k < 3:
                    add("indices", f"{k}{m}{mid}", k=k, m=m, mid=mid)
    return out
