from moz.l10n.formats.xliff.parse import xliff_parse, xliff_parse_message
from moz.l10n.formats.xliff.parse_xcode import parse_xcode_pattern
from moz.l10n.formats.xliff.serialize import xliff_serialize, xliff_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from checks.common import assume_comment, entries_of, joined

BOUNDS = {
    "quick": "text of 0-3 free characters alone and within templates, in each of 7 positions; 14 shapes of text and inline elements with 2 free characters; names, attributes, metadata, comments and ids of 0-3; Xcode strings, plurals and string catalogs with 2 free characters in each source and target; files with every kind of element, each in turn with 1-2 free characters; source templates of 1-3 free characters; over all XML characters",
    "thorough": "as quick with one more free character",
}
ASSUMPTIONS = [
    "lxml is replaced by a model in Python (checks/shim_lxml.py); replays run the real lxml",
    "whitespace-only text between the elements of metadata other than source and target, comments of groups and the contents of x, bx and ex elements are outside the claim",
    "processing instructions outside messages and document type declarations are outside the claim",
    "of Xcode string catalogs with a substitution, those where each or none of the variants is translated are in the claim",
]
XMLCH = "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
NS = "urn:oasis:names:tc:xliff:document:1.2"
XCODE = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")


def flat(pattern, xcode=False):
    """pattern with adjacent strings joined, standalone elements as pairs and placeholders as their source"""
    out = []
    for p in pattern:
        if isinstance(p, Expression):
            p = p.attributes["source"]
        if isinstance(p, Markup) and p.kind == "standalone" and p.name not in ("x", "bx", "ex"):
            out.append(("open", p.name, list(p.options.items())))
            p = ("close", p.name)
        elif isinstance(p, Markup):
            p = ("close", p.name) if p.kind == "close" else (p.kind, p.name, list(p.options.items()))
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return out


def wrap(es, fn="f.txt", xcode=False, extra=()):
    meta = [XCODE] if xcode else []
    root = [Metadata("@version", "1.2"), Metadata("@xmlns", NS), *extra]
    return Resource(None, [Section((fn,), es, meta=meta)], meta=root)


def again(x, res, src=False):
    out = "".join(xliff_serialize(res, source_entries=src))
    x.obs("out", out)
    got = xliff_parse(out, source_entries=src)
    x.obs("got", got)
    if "></" not in out:
        # an element with no contents may also be written as <x/>
        x.check_eq("".join(xliff_serialize(got, source_entries=src)), out, "fixpoint")
    return got


def back(x, msg, where):
    """msg by way of its serialization"""
    if where < 2:
        out = xliff_serialize_message(msg)
        x.obs("out", out)
        got = xliff_parse_message(out, is_xcode=where == 1)
    else:
        src = where in (3, 5)
        xc = where in (4, 5)
        fn = "f.strings" if xc else "f.txt"
        sm = [Metadata("target", "hedef")] if src else [Metadata("source", "kaynak")]
        if where == 6:
            sm += [Metadata("target/@state", "final"), Metadata("note", "n")]
        es = [Entry((i,), m, meta=list(sm)) for i, m in (("a", PatternMessage(["first"])), ("b", msg), ("c", PatternMessage(["last"])))]
        res = wrap(es, fn, xc)
        got = again(x, res, src)
        x.check_eq([s.id for s in got.sections], [(fn,)], "sections")
        x.check_eq([e.id for e in entries_of(got)], [e.id for e in es], "ids")
        x.check_eq([e.meta for e in entries_of(got)], [e.meta for e in es], "metadata")
        x.check_eq((entries_of(got)[0].value, entries_of(got)[2].value), (es[0].value, es[2].value), "other entries")
        got = entries_of(got)[1].value
    x.obs("got", got)
    x.check(isinstance(got, PatternMessage), "kind")
    return got


def text(x, pre, n, post, where, alpha=XMLCH):
    """Any text survives"""
    s = pre + x.str("s", n, alpha) + post
    got = back(x, PatternMessage([s]), where)
    x.check_eq(flat(got.pattern), flat([s]), "text")
    if where in (0, 2, 3, 6):
        x.check_eq(got.pattern, [s] if s else [], "only text")


def unxml(x, n, where):
    """Characters that XML cannot have are refused"""
    s = x.str("s", n, "any")
    ok = x.only(s, XMLCH)
    m = PatternMessage([s])
    try:
        out = xliff_serialize_message(m) if where == 0 else "".join(xliff_serialize(wrap([Entry(("a",), m, meta=[Metadata("source", "s")])])))
    except ValueError:
        x.check(x.implies(ok, False), "XML characters are accepted")
        return
    x.check(ok, "what is not an XML character is refused")


def pieces(x, shape, n, m, where):
    """Text and inline elements survive next to each other"""
    s, t = x.str("s", n, XMLCH), x.str("t", m, XMLCH)
    g, gg = Markup("open", "g", {"id": "1"}), Markup("close", "g")
    X, Y = Markup("standalone", "x", {"id": "2"}), Markup("standalone", "bx", {"id": "3", "rid": t})
    if shape == 0:
        p = [g, s, gg, t]
    elif shape == 1:
        p = [s, g, t, gg]
    elif shape == 2:
        p = [X, s, Y, t]
    elif shape == 3:
        p = [s, t, g, gg, s, "", X]
    elif shape == 4:
        p = [g, g, s, gg, t, gg, X]
    elif shape == 5:
        p = [g, X, gg, Y]
    elif shape == 6:
        p = [Markup("open", "mrk", {"mtype": s, "xml:lang": t}), s, Markup("close", "mrk")]
    elif shape == 7:
        p = [Markup("open", "{urn:x}b", {"{urn:x}c": s, "d": t}), s, Markup("close", "{urn:x}b"), t]
    elif shape == 8:
        p = [s, Expression(None, "f", attributes={"source": t}), s]
    elif shape == 9:
        p = [g, s, g, X, gg, t, g, gg, gg, X]
    elif shape == 10:
        p = [Markup("standalone", "ph", {"id": t}), s, Markup("standalone", "it"), t]
    elif shape == 11:
        p = [X, Markup("open", "ph", {"id": s}), t, Markup("close", "ph"), X, X]
    elif shape == 12:
        p = [X, X, g, gg]
    else:
        p = [g, s, gg, g, t, gg]
    got = back(x, PatternMessage(p), where)
    want = flat(p)
    if shape == 6:
        want = [("open", "mrk", [("mtype", s), ("{http://www.w3.org/XML/1998/namespace}lang", t)])] + want[1:]
    x.check_eq(flat(got.pattern), want, "parts")


PRINTF = ["%d", "%1$@", "%-5.2f", "%%", "%lld", "%#@v@", "%2$#@w_1@", "%s", "%hhx", "%Lf"]


def xcode(x, k, n, m, where):
    """Placeholders keep their source and are recognised next to any text and within any element"""
    alpha = XMLCH[:-1] + "%]"
    s, t = x.str("s", n, alpha), x.str("t", m, alpha)
    v = PRINTF[k]
    got = list(parse_xcode_pattern(s + v + t))
    want = [s] if s else []
    x.check_eq([e for e in got if isinstance(e, str)], want + ([t] if t else []), "text around a placeholder")
    ph = [e for e in got if isinstance(e, Expression)]
    x.check_eq([e.attributes["source"] for e in ph], [v], "placeholder")
    g, gg = Markup("open", "g", {"id": "1"}), Markup("close", "g")
    p = [*got, g, *got, gg, *got]
    back_ = back(x, PatternMessage(p), where)
    x.check_eq([e for e in back_.pattern if not isinstance(e, str) or e], p, "message")


def lossless(x, pre, n, post):
    """The parts of an Xcode string make up its source"""
    src = pre + x.str("s", n) + post
    got = list(parse_xcode_pattern(src))
    x.obs("got", got)
    x.check_eq("".join([p if isinstance(p, str) else p.attributes["source"] for p in got]), src, "source")
    for p in got:
        x.check(p != "", "no empty parts")
    for a, b in zip(got, got[1:]):
        x.check(not (isinstance(a, str) and isinstance(b, str)), "strings are joined")
    # whatever is not a placeholder has no placeholder in it
    for p in got:
        if isinstance(p, str):
            x.check_eq(list(parse_xcode_pattern(p)), [p], "text")


H = f'<xliff xmlns="{NS}" version="1.2">'
HX = H + '<file original="f.{}"><header><tool tool-id="com.apple.dt.xcode"/></header><body>'
END = "</body></file></xliff>"


def unit(id, s, t=None, note=None):
    return f'<trans-unit id="{id}"><source>{s}</source>' + (f"<target>{t}</target>" if t is not None else "") + (f"<note>{note}</note><note from='x'>{note}y</note>" if note is not None else "") + "</trans-unit>"


XTPL = [
    # strings catalogs
    ("xcstrings", lambda a, b: unit("k", a, b, "n")),
    ("xcstrings", lambda a, b: unit("k", a)),
    ("xcstrings", lambda a, b: unit("k|==|plural.one", "%d" + a, "%d" + b, "n") + unit("k|==|plural.other", a, a + "%d" + b, "n")),
    ("xcstrings", lambda a, b: unit("k|==|plural.one", a) + unit("k|==|plural.other", a, b)),
    ("xcstrings", lambda a, b: unit("k|==|plural.other", a + "%1$lld", b + "%2$@ %1$lld", "m")),
    ("xcstrings", lambda a, b: unit("k|==|device.iphone", a, b, "m") + unit("k|==|device.other", b, a)),
    ("xcstrings", lambda a, b: unit("k", "a%#@v@b", a + "%#@v@" + b, "m") + unit("k|==|substitutions.v.plural.one", "%d" + a, b + "%d", "n") + unit("k|==|substitutions.v.plural.other", a, a + b)),
    ("xcstrings", lambda a, b: unit("k", "a%#@v@b") + unit("k|==|substitutions.v.plural.one", a, b + "%d") + unit("k|==|substitutions.v.plural.other", b, a + "b")),
    ("xcstrings", lambda a, b: unit("k", "a%2$#@v@b", a + "%1$@%2$#@v@" + b) + unit("k|==|substitutions.v.plural.one", "%2$d" + a, b + "%2$d") + unit("k|==|substitutions.v.plural.other", a, "%2$d%1$@")),
    # plural dictionaries
    ("stringsdict", lambda a, b: unit("/k:dict/v:dict/one:dict/:string", a, "%d" + b, "n") + unit("/k:dict/v:dict/other:dict/:string", "%d" + b, a + "%d")),
    ("stringsdict", lambda a, b: unit("/k:dict/NSStringLocalizedFormatKey:dict/:string", a + "%#@v@", "%#@v@" + b, "n") + unit("/k:dict/v:dict/other:dict/:string", "s", a, "m")),
    ("stringsdict", lambda a, b: unit("/k:dict/v:dict/one:dict/:string", a) + unit("/k:dict/v:dict/other:dict/:string", b)),
    # others
    ("strings", lambda a, b: unit("k", a, "%d" + b + "<g id='1'>" + a + "%1$@</g>" + b + "%s", "n")),
]


def units(x, i, n, m, src):
    """Xcode messages come back, with the text of each source, target and note"""
    fn, f = XTPL[i]
    alpha = XMLCH[:-1] + "%<>&]"
    a, b = "s" + x.str("s", n, alpha), x.str("t", m, alpha) + "t"
    source = HX.format(fn) + f(a, b) + END
    res = xliff_parse(source, source_entries=src)
    x.obs("res", res)
    out = "".join(xliff_serialize(res, source_entries=src))
    x.obs("out", out)
    got = xliff_parse(out, source_entries=src)
    x.obs("got", got)
    x.check_eq(got, res, "resource")
    x.check_eq("".join(xliff_serialize(got, source_entries=src)), out, "fixpoint")
    # and nothing is lost when read the other way around
    if i not in (6, 7, 8):
        x.check_eq(xliff_parse(out, source_entries=not src), xliff_parse(source, source_entries=not src), "the other language")
    if not src and i in (0, 1, 2, 3, 4, 5, 12):
        # the translations may be written as the sources
        alt = xliff_parse("".join(xliff_serialize(res, source_entries=True)), source_entries=True)
        x.obs("alt", alt)
        for e, f in zip(entries_of(alt), entries_of(res)):
            if isinstance(f.value, PatternMessage):
                if f.value.pattern:
                    x.check_eq(e.value, f.value, "target as source")
            else:
                for k, p in f.value.variants.items():
                    if p:
                        x.check_eq(e.value.variants[k], p, "target variant as source")
    if "<target>" not in source:
        x.check("<target" not in out or "FormatKey" in source, "what is not translated stays so")
    if i in (0, 12, 2, 3, 5):
        e = entries_of(res)[0]
        norm = [z.replace("\r\n", "\n").replace("\r", "\n") for z in (a, b)]
        a_, b_ = norm
        pats = [[v for v in e.value.pattern]] if isinstance(e.value, PatternMessage) else list(e.value.variants.values())
        got = [joined([p if isinstance(p, str) else p.attributes["source"] for p in q if not isinstance(p, Markup)]) for q in pats]
        if i == 0:
            want = [a_ if src else b_]
        elif i == 12:
            want = [a_] if src else ["%d" + b_ + a_ + "%1$@" + b_ + "%s"]
        elif i == 2:
            want = ["%d" + a_, a_] if src else ["%d" + b_, a_ + "%d" + b_]
        elif i == 3:
            want = [a_, a_] if src else ["", b_]
        else:
            want = [a_, b_] if src else [b_, a_]
        x.check_eq(got, [joined([w]) for w in want], "text")


def ids(x, what, n):
    """Ids, attributes and metadata come back"""
    s = x.str("s", n, XMLCH)
    v = lambda t, m=(): PatternMessage([t])
    sm = [Metadata("source", "k")]
    es = [Entry(("a",), v("A"), meta=list(sm)), Entry(("b",), v("B"), meta=list(sm))]
    res = wrap(es, extra=[Metadata("@xmlns:u", "urn:u")])
    sec = res.sections[0]
    if what == 0:
        es[0].id = (s,)
    elif what == 1:
        sec.id = (s,)
    elif what == 2:
        res.sections += [Section(("f.txt", s), [Entry(("a",), v("C"), meta=list(sm))]), Section(("f.txt", s, s), [Entry(("c",), v("D"), meta=list(sm))]), Section(("g.txt",), [Entry(("a",), v("E"), meta=list(sm))])]
    elif what == 3:
        es[0].meta = [Metadata("@resname", s), Metadata("@xml:space", s), Metadata("@u:foo", s), *sm]
    elif what == 4:
        sec.meta = [Metadata("@datatype", s), Metadata("header/@x", s), Metadata("header/note", "z" + s), Metadata("header/u:p/@u:q", s), Metadata("header/u:p", "z" + s)]
    elif what == 5:
        es[0].meta = [Metadata("source/@xml:lang", s), Metadata("source", "z" + s), Metadata("target/@state", s), Metadata("alt-trans/target", "y" + s), Metadata("alt-trans/target[2]/@a", s), Metadata("alt-trans/target[2]", "x" + s), Metadata("alt-trans[2]/@x", s)]
    elif what == 6:
        es[0].meta = [Metadata("source", "z" + s), Metadata("source/g/@id", s), Metadata("source/g", "y" + s), Metadata("source", s + "w"), Metadata("source/x/@id", s), Metadata("source", "v")]
    elif what == 7:
        res.meta.append(Metadata("@u:foo", s))
        res.meta.insert(1, Metadata("@bar", s))
    elif what == 8:
        es[0].meta += [Metadata("u:x/@u:y", s), Metadata("u:x", "z" + s)]
    elif what == 9:
        es[0].value = v("")
        es[0].meta = [Metadata("source", "z" + s)]
    elif what == 10:
        res.sections.append(Section(("f.txt", "g"), [Entry(("a",), v("C"), meta=list(sm))], meta=[Metadata("@resname", s), Metadata("context-group/@name", s), Metadata("context-group/context", "z" + s)]))
    elif what == 11:
        es[0].value = PatternMessage([Expression(None, attributes={"bin-unit": True})])
        es[0].meta = [Metadata("@mime-type", s), Metadata("bin-source/external-file/@href", s), Metadata("note", "z" + s)]
    got = again(x, res)
    want = [(z.id, z.meta, [(e.id, e.meta, flat(e.value.pattern) if what != 11 or i else e.value) for i, e in enumerate(z.entries)]) for z in res.sections]
    # the default namespace is listed with the other ones, at the end
    x.check_eq([(z.id, z.meta, [(e.id, e.meta, flat(e.value.pattern) if what != 11 or i else e.value) for i, e in enumerate(z.entries)]) for z in got.sections], want, "sections")
    key = lambda m: m.key[:6] == "@xmlns"
    x.check_eq([m for m in got.meta if not key(m)], [m for m in res.meta if not key(m)], "root attributes")
    x.check_eq([m for m in got.meta if key(m)], [m for m in res.meta if key(m)], "namespaces")


def notes(x, what, n):
    """Comments and notes come back, and go when trimmed"""
    c = x.str("c", n, "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f\r\x85\u2028\u2029-]")
    assume_comment(x, c)
    for i in range(n):
        if i == 0 or c[i - 1] == "\n":
            x.assume(x.none(c[i], "re:[^\\S\n]"))
        if i == n - 1 or c[i + 1] == "\n":
            x.assume(x.none(c[i], "re:[^\\S\n]"))
    sm = [Metadata("source", "k")]
    es = [Entry(("a",), PatternMessage(["A"]), meta=list(sm)), Entry(("b",), PatternMessage(["B"] if what != 4 else []), meta=list(sm)), Entry(("c",), PatternMessage(["C"]), meta=list(sm))]
    res = wrap(es)
    res.sections.append(Section(("g.txt",), [Entry(("d",), PatternMessage(["D"]), meta=list(sm))]))
    if what == 0:
        res.comment = c
    elif what == 1:
        res.sections[0].comment = c
    elif what == 2:
        res.sections[1].comment = c
    elif what in (3, 4):
        es[1].comment = c
    elif what == 5:
        es.insert(1, Comment(c))
    elif what == 6:
        es[1].meta += [Metadata("note/@from", "me"), Metadata("note", c + "x")]
        es[1].comment = "me: " + c + "x"
    elif what == 7:
        es[1].meta += [Metadata("note", "x" + c), Metadata("note[2]", c + "x")]
        es[1].comment = "x" + c + "\n\n" + c + "x"
    got = again(x, res)
    x.check_eq(got.comment, res.comment, "resource comment")
    x.check_eq([z.comment for z in got.sections], [z.comment for z in res.sections], "file comments")
    alone = lambda r: [[(i, e.comment) for i, e in enumerate(z.entries) if isinstance(e, Comment)] for z in r.sections]
    x.check_eq(alone(got), alone(res), "standalone comments")
    x.check_eq([(e.id, e.value, e.comment) for e in entries_of(got)], [(e.id, e.value, e.comment) for e in entries_of(res)], "entries")
    trim = xliff_parse("".join(xliff_serialize(res, trim_comments=True)))
    x.check_eq((trim.comment, [z.comment for z in trim.sections], alone(trim)), ("", ["", ""], [[], []]), "trimmed comments")
    x.check_eq([(e.id, e.value, e.comment, e.meta) for e in entries_of(trim)], [(e.id, e.value, "", sm) for e in entries_of(res)], "trimmed entries")


def source(x, pre, n, mid, m, post, src, alpha=None):
    """What was parsed comes back from its serialization"""
    alpha = alpha or XMLCH
    s = H + pre + x.str("s", n, alpha) + mid + x.str("t", m, alpha) + post
    try:
        res = xliff_parse(s, source_entries=src)
    except (ValueError, SyntaxError):
        return
    x.obs("res", res)
    try:
        out = "".join(xliff_serialize(res, source_entries=src))
    except ValueError:
        return
    x.obs("out", out)
    got = xliff_parse(out, source_entries=src)
    x.obs("got", got)
    x.check_eq([(z.id, z.meta, z.comment) for z in got.sections], [(z.id, z.meta, z.comment) for z in res.sections], "sections")
    row = lambda e: e if isinstance(e, Comment) else (e.id, e.comment, e.meta, flat(e.value.pattern))
    x.check_eq([row(e) for z in got.sections for e in z.entries], [row(e) for z in res.sections for e in z.entries], "entries")
    x.check_eq("".join(xliff_serialize(got, source_entries=src)), out, "fixpoint")


FIELDS = ["root", "file comment", "original", "datatype", "tool", "header note", "body comment", "unit comment", "id", "approved", "source", "target", "state", "note", "from", "note 2", "alt", "alt attr", "group", "group attr", "group unit", "prop", "bin", "last comment"]


def reads(x, field, n, src):
    """Each part of a file is read as what it is"""
    f = {}
    for i, name in enumerate(FIELDS):
        f[name] = f"v{i}"
        if name == field:
            # no whitespace at the ends, and nothing that needs an escape
            f[name] = "v" + x.str("s", n, XMLCH[:-1] + "<&\"\t\r\n-" + ("\x20\x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]" if "comment" in name or name == "root" else "]")) + "v"
    if "]]>" in f[field] or "--" in f[field]:
        x.reject()
    text = f"""<!-- {f["root"]} --><xliff version="1.2" xmlns="{NS}" xmlns:p="urn:p">
<!--{f["file comment"]}-->
<file original="{f["original"]}" datatype="{f["datatype"]}" p:x="y"><header><tool tool-id="{f["tool"]}"/><note>{f["header note"]}</note></header><body>
<!-- {f["body comment"]} -->
<trans-unit id="{f["id"]}" approved="{f["approved"]}"><!--{f["unit comment"]}--><source>{f["source"]}</source><target state="{f["state"]}">{f["target"]}</target><note from="{f["from"]}"> {f["note"]}
</note><note>{f["note 2"]}</note><alt-trans><target p:q="{f["alt attr"]}">{f["alt"]}</target></alt-trans><p:prop>{f["prop"]}</p:prop></trans-unit>
<group id="{f["group"]}" restype="{f["group attr"]}"><trans-unit id="b"><source>{f["group unit"]}</source></trans-unit>
<group><trans-unit id="c" xml:space="preserve"><source/><target>c</target></trans-unit></group></group>
<bin-unit id="d" mime-type="m"><bin-source><external-file href="{f["bin"]}"/></bin-source></bin-unit>
<!--{f["last comment"]}--></body></file>
<file original="{f["original"]}2"><body/></file></xliff>"""
    res = xliff_parse(text, source_entries=src)
    x.obs("res", res)
    M = Metadata
    x.check_eq(res.comment, f["root"], "comment of the file")
    x.check_eq(sorted((m.key, m.value) for m in res.meta), [("@version", "1.2"), ("@xmlns", NS), ("@xmlns:p", "urn:p")], "metadata of the file")
    o = f["original"]
    x.check_eq([s.id for s in res.sections], [(o,), (o, f["group"]), (o, f["group"], ""), (o + "2",)], "sections")
    s0, s1, s2, s3 = res.sections
    x.check_eq([s.comment for s in res.sections], [f["file comment"], "", "", ""], "comments of sections")
    x.check_eq(s0.meta, [M("@datatype", f["datatype"]), M("@p:x", "y"), M("header/tool/@tool-id", f["tool"]), M("header/note", f["header note"])], "metadata of the section")
    x.check_eq([s1.meta, s2.meta, s3.meta], [[M("@restype", f["group attr"])], [], []], "metadata of groups")
    target = [M("target/@state", f["state"])] + ([M("target", f["target"])] if src else [])
    unit = Entry(
        (f["id"],),
        PatternMessage([f["source"] if src else f["target"]]),
        comment=f'{f["from"]}: {f["note"]}\n\n{f["note 2"]}',
        meta=[M("@approved", f["approved"]), M("comment()", f["unit comment"])]
        + ([] if src else [M("source", f["source"])])
        + target
        + [M("note/@from", f["from"]), M("note", f' {f["note"]}\n'), M("note[2]", f["note 2"]), M("alt-trans/target/@p:q", f["alt attr"]), M("alt-trans/target", f["alt"]), M("p:prop", f["prop"])],
    )
    binary = Entry(("d",), PatternMessage([Expression(None, attributes={"bin-unit": True})]), meta=[M("@mime-type", "m"), M("bin-source/external-file/@href", f["bin"])])
    want = [Comment(f["body comment"]), unit, binary, Comment(f["last comment"])]
    x.check_eq(s0.entries, want, "entries of the file")
    x.check_eq(s1.entries, [Entry(("b",), PatternMessage([f["group unit"]] if src else []), meta=[] if src else [M("source", f["group unit"])])], "entries of the group")
    x.check_eq(s2.entries, [Entry(("c",), PatternMessage([] if src else ["c"]), meta=[M("@xml:space", "preserve")] + ([M("target", "c")] if src else [M("source", "")]))], "entries of the nested group")
    x.check_eq(s3.entries, [], "no entries")
    # parts of units may be written in another order
    all_of = lambda r: [r.comment, r.meta] + [
        (s.id, s.comment, s.meta, [e if isinstance(e, Comment) else (e.id, e.value, e.comment, sorted(e.meta, key=lambda m: m.key)) for e in s.entries]) for s in r.sections
    ]
    x.check_eq(all_of(again(x, res, src)), all_of(res), "the same file again")


XREADS = [
    # plural strings
    ("xcstrings", "plural", ["zero", "one", "two", "few", "many", "other"]),
    ("xcstrings", "device", ["ipad", "iphone", "mac", "appletv", "applewatch", "other"]),
    ("stringsdict", "plural", ["zero", "one", "two", "few", "many", "other"]),
]


def xreads(x, i, sub, n, src):
    """Xcode variants are read with their keys, in order"""
    ext, kind, cats = XREADS[i]
    cats = [c for c in cats if c == "other" or x.flag(c)]
    id = x.str("id", 1, XMLCH[:-1] + "<&\"\t\r\n:/|]")
    a = {c: "s" + c + x.str("a" + c, n if c == "other" else 0, XMLCH[:-1] + "<&\r%]") for c in cats}
    b = {c: "t" + c + x.str("b" + c, n if c == "one" else 0, XMLCH[:-1] + "<&\r%]") for c in cats}
    body = ""
    if ext == "stringsdict":
        if sub:
            body += unit(f"/{id}:dict/NSStringLocalizedFormatKey:dict/:string", "x%#@v@y", "z%#@v@")
        for c in cats:
            body += unit(f"/{id}:dict/v:dict/{c}:dict/:string", "%d" + a[c], "%d" + b[c])
    else:
        if sub:
            body += unit(id, "x%#@v@y", "z%#@v@")
        for c in cats:
            body += unit(id + "|==|" + ("substitutions.v." if sub else "") + kind + "." + c, "%d" + a[c], "%d" + b[c])
    source = HX.format(ext) + unit("first", "p", "q") * (ext == "xcstrings") + body + END
    res = xliff_parse(source, source_entries=src)
    x.obs("res", res)
    es = entries_of(res)
    if ext == "xcstrings":
        x.check_eq((es[0].id, es[0].value), (("first",), PatternMessage(["p" if src else "q"])), "the entry before")
        es = es[1:]
    x.check(len(es) == 1, "one entry")
    e = es[0]
    x.check_eq(e.id, (id,), "id")
    x.check(isinstance(e.value, SelectMessage) and len(e.value.selectors) == 1 and len(e.value.declarations) == 1, "a message with variants")
    got = [(k[0] if isinstance(k[0], str) else k[0].value, isinstance(k[0], CatchallKey), [p if isinstance(p, str) else p.attributes["source"] for p in v]) for k, v in e.value.variants.items()]
    text = a if src else b
    pre, post = (("x", "y") if src else ("z", "")) if sub and ext == "xcstrings" else ("", "")
    x.check_eq([(k, c) for k, c, _ in got], [(c, c == "other") for c in cats], "the variants in order")
    for (_, _, v), c in zip(got, cats):
        x.check_eq("".join(v), pre + "%d" + text[c] + post, "the text of each variant")
    sel = e.value.declarations[e.value.selectors[0].name]
    x.check((sel.function in ("number", "integer")) == (kind == "plural"), "selector")
    x.check_eq(again(x, res, src), res, "the same file again")


def xmeta(x, i, n, src):
    """Attributes and notes of Xcode units are read as what they are"""
    ext, kind, cats = [("xcstrings", None, [""]), ("xcstrings", "plural", ["one", "other"]), ("xcstrings", "device", ["mac", "other"]), ("xcstrings", "sub", ["", "one", "other"]), ("stringsdict", "plural", ["format", "one", "other"])][i]
    s = x.str("s", n, XMLCH[:-1] + "<&\"\t\r\n]")
    body, meta, comments = "", [], {}
    for c in cats:
        units = x.choice("notes" + c, 4)
        at = f'{s}{c}' if c == "other" or i == 0 else c
        notes = ["", f'<note from="{at}">1{at}</note>', f'<note>1{at}</note><note to="x"/><note>3{at}</note>', f'<note>same{s}</note>'][units]
        base = {"": "", "format": "format/"}.get(c, ("v/" if kind == "sub" else "") + c + "/")
        if kind is None or (kind == "sub" and c == ""):
            id = "k"
        elif ext == "stringsdict":
            id = "/k:dict/NSStringLocalizedFormatKey:dict/:string" if c == "format" else f"/k:dict/v:dict/{c}:dict/:string"
        else:
            id = "k|==|" + ("substitutions.v.plural" if kind == "sub" else kind) + "." + c
        text = "%#@v@" if c == "format" or (c == "" and kind == "sub") else "t" + c
        target = ["U" + text, text, "z" + at][x.choice("form", 3) if c == "format" else 0]
        body += f'<trans-unit id="{id}" approved="{at}"><source>{text}</source><target state="z{at}">{target}</target>{notes}</trans-unit>'
        m = [(base + "@approved", at), (base + "target/@state", "z" + at)]
        if c == "format":
            if target != text:
                m.append((base + "target", target))
        else:
            m.append((base + "target", target) if src else (base + "source", text))
        m += [[], [(base + "note/@from", at), (base + "note", "1" + at)], [(base + "note", "1" + at), (base + "note[2]/@to", "x"), (base + "note[3]", "3" + at)], [(base + "note", "same" + s)]][units]
        meta += m
        if units:
            comments[c] = ["", ("1" + at).strip(), ("1" + at).strip() + "\n\n" + ("3" + at).strip(), ("same" + s).strip()][units]
    res = xliff_parse(HX.format(ext) + body + END, source_entries=src)
    x.obs("res", res)
    es = entries_of(res)
    x.check_eq([e.id for e in es], [("k",)], "one entry")
    row = lambda m: (m[0], m[1])
    x.check_eq(sorted([(m.key, m.value) for m in es[0].meta], key=lambda m: m[0]), sorted(meta, key=lambda m: m[0]), "metadata")
    c = es[0].comment
    if ext == "stringsdict":
        pass
    elif kind is None:
        x.check_eq(c, comments.get("", ""), "notes")
    elif kind != "sub":
        if len(comments) == len(cats) and comments[cats[0]] == comments[cats[1]]:
            x.check_eq(c, comments[cats[0]], "the note of all variants")
        else:
            x.check_eq(c, "\n\n".join(k + ": " + v for k, v in comments.items()), "the notes of each variant")
    else:
        for k, v in comments.items():
            x.check(v in c, "each note")
    x.check_eq(again(x, res, src), res, "the same file again")


def mixed(x, shape, n, m, src):
    """The language that is not the value of an entry keeps its text and inline elements"""
    alpha = XMLCH[:-1] + "<&\r]"
    s, t = x.str("s", n, alpha), x.str("t", m, alpha)
    if "]]>" in s or "]]>" in t:
        x.reject()
    inner = ["%s<x id='1'/>%s<x id='2'/>%s", "%s<g id='1'>%s</g>%s", "<g id='1'>%s<x id='2'/>%s</g>%s", "%s<g id='1'>a<g id='2'>%s</g>b</g> %sc"][shape] % (s, t, s)
    body = '<trans-unit id="a"><source>%s</source><target>%s</target></trans-unit>' % (("k", inner) if src else (inner, "k"))
    text = H + f'<file original="f"><body>' + body + END
    out = "".join(xliff_serialize(xliff_parse(text, source_entries=src), source_entries=src))
    x.obs("out", out)
    want, got = xliff_parse(text, source_entries=not src), xliff_parse(out, source_entries=not src)
    x.check_eq(flat(entries_of(got)[0].value.pattern), flat(entries_of(want)[0].value.pattern), "text and elements")


def again_twice(x, what, src):
    """Xcode units of the same id are not silently dropped"""
    s = x.str("s", 1, XMLCH[:-1] + "<&\r]")
    ids = ["k", "k|==|plural.other", "k|==|device.other", "k|==|substitutions.v.plural.other"][what]
    body = unit(ids, "a" + s, "b" + s) + unit("x", "p", "q") * x.flag("between") + unit(ids, "c", "d")
    if what == 3:
        body = unit("k", "%#@v@", "%#@v@") + body
    try:
        xliff_parse(HX.format("xcstrings") + body + END, source_entries=src)
    except ValueError:
        return
    x.fail("not refused")


def refused(x, what, n):
    """What cannot be written is refused"""
    s = x.str("s", n, XMLCH)
    v = PatternMessage(["v"])
    e = Entry(("i",), v, meta=[Metadata("source", "k")])
    res = wrap([Entry(("h",), v, meta=[Metadata("source", "k")]), e])
    sel = SelectMessage({"v": Expression(VariableRef("v"), "number")}, (VariableRef("v"),), {(CatchallKey(),): ["x"]})
    if what == 0:
        e.id = ()
    elif what == 1:
        e.id = ("a", s)
    elif what == 2:
        res.sections[0].id = ()
    elif what == 3:
        res.sections.append(Section(("f.txt",), []))
    elif what == 4:
        e.meta = [Metadata("note", "z" + s)]
    elif what == 5:
        e.value = PatternMessage([Expression(VariableRef("x"))])
    elif what == 6:
        e.value = PatternMessage([s, Markup("close", "b")])
    elif what == 7:
        e.value = PatternMessage([Markup("open", "a"), s, Markup("close", "b")])
    elif what == 8:
        e.value = PatternMessage([Markup("open", "a", {"b": VariableRef(s)})])
    elif what == 9:
        e.value = sel
    elif what == 10:
        e.value = PatternMessage(v.pattern, {"a": Expression(s)})
    elif what == 11:
        res.meta.append(Metadata("x" + s, "y"))
    elif what == 12:
        e.value = PatternMessage([Markup("open", "foo:a", {}), s, Markup("close", "foo:a")])
    elif what == 13:
        e.value = PatternMessage([Markup("open", "a"), s, Markup("close", "a", {"b": s})])
    elif what == 14:
        res.sections[0].id = ("f.stringsdict",)
        e.value = sel
        sel.declarations["v"] = Expression(VariableRef("v"), "string")
    elif what == 15:
        res.sections[0].id = ("f.xcstrings",)
        e.value = sel
        sel.declarations["v"] = Expression(VariableRef("v"), "f" + s)
    elif what == 16:
        e.value = PatternMessage([s, Markup("open", "a"), s])
    elif what == 17:
        e.value = PatternMessage([Markup("open", "a"), Markup("open", "a"), s, Markup("close", "a"), s])
    try:
        "".join(xliff_serialize(res))
    except ValueError:
        if what in (5, 6, 7, 8, 10, 12, 13, 16, 17):
            try:
                xliff_serialize_message(e.value)
            except ValueError:
                return
            x.fail("message is not refused")
        return
    x.fail("not refused")


def inside(x, shape, n, m):
    """Comments within a message are not a part of it"""
    alpha = XMLCH[:-1] + "\r&<-]"
    s, t, c = x.str("s", n, alpha), x.str("t", m, alpha), x.str("c", 1, alpha)
    if shape == 0:
        src, want = f"{s}<!--{c}-->{t}", [s + t]
    elif shape == 1:
        src, want = f"<g>{s}<!--{c}--></g>{t}", [Markup("open", "g"), s, Markup("close", "g"), t]
    else:
        src, want = f"<!--{c}-->{s}<x/>{t}<!--{c}-->", [s, Markup("standalone", "x"), t]
    if "]]>" in src:
        x.reject()
    x.check_eq(flat(xliff_parse_message(src).pattern), flat(want), "message")
    got = xliff_parse(f'{H}<file original="f"><body>' + unit("k", "k", src) + END)
    x.check_eq(flat(entries_of(got)[0].value.pattern), flat(want), "unit")


def twice(x, what, n):
    """No text is passed over without notice"""
    s, t = x.str("s", n, XMLCH[:-1] + "<&\r]"), x.str("t", n, XMLCH[:-1] + "<&\r]")
    if "]]>" in s or "]]>" in t:
        x.reject()
    src = what == 1
    if what == 0:
        body = f'<file original="f"><body><trans-unit id="a"><source>k</source><target>{s}</target><target>{t}</target></trans-unit></body></file>'
    elif what == 1:
        body = f'<file original="f"><body><trans-unit id="a"><source>{s}</source><source>{t}</source></trans-unit></body></file>'
    elif what == 2:
        body = f'<file original="f"><body/><body>{unit("a", s, t)}</body></file>'
    elif what == 3:
        body = f'<file original="f"><body>{unit("a", s, t)}</body><body>{unit("b", s, t)}</body></file>'
    elif what == 4:
        body = f'<file original="f"><body>{unit("a", "k", "t")}x{s}</body></file>'
    elif what == 5:
        body = f'<file original="f"><body><trans-unit id="a">x{s}<source>k</source></trans-unit></body></file>'
    elif what == 6:
        body = f'<file original="f">x{s}<body/></file>'
    elif what == 7:
        body = f'<file original="f"><body/>x{s}</file>'
    elif what == 8:
        body = f'<file original="f"><body/></file>x{s}'
    elif what == 9:
        body = f'<file original="f"><body><group id="g">{unit("a", "k", "t")}x{s}</group></body></file>'
    elif what == 10:
        body = f'<file original="f"><body><trans-unit id="a"><source>k</source>x{s}</trans-unit></body></file>'
    try:
        xliff_parse(H + body + "</xliff>", source_entries=src)
    except ValueError:
        return
    x.fail("not refused")


def cases(tier):
    d = 1 if tier == "thorough" else 0
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for where in range(7):
        for n in range(0, 4 + d):
            add("text", f"{n}-{where}", pre="", n=n, post="", where=where)
        for i, (pre, n, post) in enumerate([("<g>", 2, ""), (" a", 1, " \n"), ("%", 2, "d"), ("&", 1, "lt;"), ("]]", 1, ">")]):
            add("text", f"tpl{i}-{where}", pre=pre, n=n + d, post=post, where=where)
    for where in (0, 1):
        for n in (1, 2):
            add("unxml", f"{n}-{where}", n=n, where=where)
    for shape in range(14):
        for n, m in ((1, 1), (2, 0), (0, 2)) if not d else ((1, 2), (2, 1), (3, 0), (0, 3)):
            for where in (0, 2, 3) if not d else (0, 2, 3, 6):
                add("pieces", f"{shape}-{n}{m}-{where}", shape=shape, n=n, m=m, where=where)
    for k in range(len(PRINTF)):
        for n, m in ((1, 1), (0, 2)) if not d else ((1, 2), (2, 1), (0, 3)):
            for where in (1, 4):
                add("xcode", f"{k}-{n}{m}-{where}", k=k, n=n, m=m, where=where)
    for i, (pre, n, post) in enumerate([("", 3, ""), ("%", 3, ""), ("%1$", 2, "d"), ("%#@", 2, "@"), ("%d", 2, "%@"), ("%.", 2, "f")]):
        add("lossless", f"{i}", pre=pre, n=n + d, post=post)
    for i in range(len(XTPL)):
        for n, m in ((1, 0), (0, 1), (1, 1)) if not d else ((2, 0), (0, 2), (1, 1), (2, 1)):
            for src in (False, True):
                add("units", f"{i}-{n}{m}-{'source' if src else 'target'}", i=i, n=n, m=m, src=src)
    for what in range(12):
        for n in range(0, 3 + d):
            add("ids", f"{what}-{n}", what=what, n=n)
    for what in range(8):
        for n in range(1 if what == 5 else 0, 4 + d):
            add("notes", f"{what}-{n}", what=what, n=n)
    F = '<file original="f"><body>'
    U = '<trans-unit id="a"><source>k</source><target>'
    V = "</target></trans-unit>" + END
    for i, (pre, n, mid, m, post) in enumerate([
        (F + U, 3, "", 0, V), (F + U, 1, "<g id='1'>", 1, "</g><x id='2'/>" + V), (F + U, 1, "<!-- c -->", 1, V), (F + U, 1, "<![CDATA[", 2, "]]>" + V), (F + U + "&", 2, ";", 0, V), (F + U + "&#", 2, ";", 0, V),
        (F + "<!--", 2, "-->", 1, U + V), (F + "<trans-unit id='a", 1, "' ", 2, "><source/>" + V[9:]), (F + U + "x</target>", 1, "<note>", 1, "</note></trans-unit>" + END), (F + "<group id='", 1, "'>", 1, U + "x</target></trans-unit></group>" + END),
        (F + U + "<f:g xmlns:f='urn:f' f:a='", 1, "'>", 1, "</f:g>" + V), (F + U + "<ph>", 1, "</ph><?pi?>", 1, "<g/>" + V), ("<!--", 2, "-->", 1, F + U + V), (F + '<trans-unit id="a"><source>', 1, "<g/>", 1, "</source></trans-unit>" + END), (F + '<trans-unit id="a"><source/><target>', 1, "</target><target>", 1, V),
    ]):
        for src in (False, True):
            add("source", f"{i}-{'source' if src else 'target'}", pre=pre, n=n + d, mid=mid, m=m, post=post, src=src)
    for shape in range(3):
        for n, m in ((1, 1), (1, 0), (0, 1)):
            add("inside", f"{shape}-{n}{m}", shape=shape, n=n + d, m=m)
    for what in range(11):
        for n in (0, 1, 2):
            add("twice", f"{what}-{n}", what=what, n=n)
    for what in range(18):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    for field in FIELDS:
        for src in (False, True):
            for n in (1, 2 + d):
                add("reads", f"{field}-{n}-{'source' if src else 'target'}", field=field, n=n, src=src)
    for i in range(5):
        for src in (False, True):
            for n in (0, 1):
                add("xmeta", f"{i}-{n}-{'source' if src else 'target'}", i=i, n=n + d * n, src=src)
    for shape in range(4):
        for n, m in ((0, 0), (1, 1), (2, 0), (0, 2)):
            for src in (False, True):
                add("mixed", f"{shape}-{n}{m}-{'source' if src else 'target'}", shape=shape, n=n + d if n else 0, m=m, src=src)
    for what in range(4):
        for src in (False, True):
            add("again_twice", f"{what}-{'source' if src else 'target'}", what=what, src=src)
    for i in range(len(XREADS)):
        for sub in (False, True) if i != 1 else (False,):
            for src in (False, True):
                add("xreads", f"{i}-{sub}-{'source' if src else 'target'}", i=i, sub=sub, n=d, src=src)
    return out
