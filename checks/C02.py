from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.dtd.serialize import dtd_serialize
from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section

from checks.common import entries_of

BOUNDS = {
    "quick": "entity names of 0-4 characters, values of 0-5 characters (and templates around <!-- and --> with 4 more), comments of 0-4 characters, includes with keys of 1-2 and values of 0-2 characters, all over every Unicode scalar value; "
    "source texts of 0-5 free characters and the listed templates with 3-5 free characters",
    "thorough": "as quick with one more free characters each",
}
ASSUMPTIONS = [
    "comments come back up to the indentation of their lines and the zero-width spaces that keep double dashes apart, as the serializer documents",
    "a double quote in a value that has both kinds of quotes comes back as &quot;, which is the same DTD value",
]

START = "re:[:A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd]"
CHAR = "re:[:A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd.0-9\xb7\u0300-\u036f\u203f-\u2040-]"


def is_name(x, s):
    return x.all([len(s) > 0 and x.inset(s[0], START), x.only(s, CHAR)])


def expected(value):
    return value.replace('"', "&quot;") if '"' in value and "'" in value else value


def text(e):
    out = ""
    for p in e.value.pattern:
        out = out + p
    return out


def lines(comment):
    """A comment as it may come back"""
    return [line.strip() for line in comment.replace("--", "-\u200b-\u200b").strip().split("\n")]


def entry(x, parts, k, pre, v, post):
    """One entity: refused exactly for bad names, otherwise it comes back"""
    ids = [x.str(f"id{i}", k) for i in range(parts)]
    val = pre + x.str("val", v) + post
    sid, eid = tuple(ids[:-1]), tuple(ids[-1:])
    if parts == 3:
        sid, eid = tuple(ids[:1]), tuple(ids[1:])
    name = ids[0]
    for i in ids[1:]:
        name = name + "." + i
    res = Resource(None, [Section(sid, [Entry(eid, PatternMessage([val]))])])
    try:
        out = "".join(dtd_serialize(res))
    except ValueError:
        x.check(x.implies(is_name(x, name), False), "a valid name is accepted")
        return
    x.obs("out", out)
    x.check(is_name(x, name), "an invalid name is refused")
    got = dtd_parse(out)
    x.obs("got", got)
    es = [e for s in got.sections for e in s.entries]
    x.check(len(es) == 1 and isinstance(es[0], Entry), "one entry")
    x.check_eq(es[0].id, (name,), "name")
    x.check_eq(text(es[0]), expected(val), "value")
    x.check(got.comment == "" and es[0].comment == "" and got.meta == [], "nothing else")
    x.check_eq("".join(dtd_serialize(got)), out, "fixpoint")


def several(x, vpre, v, vpost, c1, c2, c3, alpha="scalar"):
    """Values and comments of successive entries do not run together"""
    v1, v2 = vpre + x.str("v1", v, alpha) + vpost, vpre + x.str("v2", 1, alpha) + vpost
    ca, cs, cb = x.str("ca", c1, alpha), x.str("cs", c2, alpha), x.str("cb", c3, alpha)
    for c in (ca, cs, cb):
        x.assume(x.only(c, "scalar--<>!"))
        if len(c):
            x.assume(x.none(c[0] + c[len(c) - 1], "re:\\s"))
    a, b = Entry(("a",), PatternMessage([v1]), comment=ca), Entry(("b.c",), v2, comment=cb)
    res = Resource(None, [Section((), [a, Comment(cs), b] if c2 else [a, b])])
    out = "".join(dtd_serialize(res))
    x.obs("out", out)
    got = dtd_parse(out)
    es = [e for s in got.sections for e in s.entries]
    x.check(len(es) == (3 if c2 else 2), "number of entries")
    x.check_eq([e.id for e in es if isinstance(e, Entry)], [("a",), ("b.c",)], "names")
    x.check_eq([text(e) for e in es if isinstance(e, Entry)], [expected(v1), expected(v2)], "values")
    want = [ca, cs, cb] if c2 else [ca, cb]
    x.check_eq([lines(e.comment) for e in es], [lines(c) for c in want], "comments")
    x.check(got.comment == "", "no resource comment")
    x.check_eq("".join(dtd_serialize(got)), out, "fixpoint")
    trim = dtd_parse("".join(dtd_serialize(res, trim_comments=True)))
    x.check_eq([(e.id, text(e), e.comment) for s in trim.sections for e in s.entries], [(("a",), expected(v1), ""), (("b.c",), expected(v2), "")], "trimmed")


def header(x, c0, metas, c1, c2, second):
    """The resource comment, includes, section comments and the first entry"""
    com = [x.str(f"c{i}", n) for i, n in enumerate((c0, c1, c2))]
    for c in com:
        x.assume(x.only(c, "re:[^\\s<>!\\-\ud800-\udfff]"))
    keys = [x.str(f"k{i}", n) for i, n in enumerate(metas)]
    vals = [x.str(f"m{i}", 1) for i, n in enumerate(metas)]
    secs = [Section((), [Entry(("a",), PatternMessage(["x"]), comment=com[2])], com[1])]
    if second:
        secs.append(Section(("s",), [Entry(("b",), PatternMessage(["y"]))], com[1]))
    res = Resource(None, secs, com[0], [Metadata(k, v) for k, v in zip(keys, vals)])
    try:
        out = "".join(dtd_serialize(res))
    except ValueError:
        x.check(x.any([x.implies(is_name(x, k), False) for k in keys]), "not refused")
        return
    x.obs("out", out)
    for k in keys:
        x.check(is_name(x, k), "names of includes")
    got = dtd_parse(out)
    x.obs("got", got)
    x.check_eq([(m.key, m.value) for m in got.meta], [(k, expected(v)) for k, v in zip(keys, vals)], "includes")
    want = [c for c in com[:2] if c] + ([com[1]] if second and com[1] else [])
    es = [e for s in got.sections for e in s.entries]
    comments = [got.comment] if got.comment else []
    x.check_eq(comments + [e.comment for e in es if not isinstance(e, Entry)], want, "standalone comments")
    x.check_eq([(e.id, text(e), e.comment) for e in es if isinstance(e, Entry)], [(("a",), "x", com[2])] + ([(("s.b",), "y", "")] if second else []), "entries")
    if com[0]:
        x.check_eq(got.comment, com[0], "resource comment")


def anycomment(x, pre, c, post, kind):
    """No comment text, however odd, adds, removes or changes a message"""
    com = pre + x.str("com", c) + post
    a, b = Entry(("a",), PatternMessage(["x"])), Entry(("b",), PatternMessage(["y"]))
    res = Resource(None, [Section((), [a, b])])
    if kind == 0:
        b.comment = com
    elif kind == 1:
        res.sections[0].entries.insert(1, Comment(com))
    elif kind == 2:
        res.comment = com
    else:
        res.sections[0].comment = com
    out = "".join(dtd_serialize(res))
    x.obs("out", out)
    got = dtd_parse(out)
    x.check_eq([(e.id, text(e)) for e in entries_of(got)], [(("a",), "x"), (("b",), "y")], "messages")
    trim = dtd_parse("".join(dtd_serialize(res, trim_comments=True)))
    x.check_eq([(e.id, text(e)) for e in entries_of(trim)], [(("a",), "x"), (("b",), "y")], "trimmed messages")
    x.check(all(e.comment == "" for s in trim.sections for e in s.entries) and trim.comment == "", "trimmed comments")


def source(x, pre, n, mid, m, post, alpha="scalar"):
    """Any text is refused with a ValueError, or is a fixpoint with the same messages"""
    src = pre + x.str("s", n, alpha) + mid + x.str("t", m, alpha) + post
    try:
        res = dtd_parse(src)
    except ValueError:
        return
    x.obs("res", res)
    out = "".join(dtd_serialize(res))
    again = dtd_parse(out)
    x.check_eq([(e.id, text(e)) for e in entries_of(again)], [(e.id, text(e)) for e in entries_of(res)], "messages come back")
    x.check_eq(again.meta, res.meta, "includes come back")
    for e in entries_of(res):
        x.check(is_name(x, e.id[0]), "entity name")
        q = text(e)
        x.check('"' not in q or "'" not in q, "a value does not have both quotes")
        x.check(('"' + q + '"') in src or ("'" + q + "'") in src, "the value is quoted in the source")
    x.check_eq("".join(dtd_serialize(again)), out, "fixpoint")


def reads(x, ws, v, q):
    """A file is read as DTD means it: what is inside quotes is a value, and what is in comments is not"""
    w = [x.str(f"w{i}", n, "re:[ \\t\\r\\n]") for i, n in enumerate(ws)]
    quote = "\"'"[q]
    val = x.str("val", v)
    x.assume(x.none(val, quote))
    c = x.str("c", 2)
    x.assume(x.none(c, "-<>! \t\r\n"))
    x.assume(x.none(c[0] + c[1], "re:\\s"))
    src = f"{w[0]}<!--{c}-->{w[1]}<!ENTITY {w[2]}a{w[3]}\t{quote}{val}{quote}{w[4]}>\n\n<!-- <!ENTITY no 'v'> -->\n<!ENTITY b '<!--'>"
    res = dtd_parse(src)
    x.obs("res", res)
    x.check_eq([(e.id, text(e)) for e in entries_of(res)], [(("a",), val), (("b",), "<!--")], "messages")
    es = [e for s in res.sections for e in s.entries]
    if w[1].count("\n") > 1:
        x.check_eq(res.comment, c, "a comment before an empty line is a resource comment")
        x.check_eq(es[0].comment, "", "and not one of the entry")
    else:
        x.check_eq(es[0].comment, c, "a comment just before an entity is its own")
        x.check_eq(res.comment, "", "no resource comment")
    x.check_eq([e.comment for e in es][1:], ["<!ENTITY no 'v'>", ""], "comments")


def cases(tier):
    t = tier == "thorough"
    out = []
    d = 3 if t else 2

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for k in range(0, 3 + d):
        add("entry", f"name-{k}", parts=1, k=k, pre="", v=0, post="")
    add("entry", "name-2parts", parts=2, k=1, pre="", v=0, post="")
    add("entry", "name-3parts", parts=3, k=1, pre="", v=0, post="")
    for v in range(0, 4 + d):
        add("entry", f"value-{v}", parts=1, k=1, pre="", v=v, post="")
    for i, (pre, post) in enumerate([("<!--", ""), ("<!--", "-->"), ("", "-->"), ("<!ENTITY b ", ">"), ("'", '"'), ("<!--", "--><!--"), ("\"><!ENTITY b '", "'>"), ("<", "!-- x -->"), ("%a;", "")]):
        add("entry", f"tpl-{i}", parts=1, k=1, pre=pre, v=2 + d, post=post)
    for v, c1, c2, c3 in [(1, 0, 0, 0), (1, 1, 0, 1), (1, 1, 1, 1), (0, 2, 2, 0), (0, 0, 2, 2), (2, 0, 1, 0), (0, 3, 0, 0), (0, 0, 3, 0)]:
        add("several", f"{v}{c1}{c2}{c3}", vpre="", v=v, vpost="", c1=c1, c2=c2, c3=c3)
    for i, (pre, post) in enumerate([("<!--", ""), ("", "-->"), ("<!-- ", "-->")]):
        add("several", f"tpl-{i}", vpre=pre, v=1, vpost=post, c1=1, c2=1, c3=1)
    for c0, metas, c1, c2 in [(0, [], 0, 0), (1, [], 0, 0), (1, [], 1, 0), (1, [], 0, 1), (1, [], 1, 1), (0, [1], 0, 0), (1, [1], 0, 1), (0, [1, 1], 0, 0), (1, [1, 2], 1, 1), (0, [2], 1, 0), (0, [1, 1], 1, 1), (0, [0], 0, 0)]:
        for second in (0, 1):
            add("header", f"{c0}{metas}{c1}{c2}{second}", c0=c0, metas=metas, c1=c1, c2=c2, second=second)
    for kind in range(4):
        for c in range(1, 3 + d):
            add("anycomment", f"{kind}-{c}", pre="", c=c, post="", kind=kind)
        for i, (pre, post) in enumerate([("-", "-"), ("--", ">"), ("", "->"), ("<!--", ""), ("", "-->"), ("<!ENTITY b ", "'x'>"), ("-->\n<!ENTITY b", " 'x'>")]):
            add("anycomment", f"{kind}-tpl{i}", pre=pre, c=1 + d, post=post, kind=kind)
    for n in range(0, 7 if t else 6):
        add("source", n, pre="", n=n, mid="", m=0, post="")
    for i, (pre, n, mid, m, post) in enumerate(
        [
            ("<!ENTITY a ", 3, "", 0, ">"), ("<!ENTITY", 3, "'x'>", 0, ""), ("<!ENTITY a 'x'>", 2, "<!-- c -->", 2, "<!ENTITY b 'y'>"), ("<!-- c -->", 3, "<!ENTITY a 'x'>", 1, ""),
            ("<!--", 3, "-->", 1, "<!ENTITY a 'x'>"), ("<!-- c -->", 2, "<!-- d -->", 2, "<!ENTITY a 'x'>"), ("<!ENTITY % a SYSTEM 'x'>", 2, "%a;", 2, "<!ENTITY b 'y'>"),
            ("<!ENTITY a 'x'>", 1, "<!-- c -->", 1, "<!-- d -->"), ("<!ENTITY a '<!--", 1, "'>", 1, "<!-- --><!ENTITY b '-->'>"), ("<", 1, "-- c --", 1, "><!ENTITY a 'x'>"), ("<!ENTITY a ", 1, "x", 1, "><!ENTITY b 'y'>"),
            ("<!-- c -->\n<!ENTITY % a SYSTEM 'x'>\n%a;", 2, "<!-- d -->", 2, "<!ENTITY b 'y'>"), ("<!ENTITY a 'x'><!-- ", 2, " -->", 1, ""), ("<!--\n", 2, "\n", 1, "\n--><!ENTITY a 'x'>"),
        ]
    ):
        add("source", f"tpl-{i}", pre=pre, n=n + d, mid=mid, m=m, post=post)
    for i, ws in enumerate([[0, 0, 0, 0, 0], [1, 2, 0, 0, 1], [0, 3, 1, 0, 0], [0, 1, 1, 1, 0]]):
        for q in (0, 1):
            add("reads", f"{i}-{q}", ws=ws, v=2 if i == 0 else 1, q=q)
    return out
