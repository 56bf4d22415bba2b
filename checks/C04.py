from iniparse.ini import INISection
from moz.l10n.formats.ini.parse import ini_parse as parse_ini
from moz.l10n.formats.ini.serialize import ini_serialize
from moz.l10n.model import Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, VariableRef

from checks.common import entries_of

BOUNDS = {
    "quick": "ids of 0-4 characters, values of 0-5, comments of 0-3, over every Unicode scalar value; source texts of 0-5 free characters and the listed templates with 2-5 free characters",
    "thorough": "as quick with one more free character",
}
ASSUMPTIONS = [
    "ids with brackets, colons or equals signs, or whitespace around them, may be refused, as the serializer documents",
    "values come back without whitespace around their lines, and comments without trailing whitespace or empty lines around them",
    "the real iniparse package is executed symbolically; io.StringIO is represented by a model of it in symbolic runs",
]


def ini_parse(src):
    INISection._compat_skip_empty_lines.clear()  # state of iniparse that is shared by all paths, and not used by moz.l10n
    return parse_ini(src)


def text(e):
    out = ""
    for p in e.value.pattern:
        out = out + p
    return out


def all_of(res):
    return [e for s in res.sections for e in s.entries]


def shape(res):
    """What has to be the same"""
    return [
        (
            s.id,
            s.comment.strip("\n"),
            [(e.id, text(e), e.comment.strip("\n")) if isinstance(e, Entry) else e.comment.strip("\n") for e in s.entries],
        )
        for s in res.sections
    ]


def ids(x, k, s, kind):
    """An id is refused, or comes back"""
    key, sec = x.str("key", k), x.str("sec", s)
    res = Resource(None, [Section((sec,), [Entry((key,), PatternMessage(["v"])), Entry(("z", "y"), "last")])])
    try:
        out = "".join(ini_serialize(res))
    except ValueError:
        if k and s:
            sp = "re:[\\s\\[\\]:=]"
            x.check(
                x.any([x.implies(x.none(key + sec, sp), False), x.inset(key[0], ";#rR")]),
                "plain ids are accepted",
            )
        return
    x.obs("out", out)
    x.check(k > 0 and s > 0, "empty ids are refused")
    got = ini_parse(out)
    x.check_eq(shape(got), [((sec,), "", [((key,), "v", ""), (("z.y",), "last", "")])], "the entries come back")
    x.check_eq("".join(ini_serialize(got)), out, "fixpoint")


def value(x, pre, v, post):
    """A value with any contents is refused, or its lines come back"""
    val = pre + x.str("val", v) + post
    res = Resource(None, [Section(("s",), [Entry(("a",), PatternMessage([val])), Entry(("z",), PatternMessage(["last"]))])])
    want = "\n".join([line.strip() for line in val.rstrip().split("\n")])
    try:
        out = "".join(ini_serialize(res))
    except ValueError:
        x.check(";" in val, "only for what would be a comment")
        return
    x.obs("out", out)
    got = ini_parse(out)
    x.check_eq(shape(got), [(("s",), "", [(("a",), want, ""), (("z",), "last", "")])], "the value comes back")
    x.check_eq(shape(ini_parse("".join(ini_serialize(got)))), shape(got), "again")


def comments(x, c0, c1, c2, c3, alpha="scalar"):
    """Comments come back where they were"""
    com = [x.str(f"c{i}", n, alpha) for i, n in enumerate((c0, c1, c2, c3))]
    for c in com:
        for i in range(len(c)):
            sp = x.implies(x.inset(c[i], "re:\\s"), False)
            nl = x.inset(c[i], "\n")
            x.assume(x.none(c[i], "#"))
            if i == 0 or i == len(c) - 1:
                x.assume(sp)
            else:
                x.assume(x.any([nl, sp, x.none(c[i + 1], "\n")]))
    es = [Entry(("a",), PatternMessage(["x"]), comment=com[2])]
    if c3:
        es.append(Comment(com[3]))
    es.append(Entry(("b",), PatternMessage(["y\nz"])))
    res = Resource(None, [Section(("s",), es, com[1]), Section(("t",), [Entry(("b",), PatternMessage(["y"]))], com[3])], com[0])
    out = "".join(ini_serialize(res))
    x.obs("out", out)
    got = ini_parse(out)
    x.obs("got", got)
    x.check_eq(got.comment, com[0], "resource comment")
    x.check_eq([s.comment for s in got.sections], [com[1], com[3]], "section comments")
    x.check_eq([[e.comment for e in s.entries] for s in got.sections], [[com[2], com[3], ""] if c3 else [com[2], ""], [""]], "comments")
    x.check_eq([(e.id, text(e)) for e in entries_of(got)], [(("a",), "x"), (("b",), "y\nz"), (("b",), "y")], "messages")
    trim = ini_parse("".join(ini_serialize(res, trim_comments=True)))
    x.check_eq(trim.comment, "", "trimmed resource comment")
    x.check_eq(shape(trim), [(("s",), "", [(("a",), "x", ""), (("b",), "y\nz", "")]), (("t",), "", [(("b",), "y", "")])], "trimmed")


def anycomment(x, pre, c, post, kind):
    """No comment text, however odd, adds, removes or changes a message"""
    com = pre + x.str("com", c) + post
    a, b = Entry(("a",), PatternMessage(["x"])), Entry(("b",), PatternMessage(["y"]))
    res = Resource(None, [Section(("s",), [a, b])])
    if kind == 0:
        b.comment = com
    elif kind == 1:
        res.sections[0].entries.insert(1, Comment(com))
    elif kind == 2:
        res.comment = com
    else:
        res.sections[0].comment = com
    for trim in (False, True):
        out = "".join(ini_serialize(res, trim_comments=trim))
        x.obs("out", out)
        got = ini_parse(out)
        x.check_eq([s.id for s in got.sections], [("s",)], "sections")
        x.check_eq([(e.id, text(e)) for e in entries_of(got)], [(("a",), "x"), (("b",), "y")], "messages")


def source(x, pre, n, mid, m, post, alpha="scalar"):
    """What was parsed comes back from its serialization"""
    src = pre + x.str("s", n, alpha) + mid + x.str("t", m, alpha) + post
    try:
        res = ini_parse(src)
    except Exception:  # as documented by the tests: the errors of iniparse and ValueError
        return
    x.obs("res", res)
    try:
        out = "".join(ini_serialize(res))
    except ValueError:
        odd = False
        for s in res.sections:
            for name in [s.id[0]] + [e.id[0] for e in s.entries if isinstance(e, Entry)]:
                if name.strip() != name or "[" in name or "]" in name or ":" in name or "=" in name or "\n" in name:
                    odd = True
        x.check(odd, "a parsed resource is serialized")
        return
    x.obs("out", out)
    again = ini_parse(out)
    x.check_eq(shape(again), shape(res), "the resource comes back")
    x.check_eq(again.comment.strip("\n"), res.comment.strip("\n"), "the resource comment comes back")
    x.check_eq("".join(ini_serialize(again)), out, "fixpoint")


def reads(x, n, w):
    """Every line is read as what it is"""
    key, val = x.str("key", 2, "re:[^\\s;#:=\\[\\]rR\ud800-\udfff]"), x.str("val", n, "re:[^\\s;\ud800-\udfff]")
    sp = x.str("sp", w, " \t")
    c = x.str("c", 2, "re:[^\\s\ud800-\udfff]")
    sep = "=:"[x.choice("sep", 2)]
    mark = "#;"[x.choice("mark", 2)]
    br = ["\n", "\r\n"][x.choice("br", 2)]
    inline = x.flag("inline")
    src = f"{mark} {c}{br}[{key}]{br}{br}{mark}{c}{br}{br}{mark} {c}{br}{key}{sp}{sep}{sp}{val}{' ;' + c if inline else ''}{br}  {val}x{br}{br} y{br}{br}"
    res = ini_parse(src)
    x.obs("res", res)
    x.check_eq(
        shape(res),
        [((key,), c, [c, ((key,), val + "\n" + val + "x\n\ny", c + "\n" + c if inline else c)])],
        "contents",
    )


def refused(x, what, n):
    s = x.str("s", n)
    e = Entry(("a",), PatternMessage(["v"]))
    res = Resource(None, [Section(("s",), [e])])
    if what == 0:
        e.id = ()
    elif what == 1:
        e.id = (s + "=", "a")
    elif what == 2:
        res.sections[0] = Section((), [e])
    elif what == 3:
        e.value = PatternMessage([s, Expression(VariableRef(s))])
    elif what == 4:
        res.meta.append(Metadata(s, s))
    elif what == 5:
        res.sections[0].meta.append(Metadata(s, s))
    elif what == 6:
        e.meta.append(Metadata(s, s))
    elif what == 7:
        e.id = ("re", s)
        e.id = ("rem" + s,)
    elif what == 8:
        e.id = ("a", s + "\n" + s, "b")
    elif what == 9:
        res.sections[0] = Section(("a" + s + "]" + s,), [e])
    try:
        "".join(ini_serialize(res))
    except ValueError:
        return
    x.fail("not refused")


def cases(tier):
    t = tier == "thorough"
    out = []
    d = 2 if t else 1

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for k in range(0, 4 + d):
        add("ids", f"key-{k}", k=k, s=1, kind=0)
        add("ids", f"sec-{k}", k=1, s=k, kind=0)
    for v in range(0, 5 + d):
        add("value", v, pre="", v=v, post="")
    for i, (pre, post) in enumerate([("a", ";b"), ("\n", "\n"), ("[", "]"), ("#", "b=c"), ("a\n", "[t]"), ("a\n", ";x"), (";", ";"), ("a\n", "\nb=c")]):
        add("value", f"tpl-{i}", pre=pre, v=2 + d, post=post)
    for c in [(0, 0, 0, 0), (1, 1, 1, 1), (2, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (0, 0, 0, 2), (3, 0, 0, 0), (0, 3, 0, 0), (0, 0, 3, 0), (0, 0, 0, 3)]:
        add("comments", "".join(str(n) for n in c), c0=c[0], c1=c[1], c2=c[2], c3=c[3])
    for kind in range(4):
        for c in range(1, 3 + d):
            add("anycomment", f"{kind}-{c}", pre="", c=c, post="", kind=kind)
        for i, (pre, post) in enumerate([("", "b=x"), ("a\n", "\nb=c"), ("[", "]"), ("\n", "  b")]):
            add("anycomment", f"{kind}-tpl{i}", pre=pre, c=1 + d, post=post, kind=kind)
    for n in range(0, 5 + d):
        add("source", n, pre="", n=n, mid="", m=0, post="")
    for i, (pre, n, mid, m, post) in enumerate(
        [
            ("[s]\n", 4, "", 0, ""), ("[s]\n", 1, "=", 3, ""), ("[s]\na=", 2, "\n", 2, ""), ("[s]\na=b", 2, "c", 2, ""), ("[", 2, "]", 2, ""), ("[s]\nr", 2, "m=", 1, ""), ("#", 2, "\n", 1, "[s]\na=b"),
            ("[s]\n#", 2, "\n", 1, "a=b"), ("[s]\na=b\n", 1, ";c\n", 1, "[t]"), ("[s]\na=b\n", 2, "c\n", 1, " d"), ("[s]\na=b;", 2, ";", 1, "c"), ("[s]", 3, "\na=b", 1, ""), ("#a\n\n#", 1, "\n", 1, "#b\n[s]"),
            ("[s]\na=b", 1, ";", 1, "\n;c\nd=e"),
        ]
    ):
        add("source", f"tpl-{i}", pre=pre, n=n + d, mid=mid, m=m, post=post)
    for n in range(0, 3):
        for w in (0, 1, 2):
            if n:
                add("reads", f"{n}-{w}", n=n, w=w)
    for what in range(10):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    return out
