from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.inc.serialize import inc_serialize
from moz.l10n.model import Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, VariableRef

from checks.common import entries_of

BOUNDS = {
    "quick": "names of 0-3 characters, values of 0-5 characters, comments of 0-4 characters, and templates with up to 4 free characters, over every Unicode scalar value; source texts of 0-6 free characters and the listed templates with 2-5",
    "thorough": "as quick with one more free character",
}
ASSUMPTIONS = [
    "a line break in a value is written as a space, as the format has no line breaks in values",
    "comment lines come back without their leading and trailing whitespace",
]


def text(e):
    out = ""
    for p in e.value.pattern:
        out = out + p
    return out


def flat(v):
    return v.replace("\r\n", " ").replace("\r", " ").replace("\n", " ")


def all_of(res):
    return [e for s in res.sections for e in s.entries]


def entry(x, k, pre, v, post, plain):
    name = x.str("name", k)
    val = pre + x.str("val", v) + post
    res = Resource(None, [Section((), [Entry((name,), val if plain else PatternMessage([val])), Entry(("z",), PatternMessage(["last"]))])])
    try:
        out = "".join(inc_serialize(res))
    except ValueError:
        x.check(x.any([k == 0, x.implies(x.only(name, "re:\\w"), False)]), "a name is accepted")
        return
    x.check(k > 0 and x.only(name, "re:\\w"), "not a name")
    x.obs("out", out)
    got = inc_parse(out)
    x.check_eq([(e.id, text(e), e.comment) for e in all_of(got)], [((name,), flat(val), ""), (("z",), "last", "")], "the entries come back")
    x.check_eq("".join(inc_serialize(got)), out, "fixpoint")


def comments(x, c1, c2, c3, v):
    """Comments of the documented shape come back where they were"""
    ca, cs, cb = x.str("ca", c1), x.str("cs", c2), x.str("cb", c3)
    for c in (ca, cs, cb):
        for i in range(len(c)):
            edge = i in (0, len(c) - 1)
            x.assume(x.none(c[i], "\r#"))
            nl = x.inset(c[i], "\n")
            sp = x.implies(x.inset(c[i], "re:\\s"), False)
            # no whitespace around lines
            x.assume(sp if edge else x.any([nl, x.all([sp]), x.all([x.none(c[i - 1] + c[i + 1], "\n"), x.none(c[i], "\n")])]))
    val = x.str("v", v, "scalar-\r\n")
    a, b = Entry(("a",), PatternMessage([val]), comment=ca), Entry(("b",), PatternMessage(["y"]), comment=cb)
    res = Resource(None, [Section((), [a, Comment(cs), b] if c2 else [a, b])])
    out = "".join(inc_serialize(res))
    x.obs("out", out)
    got = all_of(inc_parse(out))
    x.check_eq([e.comment for e in got], [ca, cs, cb] if c2 else [ca, cb], "comments")
    x.check_eq([(e.id, text(e)) for e in got if isinstance(e, Entry)], [(("a",), val), (("b",), "y")], "entries")
    x.check_eq("".join(inc_serialize(inc_parse(out))), out, "fixpoint")
    trim = all_of(inc_parse("".join(inc_serialize(res, trim_comments=True))))
    x.check_eq([(e.id, text(e), e.comment) for e in trim], [(("a",), val, ""), (("b",), "y", "")], "trimmed")


def anycomment(x, pre, c, post, kind):
    """No comment text, however odd, adds, removes or changes a message"""
    com = pre + x.str("com", c) + post
    a, b = Entry(("a",), PatternMessage(["x"])), Entry(("b",), PatternMessage(["y"]))
    res = Resource(None, [Section((), [a, b])])
    if kind == 0:
        b.comment = com
    elif kind == 1:
        res.sections[0].entries.insert(1, Comment(com))
    elif kind == 2:
        res.comment = com
    else:
        res.sections[0].comment = com
    for trim in (False, True):
        out = "".join(inc_serialize(res, trim_comments=trim))
        x.obs("out", out)
        got = inc_parse(out)
        x.check_eq([(e.id, text(e)) for e in entries_of(got)], [(("a",), "x"), (("b",), "y")], "messages")


def head(x, r, s, kind):
    """Comments of the file and the section come back as standalone ones"""
    alpha = "re:[^\\s#\ud800-\udfff]"
    c, d = x.str("c", r, alpha), x.str("d", s, alpha)
    e = [Entry(("a",), PatternMessage(["x"]), comment="ca" if kind else ""), Entry(("b",), PatternMessage(["y"]))]
    res = Resource(None, [Section((), e, comment=d)], comment=c)
    out = "".join(inc_serialize(res))
    x.obs("out", out)
    got = all_of(inc_parse(out))
    x.check_eq([(e.comment, "") if isinstance(e, Comment) else (e.comment, e.id[0]) for e in got], [(z, "") for z in (c, d) if z != ""] + [("ca" if kind else "", "a"), ("", "b")], "comments and messages")
    x.check_eq([(e.id[0], text(e)) for e in inc_parse("".join(inc_serialize(res, trim_comments=True))).sections[0].entries], [("a", "x"), ("b", "y")], "trimmed comments")


def source(x, pre, n, mid, m, post):
    """Any text is refused with a ValueError, or is a fixpoint with the same messages"""
    src = pre + x.str("s", n) + mid + x.str("t", m) + post
    try:
        res = inc_parse(src)
    except ValueError:
        return
    x.obs("res", res)
    for line in src.replace("\r", "\n").split("\n"):
        x.check(line.startswith("#") or line.strip() == "", "other lines are refused")
    out = "".join(inc_serialize(res))
    again = inc_parse(out)
    x.check_eq([(e.id, text(e)) for e in entries_of(again)], [(e.id, text(e)) for e in entries_of(res)], "messages come back")
    for e in entries_of(res):
        x.check(len(e.id) == 1 and e.id[0] != "" and x.only(e.id[0], "re:\\w"), "name")
        x.check(x.none(text(e), "\r\n"), "one line")
        if text(e) != "":
            x.check((e.id[0] + " " + text(e)) in src or (e.id[0] + "\t" + text(e)) in src, "value")
    x.check_eq("".join(inc_serialize(again)), out, "fixpoint")


def reads(x, n, w):
    """Every line is read as what it is"""
    name, val = x.str("name", 2, "re:\\w"), x.str("val", n, "scalar-\r\n")
    sp = x.str("sp", w, " \t")
    br = ["\n", "\r\n", "\n\n"][x.choice("br", 3)]
    c = x.str("c", 2, "re:[^\\s#\ud800-\udfff]")
    src = f"#filter x{br}# {c}{br}#define{sp}{name} {val}{br}# {c}{br}#unfilter y{br}# #define no v{br}"
    res = all_of(inc_parse(src))
    x.obs("res", res)
    es = [e for e in res if isinstance(e, Entry)]
    x.check_eq([(e.id, text(e)) for e in es], [((name,), val)], "messages")
    x.check_eq(es[0].comment, c if br != "\n\n" else "", "comment")
    x.check_eq([e.comment for e in res if not isinstance(e, Entry)], ["#filter x"] + ([] if br != "\n\n" else [c]) + [c, "#unfilter y", "# #define no v"], "standalone comments and directives")


def refused(x, what, n):
    s = x.str("s", n)
    e = Entry(("a",), PatternMessage(["v"]))
    res = Resource(None, [Section((), [e])])
    if what == 0:
        e.id = ()
    elif what == 1:
        e.id = ("a", s)
    elif what == 2:
        res.sections[0] = Section((s,), [e])
    elif what == 3:
        e.value = PatternMessage([s, Expression(VariableRef(s))])
    elif what == 4:
        res.meta.append(Metadata(s, s))
    elif what == 5:
        res.sections[0].meta.append(Metadata(s, s))
    elif what == 6:
        e.meta.append(Metadata(s, s))
    try:
        "".join(inc_serialize(res))
    except ValueError:
        return
    x.fail("not refused")


def cases(tier):
    t = tier == "thorough"
    out = []
    d = 1 if t else 0

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for k in range(0, 4 + d):
        add("entry", f"name-{k}", k=k, pre="", v=0, post="", plain=0)
    for v in range(0, 6 + d):
        add("entry", f"value-{v}", k=1, pre="", v=v, post="", plain=v % 2)
    for i, (pre, post) in enumerate([("\r", "#define b c"), ("\n", "\n"), ("# ", "#"), ("", "#define b c"), (" ", " "), ("\u2028", "#define z z")]):
        add("entry", f"tpl-{i}", k=1, pre=pre, v=3 + d, post=post, plain=0)
    for c1, c2, c3, v in [(0, 0, 0, 2), (1, 0, 1, 1), (2, 1, 0, 0), (0, 3, 1, 0), (3, 0, 0, 1), (4, 0, 0, 0), (0, 4, 0, 0), (0, 0, 4 + d, 0), (2, 2, 2, 0)]:
        add("comments", f"{c1}{c2}{c3}{v}", c1=c1, c2=c2, c3=c3, v=v)
    for kind in range(4):
        for c in range(1, 4 + d):
            add("anycomment", f"{kind}-{c}", pre="", c=c, post="", kind=kind)
        for i, (pre, post) in enumerate([("#define", "b x"), ("", "#define b x"), ("x", "#define b x"), ("#define b", ""), ("# ", "#define b x"), ("#", "define b x"), ("a\n", "\n#define b x"), ("#define ", "a")]):
            add("anycomment", f"{kind}-tpl{i}", pre=pre, c=2 + d, post=post, kind=kind)
    for n in range(0, 7 + d):
        add("source", n, pre="", n=n, mid="", m=0, post="")
    for i, (pre, n, mid, m, post) in enumerate(
        [
            ("#define", 4, "", 0, ""), ("#define a b", 3, "#define c d", 1, ""), ("# a", 2, "# b", 2, "#define c d"), ("#define a", 2, "b", 2, "c"), ("#x", 2, "#define a b", 2, ""), ("# ", 3, "\n#", 2, "\n# x\n#define a b"),
            ("#\n", 2, "\n#\n", 1, "#define a b"), ("", 3, "#define a b", 2, "\n"), ("# #", 3, "\n", 1, "define a"),
        ]
    ):
        add("source", f"tpl-{i}", pre=pre, n=n + d, mid=mid, m=m, post=post)
    for n in range(0, 4):
        for w in (1, 2):
            add("reads", f"{n}-{w}", n=n, w=w)
    for what in range(7):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    for r in range(3 + d):
        for s in range(3 + d):
            for kind in (0, 1):
                add("head", f"{r}-{s}-{kind}", r=r, s=s, kind=kind)
    return out
