from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.gettext.serialize import gettext_serialize
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

BOUNDS = {
    "quick": "ids, contexts, values, plural ids and variants of 0-3 characters, comments of 0-4 characters, over every Unicode scalar value; metadata values, references and flags of 0-2; 1-3 plural variants; templates of source text with 2-4 free characters",
    "thorough": "as quick with one more free character",
}
ASSUMPTIONS = [
    "contexts are not empty, nor are the ids of messages without a context (an empty id marks the header of the catalog)",
    "comments come back without empty lines and trailing whitespace; header comments do not start lines with a comma or a colon, which mark flags and references",
    "ids and values do not contain characters, other than line breaks, at which str.splitlines() breaks lines, as polib does not read those from strings (its issue 170, which a test of the repository pins)",
    "header fields have unique names without colons and line breaks, and are written in the order of polib; their values have no line breaks",
    "references and flags have no whitespace or commas; obsolete messages have neither references nor extracted comments, as polib does not write them",
    "lines are shorter than the wrapping width; the real polib package is executed symbolically",
]
ODD = "\x1c\x1d\x1e\x85\u2028\u2029"
TEXT = "scalar-" + ODD
BREAKS = "\n\v\f\r\x1c\x1d\x1e\x85\u2028\u2029"


def parse(src, **kw):
    return gettext_parse(src, **kw)


def write(res, **kw):
    return "".join(gettext_serialize(res, **kw))


def entries(res):
    return [e for s in res.sections for e in s.entries]


def plain(res):
    return [(e.id, e.value, e.comment, e.meta) for e in entries(res)]


LAST = Entry(("z",), PatternMessage(["last"]))


def back(x, e, want=None, meta=(), **kw):
    """e comes back as want, between others"""
    first = Entry(("a",), PatternMessage(["first"]), comment="C", meta=[Metadata("reference", "f:1")])
    res = Resource(None, [Section((), [first, e]), Section((), [LAST])], "", list(meta))
    out = write(res, **kw)
    x.obs("out", out)
    got = parse(out, **kw)
    x.obs("got", got)
    want = want or e
    x.check_eq(len(entries(got)), 3, "as many messages")
    x.check_eq(plain(got)[0], (first.id, first.value, "C", first.meta), "first message")
    x.check_eq(plain(got)[2], (("z",), LAST.value, "", []), "last message")
    x.check_eq(plain(got)[1], (want.id, want.value, want.comment, want.meta), "message")
    x.check_eq(got.meta, list(meta), "header")
    x.check_eq(write(got, **kw), out, "fixpoint")
    trim = write(res, trim_comments=True, **kw)
    got = parse(trim, **kw)
    x.check_eq([(e.id, e.value) for e in entries(got)], [(("a",), first.value), (want.id, want.value), (("z",), LAST.value)], "trimmed")
    x.check(trim.startswith("#\n") and "\n#" not in trim, "no comments when trimmed")


def message(x, i, c, v, asstr):
    id = (x.str("id", i, TEXT) if c == v == 0 or asstr else "i" if i else "",)
    if c:
        id = (id[0], x.str("ctx", c, TEXT))
    s = x.str("val", v, TEXT)
    e = Entry(id, s if asstr else PatternMessage([s]))
    want = Entry(id, PatternMessage([s]))
    if v in (1, 2) and not asstr and x.flag("split"):
        e.value = PatternMessage([s[:1], s[1:]])
    back(x, e, want)


def sel(variants):
    return SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), variants)


def plural(x, k, n, p, names, header):
    """The variants keep their places, with any contents"""
    vs = [x.str(f"v{i}", n if k < 3 or i == 1 else 1, TEXT if k < 3 or i == 1 else "<a") for i in range(k)]
    pl = x.str("pl", p, TEXT)
    plurals = ["one", "few", "other"][3 - k :] if names else None
    named = lambda i: plurals[i] if plurals else str(i)
    order = list(range(k))
    r = x.choice("order", k)
    order = order[r:] + order[:r]
    lab = x.flag("label") or not header
    variants = {}
    want = {}
    for i in range(k):
        want[CatchallKey(named(i)) if i == k - 1 else named(i),] = [vs[i]]
    for i in order:
        variants[CatchallKey(named(i) if lab else None) if i == k - 1 else named(i),] = [vs[i]]
    meta = [Metadata("plural", pl)] if p else []
    kw = {"plurals": plurals} if plurals else {}
    back(
        x, Entry(("i",), sel(variants), meta=meta), Entry(("i",), sel(want), meta=meta),
        [Metadata("Plural-Forms", f"nplurals={k}; plural=0;")] if header else [], **kw
    )


def counts(x, k, n, N):
    """Plurals have as many variants as the header says, and the default one is the last"""
    vs = [x.str(f"v{i}", n, "re:[^\\s\"\\\\\ud800-\udfff]") for i in range(k)]
    sp, end = x.choice("sp", ["", " "]), x.choice("end", ["", " plural=(n != 1);"])
    key = x.choice("key", [None, "other", "last"])
    variants = {(str(i),): [vs[i]] for i in range(k - 1)}
    variants[CatchallKey(key),] = [vs[k - 1]]
    res = Resource(None, [Section((), [Entry(("i",), sel(variants)), Entry(("z",), PatternMessage(["y"]))])], "", [Metadata("Plural-Forms", f"{sp}nplurals={N};{end}")])
    got = parse(write(res))
    x.obs("got", got)
    count = N if N > k else k
    es = entries(got)
    x.check_eq([e.id for e in es], [("i",), ("z",)], "messages")
    want = {(CatchallKey(str(i)) if i == count - 1 else str(i),): vs[i] if i < k - 1 else vs[k - 1] if i == count - 1 else "" for i in range(count)}
    x.check_eq(list(es[0].value.variants), list(want), "keys")
    x.check_eq([joined(v) for v in es[0].value.variants.values()], list(want.values()), "each variant in its place")


def holes(x, k, n, N, names):
    """Variants that are numbered keep their places, whichever of the others are left out"""
    vs = [x.str(f"v{i}", n, "re:[^\\s\"\\\\\ud800-\udfff]") for i in range(k)]
    there = [x.flag(f"there{i}") for i in range(k - 1)] + [True]
    plurals = (["one", "few", "many", "more", "other"][: k - 1] + ["other"]) if names else None
    name = lambda i: plurals[i] if plurals else str(i)
    variants = {}
    for i in range(k):
        if there[i]:
            variants[CatchallKey(name(i)) if i == k - 1 else name(i),] = [vs[i]]
    header = [Metadata("Plural-Forms", f"nplurals={N}; plural=0;")] if N else []
    res = Resource(None, [Section((), [Entry(("i",), sel(variants)), Entry(("z",), PatternMessage(["y"]))])], "", header)
    got = parse(write(res, plurals=plurals), plurals=plurals)
    x.obs("got", got)
    es = entries(got)
    x.check_eq([e.id for e in es], [("i",), ("z",)], "messages")
    count = N if N > k else k
    x.check_eq([joined(v) for v in es[0].value.variants.values()], [vs[i] if i < k and there[i] else "" for i in range(count)], "each variant in its place")
    x.check_eq([str(key) for key, in es[0].value.variants][:k], [name(i) for i in range(k)], "names")


def strays(x, k, n, names):
    """Variants that have no place are never dropped without a word"""
    plurals = ["one", "few", "other"][:k] if names else None
    key = x.str("key", n, "print")
    s = x.str("s", 1, TEXT)
    named = lambda i: plurals[i] if plurals else str(i)
    variants = {(named(i),): ["v"] for i in range(k - 1)}
    if (key,) in variants:
        x.reject()
    variants[key,] = ["<" + s + ">"]
    variants[CatchallKey(named(k - 1)),] = ["last"]
    res = Resource(None, [Section((), [Entry(("i",), sel(variants))])], "", [Metadata("Plural-Forms", f"nplurals={k}; plural=0;")])
    try:
        out = write(res, plurals=plurals)
    except ValueError:
        return
    got = parse(out)
    e = entries(got)[0]
    texts = [joined(p) for p in e.value.variants.values()]
    x.obs("texts", texts)
    x.check_eq(len([t for t in texts if t == "<" + s + ">"]), 1, "the variant is there")
    x.check_eq(len([t for t in texts if t == "last"]), 1, "the catchall variant is there")


def joined(p):
    out = ""
    for s in p:
        out = out + s
    return out


def gaps(x, k, n, order, names):
    """Plural variants have the place of their number in the source, whichever are left out and in any order"""
    br = ["\n", "\r\n"][x.choice("br", 2)]
    vs = [x.str(f"v{i}", n, "re:[^\\s\"\\\\\ud800-\udfff]") for i in range(k)]
    there = [x.flag(f"there{i}") for i in range(k)]
    x.assume(x.any(there))
    idx = [i for i in range(k) if there[i]]
    if order:
        idx = idx[order:] + idx[:order]
    lines = ['msgid "a"', 'msgstr "b"', "", 'msgid "i"', 'msgid_plural "p"']
    lines += [f'msgstr[{i}] "' + vs[i] + '"' for i in idx]
    src = br.join(lines + ["", 'msgid "z"', 'msgstr "y"', ""])
    plurals = ["one", "few", "many", "other"] if names else None
    res = parse(src, plurals=plurals)
    x.obs("res", res)
    top = max(idx)
    name = lambda i: plurals[i] if plurals else str(i)
    es = entries(res)
    x.check_eq([e.id for e in es], [("a",), ("i",), ("z",)], "messages")
    got = es[1].value
    x.check_eq([(type(key).__name__, str(key)) for key, in got.variants], [("CatchallKey" if i == top else "str", str(CatchallKey(name(i))) if i == top else name(i)) for i in range(top + 1)], "a variant for each number")
    x.check_eq([joined(v) for v in got.variants.values()], [vs[i] if there[i] else "" for i in range(top + 1)], "each variant in its place")
    x.check_eq(es[1].meta, [Metadata("plural", "p")], "plural source")
    again = parse(write(res, plurals=plurals), plurals=plurals)
    x.check_eq([joined(v) for v in entries(again)[1].value.variants.values()][: top + 1], [vs[i] if there[i] else "" for i in range(top + 1)], "and comes back there")


def lossy(x, c, blank):
    """the comment c as it should be read"""
    lines = [line.rstrip() for line in c.splitlines()]
    while lines and lines[0] == "":
        lines.pop(0)
    while lines and lines[-1] == "":
        lines.pop()
    if not blank:
        lines = [line for line in lines if line != ""]
    return "\n".join(lines)


def comments(x, c, t, obsolete=False):
    com, tra = x.str("com", c), x.str("tra", t)
    e = Entry(("i",), PatternMessage(["v"]), comment=com)
    want = Entry(("i",), PatternMessage(["v"]), comment=lossy(x, com, False))
    if t:
        e.meta.append(Metadata("translator-comments", tra))
        tr = lossy(x, tra, True)
        if tr:
            want.meta.append(Metadata("translator-comments", tr))
    if obsolete:
        e.meta.append(Metadata("obsolete", "true"))
        want.meta.append(Metadata("obsolete", "true"))
        want.comment = ""
    first = Entry(("a",), PatternMessage(["first"]))
    res = Resource(None, [Section((), [first, e, LAST])])
    out = write(res)
    x.obs("out", out)
    got = parse(out)
    x.check_eq([e.id for e in entries(got)], [("a",), ("i",), ("z",)], "messages")
    x.check_eq(plain(got)[1], (want.id, want.value, want.comment, want.meta), "message")
    x.check_eq(plain(got)[2], (("z",), LAST.value, "", []), "last message")
    got = parse(write(res, trim_comments=True))
    x.check_eq(plain(got), [(e.id, e.value, "", []) for e in (res.sections[0].entries[::2] if obsolete else res.sections[0].entries)], "trimmed")


def header(x, c, m):
    """Header comments and fields come back"""
    com = x.str("com", c)
    for line in com.splitlines():
        if line:
            x.assume(x.none(line[0], ",:"))
    val, val2 = x.str("val", m, "scalar-" + BREAKS), x.str("val2", m, "scalar-" + BREAKS)
    meta = [Metadata("Language", val), Metadata("X-Other", val2)] if m else []
    e = Entry(("i",), PatternMessage(["v"]))
    res = Resource(None, [Section((), [e])], com, meta)
    out = write(res)
    x.obs("out", out)
    got = parse(out)
    x.check_eq(got.comment, lossy(x, com, True), "resource comment")
    x.check_eq(got.meta, [Metadata(m.key, m.value.strip()) for m in meta], "fields")
    x.check_eq(plain(got), [(("i",), e.value, "", [])], "messages")
    got = parse(write(res, trim_comments=True))
    x.check_eq(got.comment, "", "trimmed resource comment")
    x.check_eq(got.meta, [Metadata(m.key, m.value.strip()) for m in meta], "fields")


def flags(x, r, f, obsolete):
    """References, flags and the obsolete mark come back"""
    tok = "re:[^\\s,\ud800-\udfff]" if r + f < 2 else "a1:-"
    meta = []
    if not obsolete:
        for i in range(r):
            meta.append(Metadata("reference", x.str(f"file{i}", 2, tok) + ":" + x.str(f"line{i}", i, tok)))
        if r:
            meta.append(Metadata("reference", x.str("ref", 2, tok)))
    else:
        meta.append(Metadata("obsolete", "true"))
    for i in range(f):
        meta.append(Metadata("flag", x.str(f"flag{i}", 2, tok)))
    meta.append(Metadata("plural", x.str("pl", 1, TEXT)))
    e = Entry(("i",), PatternMessage(["v"]), meta=meta)
    if obsolete:
        res = Resource(None, [Section((), [Entry(("i", "c"), PatternMessage(["x"])), e, LAST])])
        out = write(res)
        got = parse(out)
        x.check_eq(plain(got), [(("i", "c"), PatternMessage(["x"]), "", []), (("i",), e.value, "", meta), (("z",), LAST.value, "", [])], "messages")
        want = [("i", "c"), ("z",)]
        x.check_eq([e.id for e in entries(parse(out, skip_obsolete=True))], want, "obsolete ones are skipped")
        x.check_eq([e.id for e in entries(parse(write(res, trim_comments=True)))], want, "obsolete ones are trimmed")
    else:
        back(x, e)
        if not r:
            back(x, Entry(e.id, e.value, meta=[Metadata("obsolete", "false"), *meta]), e)


def mark(x, pre, n):
    """Messages with any obsolete mark but "false" are obsolete"""
    v = pre + x.str("v", n, "false0 ")
    e = Entry(("i",), PatternMessage(["v"]), meta=[Metadata("obsolete", v)])
    res = Resource(None, [Section((), [e, LAST])])
    out = write(res)
    want = [Metadata("obsolete", "true")] if v != "false" else []
    x.obs("want", want)
    x.check_eq(plain(parse(out)), [(("i",), e.value, "", want), (("z",), LAST.value, "", [])], "messages")
    x.check_eq([e.id for e in entries(parse(write(res, trim_comments=True)))], [("z",)] if want else [("i",), ("z",)], "obsolete ones are trimmed")


def source(x, pre, n, mid, m, post):
    """What was read comes back, from any text"""
    src = pre + x.str("s", n) + mid + x.str("t", m) + post
    try:
        res = parse(src)
    except OSError:
        return
    x.obs("res", res)
    for e in entries(res):
        if e.id[0] == "":
            return
        x.assume(x.none(e.id[0], ODD))
    for line in res.comment.split("\n"):
        if line:
            x.assume(x.none(line[0], ",:"))
    out = write(res)
    x.obs("out", out)
    again = parse(out)
    x.check_eq([(e.id, e.value) for e in entries(again)], [(e.id, e.value) for e in entries(res)], "messages come back")
    x.check_eq(write(again), out, "fixpoint")


def reads(x, n, c, k):
    """Each line is read as what it is, with any line ends and indentation"""
    br = ["\n", "\r\n"][x.choice("br", 2)]
    ind = x.str("ind", 1, " \t")
    chars = "re:[^\\s\"\\\\\ud800-\udfff]"
    s = [x.str(f"s{i}", n if i % 3 == k else 0, chars) for i in range(6)]
    esc = x.choice("esc", 8)
    ch = "\\\"ntrvbf"[esc]
    val = "\\\"\n\t\r\v\b\f"[esc]
    com = x.str("c", c, "re:[^\\s\ud800-\udfff]")
    src = br.join([
        "# H", "#", 'msgid ""', 'msgstr ""', '"Language: x\\n"', "",
        "#  " + com, "#.  " + com, "#: a:1 b", "#, " + "f" + com.replace(",", "") + ",g", '#| msgid "old"',
        ind + 'msgctxt "c' + s[0] + '"', 'msgid  "' + s[1] + '"', '"' + s[2] + "\\" + ch + '"', 'msgstr "' + s[3] + "\\" + ch + s[3] + '"', "",
        '#~ msgid "o' + s[4] + '"', '#~ msgid_plural "p' + s[4] + '"', '#~ msgstr[0] "' + s[4] + '"', '#~ "' + s[5] + '"', '#~ msgstr[1] ""',
    ])
    res = parse(src)
    x.obs("res", res)
    x.check_eq((res.comment, res.meta), ("H", [Metadata("Language", "x")]), "header")
    if s[1] + s[2] == "":
        pass
    ref = Metadata("reference", "a:1")
    x.check_eq(
        plain(res)[0],
        (
            (s[1] + s[2] + val, "c" + s[0]),
            PatternMessage([s[3] + val + s[3]]),
            " " + com if c else "",
            [*([Metadata("translator-comments", " " + com)] if c else []), ref, plain(res)[0][3][2 if c else 1], Metadata("flag", "f" + com.replace(",", "")), Metadata("flag", "g")],
        ),
        "first",
    )
    x.check("b" in plain(res)[0][3][2 if c else 1].value, "second reference")
    x.check_eq(
        plain(res)[1],
        (("o" + s[4],), sel({("0",): [s[4] + s[5]], (CatchallKey("1"),): [""]}), "", [Metadata("obsolete", "true"), Metadata("plural", "p" + s[4])]),
        "second",
    )
    x.check_eq(len(plain(res)), 2, "no others")


def refused(x, what, n):
    s = x.str("s", n)
    e = Entry(("i",), PatternMessage(["v"]))
    res = Resource(None, [Section((), [e])])
    if what == 0:
        e.value = PatternMessage([s, Expression(VariableRef("x"))])
    elif what == 1:
        e.value = sel({("0",): [s], (CatchallKey("1"),): [Markup("open", "b")]})
    elif what == 2:
        e.value = SelectMessage({"n": Expression(VariableRef("n"), "string")}, (VariableRef("n"),), {(CatchallKey(),): [s]})
    elif what == 3:
        res.sections[0].entries.append(Comment("c" + s))
    elif what == 4:
        res.sections[0].comment = "c" + s
    elif what == 5:
        res.sections[0].meta.append(Metadata("k", s))
    elif what == 6:
        e.meta.append(Metadata("k", s))
    elif what == 7:
        e.id = ()
    elif what == 8:
        e.id = ("i", "c", s)
    elif what == 9:
        res.sections[0] = Section(("s" + s,), [e])
    elif what == 10:
        e.value = SelectMessage(
            {"n": Expression(VariableRef("n"), "number"), "m": Expression(VariableRef("m"), "number")}, (VariableRef("n"), VariableRef("m")),
            {("0", "0"): [s], (CatchallKey("1"), CatchallKey("1")): [""]},
        )
    try:
        write(res)
    except ValueError:
        return
    x.fail("not refused")


def cases(tier):
    d = 1 if tier == "thorough" else 0
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for n in range(0, 4 + d):
        if n:
            add("message", f"id-{n}", i=n, c=0, v=0, asstr=False)
            add("message", f"ctx-{n}", i=1, c=n, v=0, asstr=False)
            add("message", f"noid-{n}", i=0, c=n, v=0, asstr=False)
        add("message", f"val-{n}", i=1, c=0, v=n, asstr=False)
    add("message", "str", i=1, c=1, v=1, asstr=True)
    for k in (1, 2, 3):
        for names in (False, True):
            for header in (True, False):
                if header or not names:
                    add("plural", f"{k}-{int(names)}-{int(header)}", k=k, n=1, p=1, names=names, header=header)
    add("plural", "long", k=1, n=2 + d, p=0, names=False, header=True)
    add("plural", "pl", k=2, n=0, p=3 + d, names=False, header=True)
    for k in (1, 2):
        for n in (0, 1, 2):
            for names in (False, True):
                add("strays", f"{k}-{n}-{int(names)}", k=k, n=n, names=names)
    for k in (1, 2, 3):
        for N in (1, 2, 3, 4, 6):
            add("counts", f"{k}-{N}", k=k, n=1, N=N)
    for k in (2, 3, 4):
        for N in (0, 1, k, k + 1):
            add("holes", f"{k}-{N}", k=k, n=1, N=N, names=False)
        for N in (0, k):
            add("holes", f"{k}-{N}-names", k=k, n=1, N=N, names=True)
    for k in (2, 3, 4):
        for order in (0, 1):
            for names in (False, True):
                add("gaps", f"{k}-{order}-{int(names)}", k=k, n=1, order=order, names=names)
    for c in range(0, 5 + d):
        add("comments", f"com-{c}", c=c, t=0)
        if c:
            add("comments", f"tra-{c}", c=0, t=c)
            add("header", f"com-{c}", c=c, m=0)
    add("comments", "both", c=1, t=1)
    add("comments", "obsolete", c=0, t=2, obsolete=True)
    for m in range(1, 3 + d):
        add("header", f"meta-{m}", c=0, m=m)
    for r, f in ((0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1)):
        add("flags", f"{r}-{f}", r=r, f=f, obsolete=False)
    add("flags", "obs0", r=0, f=0, obsolete=True)
    add("flags", "obs1", r=0, f=1, obsolete=True)
    for i, (pre, n, mid, m, post) in enumerate([
        ('msgid "', 2, '"\nmsgstr "', 1, '"\n'), ('msgid "a"\nmsgstr "', 3, '', 0, '"'), ("#", 3, '\nmsgid "a"\nmsgstr "b"', 0, ""),
        ('msgid ""\nmsgstr "x:y\\n"\n\n#', 3, '\nmsgid "a"\nmsgstr "b"', 0, ""), ('msgid "a"\nmsgstr ""\n"', 2, '"\n"', 1, '"\n'), ('msgid "a"\nmsgid_plural "b"\nmsgstr[0] "', 2, '"\nmsgstr[1] "', 1, '"\n'),
        ('msgid "a"\nmsgstr "b', 2, 'msgid "c"\nmsgstr "d"', 0, ""), ('#~ msgid "a', 1, '"\n#~ msgstr "', 2, '"\n'), ('msgid ""\nmsgstr ""\n"X: y', 2, 'z: w\\n"\n\nmsgid "a"\nmsgstr "b"', 0, ""),
        ('msgid "a"\nmsgstr "b"\n', 3, "", 0, ""),
    ]):
        add("source", i, pre=pre, n=n + d, mid=mid, m=m, post=post)
    for n in (0, 1, 2):
        for c in (0, 1):
            for k in range(3 if n else 1):
                add("reads", f"{n}-{c}-{k}", n=n, c=c, k=k)
    for what in range(11):
        for n in (0, 1):
            if what in (4, 5) and n == 0:
                continue
            add("refused", f"{what}-{n}", what=what, n=n)
    for pre, n in (("", 0), ("", 1), ("", 2), ("fals", 1), ("false", 1), ("f", 1), ("tru", 1)):
        add("mark", f"{pre}{n}", pre=pre, n=n)
    return out
