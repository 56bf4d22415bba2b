from json import dumps, loads

from moz.l10n.formats.webext.parse import webext_parse, webext_parse_message
from moz.l10n.formats.webext.serialize import webext_serialize, webext_serialize_message
from moz.l10n.model import Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, VariableRef

from checks.common import entries_of, joined

BOUNDS = {
    "quick": "message strings of up to 6 characters over every Unicode scalar value, and templates with up to 4 free characters; placeholders objects with up to 3 names of up to 2 symbolic characters, "
    "contents of up to 3 characters; built messages of up to 4 parts with texts of up to 2 characters",
    "thorough": "message strings of up to 7 characters; templates with 1 more free character; built messages of up to 5 parts",
}
ASSUMPTIONS = [
    "the literal content of a placeholder is not itself a positional argument ($1 to $9) in built messages, as that is what such content means in messages.json",
    "the real json module is represented by a model of it in symbolic runs, and used in replays",
]

NAME = "re:[a-zA-Z0-9_@]"
PLAIN = "re:[^\\x00-\\x1f\"\\\\\ud800-\udfff]"


def reads_as(x, src, ph):
    """What the documentation of messages.json says about src, as a list of text, ("n", key) and ("p", digit)"""
    out = []
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if c != "$":
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < n and x.eq(x.inset(src[j], NAME), True):
            j += 1
        if j > i + 1 and j < n and src[j] == "$":
            out.append(("n", src[i + 1 : j].lower(), src[i : j + 1]))
            i = j + 1
        elif i + 1 < n and x.eq(x.inset(src[i + 1], "123456789"), True):
            out.append(("p", src[i + 1], src[i : i + 2]))
            i += 2
        elif i + 1 < n and src[i + 1] == "$":
            j = i + 1
            while j < n and src[j] == "$":
                out.append("$")
                j += 1
            i = j
        else:
            out.append(c)
            i += 1
    return joined(out)


def parsed(x, pre, n, post, phs, alpha="scalar", nn=1, cn=1):
    """A parsed message means what the text says, and comes back from its serialization."""
    src = pre + x.str("s", n, alpha) + post
    ph = {}
    for i in range(phs):
        k = x.str(f"k{i}", nn, NAME)
        if k.lower() in [p.lower() for p in ph]:
            x.reject()
        ph[k] = {"content": x.str(f"c{i}", cn)}
        if i == 0 and x.flag("example"):
            ph[k]["example"] = x.str("ex", 1)
    before = {k: dict(v) for k, v in ph.items()}
    want = reads_as(x, src, ph)
    try:
        msg = webext_parse_message(src, ph if phs or n % 2 else None)
    except ValueError:
        names = [k.lower() for k in ph]
        x.check(any(not isinstance(w, str) and w[0] == "n" and w[1] not in names for w in want), "only missing placeholders are refused")
        return
    x.obs("msg", msg)
    x.check_eq(ph, before, "the placeholders object is not modified")
    x.check(len(msg.pattern) == len(want), "number of parts")
    seen = {}
    for w, p in zip(want, msg.pattern):
        if isinstance(w, str):
            x.check_eq(p, w, "text")
        elif w[0] == "p":
            x.check_eq(p, Expression(VariableRef("arg" + w[1]), attributes={"source": w[2]}), "positional argument")
            x.check("arg" + w[1] not in msg.declarations or x.eq(msg.declarations["arg" + w[1]].arg, VariableRef("arg" + w[1])), "not a named one")
        else:
            x.check_eq(p.attributes, {"source": w[2]}, "source of the placeholder")
            x.check(isinstance(p.arg, VariableRef) and p.function is None, "variable")
            for k, v in ph.items():
                if k.lower() == w[1]:
                    decl = msg.declarations[p.arg.name]
                    x.check(w[1] not in seen or x.eq(seen[w[1]], p.arg.name), "one name for each placeholder")
                    x.check(w[1] in seen or p.arg.name not in list(seen.values()), "one placeholder for each name")
                    seen[w[1]] = p.arg.name
                    if "source" in decl.attributes:
                        x.check_eq(decl.attributes["source"], v["content"], "content")
                        x.check_eq(decl.arg, VariableRef("arg" + v["content"][1:]), "argument")
                    else:
                        x.check_eq(decl.arg, v["content"], "content")
                    x.check_eq(decl.attributes.get("example", None), v.get("example", None), "example")
    x.check(len(seen) == len(msg.declarations), "declarations")
    out, phout = webext_serialize_message(msg)
    x.obs("out", [out, phout])
    x.check_eq(webext_parse_message(out, phout), msg, "the message comes back")
    x.check_eq(webext_serialize_message(msg), (out, phout), "serializing changes nothing")
    trimmed = webext_serialize_message(msg, trim_comments=True)
    x.check_eq(trimmed[0], out, "trimmed message")
    x.check_eq(trimmed[1], {k: {"content": v["content"]} for k, v in phout.items()}, "trimmed placeholders")


def built(x, shape, n, alpha="scalar", src=0, dn=1):
    """
    shape: one character for each part: t text, p positional, a/b declared names.
    The serialization is refused, or parses to the same texts and placeholders.
    """
    decl = {}
    names = {}
    pattern = []
    for i, c in enumerate(shape):
        if c == "t":
            pattern.append(x.str(f"t{i}", n, alpha))
        elif c == "p":
            d = x.str(f"p{i}", 1, "123456789")
            pattern.append(Expression(VariableRef("arg" + d), attributes={"source": "$" + d} if src else {}))
        else:
            if c not in names:
                names[c] = x.str("n" + c, dn, NAME if src < 2 else "ascii")
                content = x.str("c" + c, 1)
                if names[c] in decl:
                    x.reject()
                decl[names[c]] = Expression(content)
                if c == "b":
                    decl[names[c]].arg = VariableRef("arg1")
            pattern.append(Expression(VariableRef(names[c]), attributes={"source": "$" + names[c] + "$"} if src else {}))
    msg = PatternMessage(pattern, decl)
    try:
        out, ph = webext_serialize_message(msg)
    except ValueError:
        # Dollar signs, or a digit or name running into the next part
        if shape in ("t", "tt", "p", "tp", "a", "b", "at", "ab"):
            if shape == "tp":
                x.check(n > 0 and x.inset(pattern[0][n - 1], "$"), "not refused")
            elif shape == "ab":
                x.check(src == 2 or x.eq(names["a"].lower(), names["b"].lower()), "not refused")
            else:
                x.check(src == 2, "not refused")
        return
    x.obs("out", [out, ph])
    back = webext_parse_message(out, ph)
    x.obs("back", back)
    want, got = joined(pattern), back.pattern
    x.check(len(want) == len(got), "number of parts")
    for w, g in zip(want, got):
        if isinstance(w, str):
            x.check_eq(g, w, "text")
        else:
            x.check(isinstance(g, Expression) and isinstance(g.arg, VariableRef), "placeholder")
            if w.arg.name in decl:
                x.check_eq(back.declarations[g.arg.name].arg, decl[w.arg.name].arg, "content of the placeholder")
            else:
                x.check_eq(g.arg, w.arg, "positional argument")
    out2 = webext_serialize_message(back)
    x.check_eq(out2, (out, ph), "serialization again")


def files(x, n, d, phs):
    """Whole files: keys, messages, descriptions and placeholders come back."""
    js = {}
    for i in range(2):
        k = x.str(f"k{i}", 1, PLAIN)
        if k in js:
            x.reject()
        m = x.str(f"m{i}", n, PLAIN)
        x.assume(x.none(m, "$"))
        js[k] = {"message": m}
        if i == 1 and d:
            js[k]["description"] = x.str("d", d, PLAIN)
        if i == 0 and phs:
            js[k]["message"] = m + "$a$" + m + "$B$"
            js[k]["placeholders"] = {"A": {"content": "$1", "example": x.str("e", 1, PLAIN)}, "b": {"content": x.str("c", 1, PLAIN)}}
    res = webext_parse(dumps(js, ensure_ascii=False))
    es = entries_of(res)
    x.check_eq([e.id for e in es], [(k,) for k in js], "ids in order")
    x.check_eq([e.comment for e in es], [v.get("description", "") for v in js.values()], "comments")
    out = "".join(webext_serialize(res))
    x.obs("out", out)
    back = webext_parse(out)
    x.check_eq(back, res, "the resource comes back")
    js2 = loads(out)
    x.check_eq([k for k in js2], [k for k in js], "keys")
    for k, v in js2.items():
        x.check_eq(v["message"], js[k]["message"], "message")
        x.check_eq(v.get("description", ""), js[k].get("description", ""), "description")
        if "placeholders" in js[k]:
            x.check_eq(
                [{"content": p["content"]} for _, p in sorted(v["placeholders"].items(), key=lambda e: e[0].lower())],
                [{"content": p["content"]} for p in js[k]["placeholders"].values()],
                "placeholder contents",
            )
    trim = "".join(webext_serialize(res, trim_comments=True))
    tes = entries_of(webext_parse(trim))
    x.check_eq([e.id for e in tes], [e.id for e in es], "trimmed ids")
    x.check_eq([e.value.pattern for e in tes], [e.value.pattern for e in es], "trimmed patterns")
    x.check_eq([e.comment for e in tes], ["", ""], "trimmed comments")


def strings(x, n):
    """Resources of plain strings are written as they are"""
    v, c = x.str("v", n, PLAIN), x.str("c", 1, PLAIN)
    out = loads("".join(webext_serialize(Resource(None, [Section((), [Entry(("k",), v, comment=c)])]))))
    x.check_eq(out, {"k": {"message": v, "description": c}}, "message object")


def several(x, n, k, kind):
    """Every entry is in the file, or what has an id twice is refused"""
    ids = [x.str(f"i{i}", n if i else 1, PLAIN) for i in range(k)]
    es = [Entry((ids[i],), "v" + str(i) if kind == "str" else PatternMessage(["v" + str(i)]), comment="c" if i == 1 else "") for i in range(k)]
    parts = 1 + x.choice("split", k)
    res = Resource(None, [Section((), es[:parts]), Section((), es[parts:])])
    twice = x.any([ids[i] == ids[j] for i in range(k) for j in range(i)])
    for trim in (False, True):
        try:
            out = "".join(webext_serialize(res, trim_comments=trim))
        except ValueError:
            x.check(twice, "different ids are accepted")
            continue
        x.check(x.implies(twice, False), "no entry overwrites another")
        x.obs("out" + str(trim), out)
        got = entries_of(webext_parse(out))
        x.check_eq([(e.id, e.value.pattern, e.comment) for e in got], [(e.id, ["v" + str(i)], "" if trim else e.comment) for i, e in enumerate(es)], "all entries")


def refused(x, what, n):
    s = x.str("s", n)
    e = Entry(("a",), PatternMessage(["v"]))
    res = Resource(None, [Section((), [e])])
    if what == 0:
        res.comment = s
    elif what == 1:
        res.sections[0].comment = s
    elif what == 2:
        res.sections[0].entries.append(Comment(s))
    elif what == 3:
        res.meta.append(Metadata(s, ""))
    elif what == 4:
        res.sections[0].meta.append(Metadata("k", s))
    elif what == 5:
        e.meta.append(Metadata(s, s))
    elif what == 6:
        e.id = ()
    elif what == 7:
        e.id = (s, "b")
    elif what == 8:
        res.sections[0] = Section((s,), [e])
    elif what == 9:
        e.value = PatternMessage([Expression(VariableRef("x"), s + "f")])
    elif what == 10:
        e.value = PatternMessage([Expression(VariableRef("x"))], {"x": Expression(s, "f" + s)})
    elif what == 11:
        e.value = PatternMessage([Expression(s)])
    try:
        out = "".join(webext_serialize(res))
        x.check(what < 3 and n == 0, "refused")
        x.check_eq(loads(out), {"a": {"message": "v"}}, "empty comments are no comments")
    except ValueError:
        x.check(what >= 3 or n > 0, "not refused")
    if what < 6:
        x.check_eq(loads("".join(webext_serialize(res, trim_comments=True))), {"a": {"message": "v"}}, "trimmed")


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for n in range(0, 8 if t else 7):
        add("parsed", f"free-{n}", pre="", n=n, post="", phs=0)
    for n in range(1, 5 if t else 4):
        add("parsed", f"ph1-{n}", pre="", n=n, post="", phs=1)
    add("parsed", "ph2", pre="$", n=3, post="$", phs=2)
    add("parsed", "two", pre="$a_$ $", n=2, post="$", phs=2, nn=2)
    add("parsed", "digits", pre="$_1$", n=3, post="", phs=2, nn=2) if t else None
    add("parsed", "digits1", pre="$1", n=3, post="$", phs=1, nn=2)
    add("parsed", "arg", pre="$1 $arg", n=1, post="$", phs=1, nn=4, alpha=NAME)
    add("parsed", "content2", pre="$a$", n=1, post="", phs=1, cn=2)
    add("parsed", "content3", pre="$a$", n=0, post="", phs=1, cn=3)
    add("parsed", "middle", pre="$1", n=3, post="$2", phs=0)
    add("parsed", "middle2", pre="$", n=3, post="$b$", phs=1)
    shapes = ["t", "tt", "p", "tp", "pt", "pp", "a", "at", "ta", "tat", "ab", "atb", "aa", "ap", "pa", "ptp", "tptt", "ptb", "atbt", "tatp"]
    if t:
        shapes += ["tatbt", "ptptp", "atatb", "tptat"]
    for s in shapes:
        for n in (1, 2) if "t" in s else (0,):
            for src in (0, 1):
                if len(s) < 4 or n == 1 or t:
                    add("built", f"{s}-{n}-{src}", shape=s, n=n, src=src)
    for s in ("ab", "pa", "p") if t else ("pa",):
        add("built", f"{s}-names", shape=s, n=1, src=1, dn=2)
    add("built", "names4", shape="pa", n=1, src=0, dn=4) if t else None
    add("built", "badnames", shape="a", n=1, src=2, dn=1)
    add("built", "badnames2", shape="ta", n=1, src=2, dn=2)
    for n in (0, 1, 2):
        for d in (0, 1):
            for phs in (0, 1):
                add("files", f"{n}-{d}-{phs}", n=n, d=d, phs=phs)
    for n in (0, 1, 2):
        add("strings", n, n=n)
    for n, k in ((1, 2), (1, 3), (2, 2), (0, 2)):
        for kind in ("str", "msg"):
            add("several", f"{n}-{k}-{kind}", n=n, k=k, kind=kind)
    for what in range(12):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    return out
