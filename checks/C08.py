from fluent.syntax import FluentParser
from moz.l10n.formats.fluent.parse import fluent_parse, fluent_parse_entry, fluent_parse_message
from moz.l10n.formats.fluent.serialize import fluent_serialize, fluent_serialize_entry, fluent_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from checks.common import entries_of

BOUNDS = {
    "quick": "text of 0-4 free characters in the listed surroundings (around placeables, line breaks and indentation), literals, options, names and keys of 0-3, comments of 0-3, over every Unicode scalar value; messages with 1-2 selectors and up to 4 variants; source templates with 1-4 free characters",
    "thorough": "as quick with one more free character",
}
ASSUMPTIONS = [
    "two patterns are equal when they are after joining adjacent strings and taking quoted literals without function as text",
    "expressions are of the kinds that Fluent has: variables, string literals, number literals, references, and functions with their Fluent name attached; variants are in the order of the product of their keys, with the catch-all key last",
    "the real fluent.syntax package is executed symbolically",
    "in Fluent sources, the variants of a selector have distinct names",
    "a standalone comment at the start of a resource is metadata of it",
]
FN = {"fluent-fn": "FOO"}
# any but the control characters that are escaped each on their own
SOME = "re:[^\x00-\x08\x0b\x0c\x0e-\x1f\x7f-\x84\x86-\x9f\ud800-\udfff]"


def canon(pattern):
    """pattern, with quoted literals as text"""
    out = []
    for p in pattern:
        if isinstance(p, Expression) and p.function is None and isinstance(p.arg, str):
            p = p.arg
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return out


def same(x, got, want, label):
    """got is want, with quoted literals as text"""
    if isinstance(want, SelectMessage):
        x.check(isinstance(got, SelectMessage), label + ": kind")
        x.check_eq(got.declarations, want.declarations, label + ": declarations")
        x.check_eq(got.selectors, want.selectors, label + ": selectors")
        x.check_eq([[(type(k).__name__, str(k)) for k in keys] for keys in got.variants], [[(type(k).__name__, str(k)) for k in keys] for keys in want.variants], label + ": keys")
        x.check_eq([canon(p) for p in got.variants.values()], [canon(p) for p in want.variants.values()], label + ": variants")
    else:
        x.check(isinstance(got, PatternMessage), label + ": kind")
        x.check_eq(canon(got.pattern), canon(want.pattern), label)


def around(x, msg, kind):
    """msg comes back as a value, of an attribute and of a term, in a file, an entry and alone"""
    if kind == 0:
        es = [Entry(("a",), PatternMessage(["first"])), Entry(("b",), msg), Entry(("c",), PatternMessage(["last"]))]
    elif kind == 1:
        es = [Entry(("a",), PatternMessage(["first"]), {"d": msg, "e": PatternMessage(["x"])}), Entry(("c",), PatternMessage(["last"]))]
    else:
        es = [Entry(("-a",), msg, {"d": PatternMessage(["x"])}), Entry(("c",), PatternMessage(["last"]))]
    res = Resource(None, [Section((), es)])
    out = "".join(fluent_serialize(res))
    x.obs("out", out)
    got = fluent_parse(out, with_linepos=False)
    x.obs("got", got)
    x.check_eq([e.id for e in entries_of(got)], [e.id for e in es], "ids")
    for g, e in zip(entries_of(got), es):
        same(x, g.value, e.value, "value")
        x.check_eq(list(g.properties), list(e.properties), "properties")
        for n in e.properties:
            same(x, g.properties[n], e.properties[n], "property")
    x.check_eq("".join(fluent_serialize(got)), out, "fixpoint")
    e = es[0 if kind else 1]
    out = fluent_serialize_entry(e)
    g = fluent_parse_entry(out, with_linepos=False)
    same(x, g.value, e.value, "entry value")
    for n in e.properties:
        same(x, g.properties[n], e.properties[n], "entry property")


def alone(x, msg):
    out = fluent_serialize_message(msg)
    x.obs("alone", out)
    got = fluent_parse_message(out)
    x.obs("back", got)
    same(x, got, msg, "alone")


def text(x, pre, n, post, kind, single=True):
    """Any text survives"""
    s = pre + x.str("s", n) + post
    msg = PatternMessage([s])
    if not single:
        alone(x, msg)
    else:
        around(x, msg, kind)


def pieces(x, shape, n, m, kind):
    """Text and placeables survive next to each other"""
    s, t = x.str("s", n), x.str("t", m)
    v = Expression(VariableRef("v"))
    if shape == 0:
        p = [s, v, t]
    elif shape == 1:
        p = [v, s, v]
    elif shape == 2:
        p = [s, t]
    elif shape == 3:
        p = ["", s, "", v, "", t, ""]
    elif shape == 4:
        p = [Expression(s), t]
    elif shape == 5:
        p = [s + "\n", v, "\n" + t]
    elif shape == 6:
        p = [s, Expression("m", "message"), t]
    if kind < 3:
        around(x, PatternMessage(p), kind)
    else:
        alone(x, PatternMessage(p))


def exprs(x, shape, n):
    """Every kind of expression survives, or is refused if its names cannot be written"""
    s = x.str("s", n, "scalar" if n < 2 else SOME)
    # what is a name
    start, more = "re:[a-zA-Z]", "re:[a-zA-Z0-9_-]"
    if n == 0:
        isname = False
    else:
        isname = x.only(s[0], start)
        if n > 1:
            isname = x.all([isname, x.only(s[1:], more)])
    isnum = digits(x, s)
    want = None
    ok = True
    if shape == 0:
        e = Expression(s)
    elif shape == 1:
        e = Expression(s, "number")
        if not isnum:
            want = Expression(s, "number", {}, {"fluent-fn": "NUMBER"})
    elif shape == 2:
        e = Expression(VariableRef(s))
        ok = isname
    elif shape == 3:
        e = Expression(s, "message")
        ok = isname
        if n and s[0] == "-":
            x.reject()
        if "." in s:
            x.reject()
    elif shape == 4:
        e = Expression("m." + s, "message")
        ok = isname
    elif shape == 5:
        e = Expression("-" + s, "message", {"a": "b"})
        ok = isname
        if "." in s:
            x.reject()
    elif shape == 6:
        e = Expression("-m", "message", {"a": s})
    elif shape == 7:
        e = Expression("-m", "message", {s: "1"})
        ok = isname
    elif shape == 8:
        e = Expression(VariableRef("v"), "foo", {"a": s, "b": "c"}, FN)
    elif shape == 9:
        e = Expression(s, "foo", {}, FN)
    elif shape == 10:
        e = Expression(VariableRef("v"), "foo", {s: "c"}, FN)
        ok = isname
    elif shape == 11:
        e = Expression(VariableRef(s), "foo", {}, FN)
        ok = isname
    elif shape == 12:
        if n == 0:
            s = "A"
        e = Expression(None, s.lower(), {}, {"fluent-fn": s})
        ok = x.only(s[0], "re:[A-Z]") if len(s) == 1 else x.all([x.only(s[0], "re:[A-Z]"), x.only(s[1:], "re:[A-Z0-9_-]")])
    elif shape == 13:
        e = Expression(VariableRef("v"), "number", {"a": s})
        want = Expression(VariableRef("v"), "number", {"a": s}, {"fluent-fn": "NUMBER"})
    elif shape == 14:
        e = Expression(VariableRef("v"), "datetime", {"a": s})
        want = Expression(VariableRef("v"), "datetime", {"a": s}, {"fluent-fn": "DATETIME"})
    elif shape == 15:
        e = Expression(VariableRef("v"), "foo", {"a": s}, {"x": s})
        ok = False
    elif shape == 16:
        e = Expression(VariableRef("v"), "foo", {"a": VariableRef("w")}, FN)
        ok = False
    elif shape == 17:
        e = Markup("open", "b")
        ok = False
    msg = PatternMessage(["t", e, "u"])
    try:
        out = fluent_serialize_message(msg)
    except ValueError:
        x.check(x.implies(ok, False), "nothing that can be written is refused")
        return
    x.obs("out", out)
    x.check(ok, "what cannot be written is refused")
    around(x, msg if want is None else PatternMessage(["t", want, "u"]), 0)
    got = fluent_parse_message(out)
    same(x, got, PatternMessage(["t", want or e, "u"]), "alone")


def digits(x, s):
    """s is a Fluent number"""
    neg = s[1:] if s[:1] == "-" else s
    if "." in neg:
        i = neg.index(".")
        parts = [neg[:i], neg[i + 1 :]]
    else:
        parts = [neg]
    for p in parts:
        if len(p) == 0:
            return False
    return x.all([x.only(p, "0123456789") for p in parts])


def entry(x, what, n):
    """Names are written as they are, or refused"""
    s = x.str("s", n)
    ok = False if n == 0 else x.only(s[0], "re:[a-zA-Z]") if n == 1 else x.all([x.only(s[0], "re:[a-zA-Z]"), x.only(s[1:], "re:[a-zA-Z0-9_-]")])
    v, w = PatternMessage(["v"]), PatternMessage(["w"])
    if what == 0:
        e = Entry((s,), v)
        if n and s[0] == "-":
            x.reject()
    elif what == 1:
        e = Entry(("-" + s,), v, {"a": w})
    else:
        e = Entry(("a",), v, {s: w})
    res = Resource(None, [Section((), [Entry(("first",), v), e])])
    try:
        out = "".join(fluent_serialize(res))
    except ValueError:
        x.check(x.implies(ok, False), "names are accepted")
        return
    x.check(ok, "what is not a name is refused")
    x.obs("out", out)
    got = fluent_parse(out, with_linepos=False)
    x.check_eq(got.sections, res.sections, "comes back")


def sel(kind, catch):
    if kind == 0:
        return {"v": Expression(VariableRef("v"), "number")}, VariableRef("v")
    if kind == 1:
        return {"v": Expression(VariableRef("v"), "string")}, VariableRef("v")
    return {"v_1": Expression(VariableRef("v"), "foo", {"a": "b"}, FN)}, VariableRef("v_1")


def select(x, kind, n, m, k, where):
    """Variants with any contents survive"""
    s = x.str("s", n)
    key = x.str("key", k, "re:[a-c0-2.-]") if k else "few"
    if k:
        if key in ("b", "a"):
            x.reject()
        isname = x.only(key[0], "abc") if k == 1 else x.all([x.only(key[0], "abc"), x.only(key[1:], "abc012-")])
        isnum = digits(x, key)
        ok = x.any([isname, isnum])
    else:
        ok = isname = True
        isnum = False
    decl, var = sel(kind, "other")
    if kind == 0 and k:
        # only numeric keys and plural categories
        x.assume(isnum)
    cat = "other" if kind == 0 else "a"
    one = "one" if kind == 0 else "b"
    variants = {(one,): ["x" + s], (key,): [s], (CatchallKey(cat),): [Expression(VariableRef("v")), s]}
    if m == 0:
        variants = {(CatchallKey(cat),): [s]}
    elif m == 1:
        variants = {(key,): [s], (CatchallKey(cat),): []}
    if m == 2 and k and isnum:
        # numbers are first
        variants = {ks: variants[ks] for ks in ((key,), (one,), (CatchallKey(cat),))}
    msg = SelectMessage(decl, (var,), variants)
    try:
        out = fluent_serialize_message(msg)
    except ValueError:
        x.check(x.implies(ok, False), "valid keys are accepted")
        return
    x.check(ok if m else True, "invalid keys are refused")
    x.obs("out", out)
    if where == 3:
        got = fluent_parse_message(out)
    elif where == 0:
        src = "".join(fluent_serialize(Resource(None, [Section((), [Entry(("a",), msg), Entry(("b",), PatternMessage(["last"]))])])))
        res = fluent_parse(src, with_linepos=False)
        x.check_eq([e.id for e in entries_of(res)], [("a",), ("b",)], "ids")
        got = entries_of(res)[0].value
        x.check_eq("".join(fluent_serialize(res)), src, "fixpoint")
    else:
        e = Entry(("-a",), PatternMessage(["v"]), {"d": msg})
        res = fluent_parse("".join(fluent_serialize(Resource(None, [Section((), [e])]))), with_linepos=False)
        got = entries_of(res)[0].properties["d"]
    x.obs("got", got)
    x.check(isinstance(got, SelectMessage), "kind")
    x.check_eq(got.declarations, decl, "declarations")
    x.check_eq(got.selectors, (var,), "selectors")
    x.check_eq(len(got.variants), len(variants), "number of variants")
    for ks, p in variants.items():
        g = None
        for kk, pp in got.variants.items():
            if str(kk[0]) == str(ks[0]):
                g = (type(kk[0]).__name__, canon(pp))
        x.check_eq(g, ((type(ks[0]).__name__), canon(p)), "variant")


def select2(x, n, kind):
    """With two selectors"""
    s = [x.str(f"s{i}", n, "a}{\n *[.\"") for i in range(4)]
    fn = kind == 1
    decl = {"v_1" if fn else "v": Expression(VariableRef("v"), "foo", {}, FN) if fn else Expression(VariableRef("v"), "number"), "w": Expression(VariableRef("w"), "string")}
    o1, o2 = CatchallKey("other"), CatchallKey("y")
    variants = {("one", "x"): ["1" + s[0]], ("one", o2): [s[1], Expression(VariableRef("v"))], (o1, "x"): ["3", s[2]], (o1, o2): [Expression(VariableRef("w")), s[3]]}
    if kind == 2:
        variants.pop((o1, "x"))
    msg = SelectMessage(decl, (VariableRef("v_1" if fn else "v"), VariableRef("w")), variants)
    around(x, msg, 0)
    alone(x, msg)


def fallback(x, c, single):
    """The name that a catch-all key without one gets is not that of another variant"""
    names = ["other", "other1", "few"]
    a, b = names[x.choice("a", 3)], names[x.choice("b", 3)]
    star = CatchallKey([None, "other", "other1"][c])
    if single:
        # with a function, as that of a variable would depend on the keys
        decl = {"v_1": Expression(VariableRef("v"), "foo", {}, FN)}
        x.assume(a != b)
        variants = {(a,): ["1"], (b,): ["2"], (star,): ["3"]}
        sels = (VariableRef("v_1"),)
    else:
        decl = {"v_1": Expression(VariableRef("v"), "foo", {}, FN), "w_1": Expression(VariableRef("w"), "foo", {}, FN)}
        sels = (VariableRef("v_1"), VariableRef("w_1"))
        s2 = CatchallKey(None)
        variants = {(a, b): ["1"], (a, star): ["2"], (s2, b): ["3"], (s2, star): ["4"]}
    msg = SelectMessage(decl, sels, variants)
    out = fluent_serialize_message(msg)
    x.obs("out", out)
    got = fluent_parse_message(out)
    x.obs("got", got)
    x.check_eq((got.declarations, got.selectors), (decl, sels), "selectors")
    x.check_eq(got.variants, variants, "variants")
    for i in range(len(sels)):
        star_names = {str(keys[i]) for keys in got.variants if isinstance(keys[i], CatchallKey)}
        x.check(len(star_names) == 1, "one name")
        x.check(c == 0 or i < len(sels) - 1 or star_names == {str(star)}, "given names are kept")
        if c == 0 or i < len(sels) - 1:
            x.check(not (star_names & {str(keys[i]) for keys in variants if not isinstance(keys[i], CatchallKey)}), "names are unlike")


def subset(x, n, first):
    """With any subset of the variants of several selectors, in order"""
    vs = [VariableRef(v) for v in "vwu"[:n]]
    o = CatchallKey("other")
    combos = [()]
    for _ in vs:
        combos = [c + (k,) for c in combos for k in (("one", "few", o) if n == 2 else ("one", o))]
    keys = [k for i, k in enumerate(combos) if k == combos[-1] or (first >> i & 1 if i < 2 else x.flag(f"k{i}"))]
    s = x.str("s", 1, "a{")
    variants = {k: ["".join("x" if isinstance(p, CatchallKey) else p[0] for p in k), s] for k in keys}
    msg = SelectMessage({v.name: Expression(v, "number") for v in vs}, tuple(vs), variants)
    # each group of variants with the same first keys has a default one
    ok = True
    for k in keys:
        for i in range(n):
            ok = ok and any(j[: i + 1] == k[:i] + (o,) for j in keys)
    try:
        out = fluent_serialize_message(msg)
    except ValueError:
        x.check(not ok, "not refused")
        return
    x.check(ok, "refused without a default variant")
    x.obs("out", out)
    got = fluent_parse_message(out)
    x.check_eq((got.declarations, got.selectors), (msg.declarations, msg.selectors), "selectors")
    x.check_eq({k: canon(p) for k, p in got.variants.items()}, {k: canon(p) for k, p in variants.items()}, "variants")
    x.check(all(str(k) == "other" for keys in got.variants for k in keys if isinstance(k, CatchallKey)), "names of catch-all keys")


def ftl_value(pattern, env):
    """The text of a Fluent pattern"""
    out = ""
    for el in pattern.elements:
        out = out + ftl_element(el, env)
    return out


def ftl_element(el, env):
    kind = type(el).__name__
    if kind == "TextElement":
        return el.value
    if kind == "Placeable":
        return ftl_element(el.expression, env)
    if kind == "StringLiteral":
        return el.value
    if kind == "VariableReference":
        return env[el.id.name]
    if kind == "SelectExpression":
        value = ftl_element(el.selector, env)
        default = None
        for v in el.variants:
            if v.default:
                default = v
            elif (v.key.name if type(v.key).__name__ == "Identifier" else v.key.value) == value:
                return ftl_value(v.value, env)
        return ftl_value(default.value, env)
    raise TypeError(kind)


def msg_value(msg, env):
    """The text of a message"""
    if isinstance(msg, PatternMessage):
        pattern = msg.pattern
    else:
        best = None
        values = [env[msg.declarations[s.name].arg.name] for s in msg.selectors]
        for keys, p in msg.variants.items():
            if all(isinstance(k, CatchallKey) or k == v for k, v in zip(keys, values)):
                score = [isinstance(k, CatchallKey) for k in keys]
                if best is None or score < best[0]:
                    best = (score, p)
        pattern = best[1]
    out = ""
    for p in pattern:
        out = out + (p if isinstance(p, str) else p.arg if isinstance(p.arg, str) else env[p.arg.name])
    return out


SELECTS = [
    "a = { $x ->\n [K] a\n *[K] b\n } c { $x ->\n [K] d\n *[K] e\n }\n",
    "a = { $x ->\n [K] a\n *[K] b\n } c { $y ->\n [K] d\n *[K] e\n } f\n",
    "a = { $x ->\n [K] a{ $y ->\n  [K] b\n *[K] c\n }\n *[K] d\n } e { $y ->\n [K] f\n *[K] g\n }\n",
    "a = { $x ->\n [K] a{ $x ->\n  [K] b\n *[K] c\n }h\n *[K] d\n }\n",
    "a = { $x ->\n *[K] a\n [K] b\n } { $x ->\n *[K] c\n }{ $x ->\n [K] e\n *[K] f\n}\n",
    "a = { $x ->\n [K] { $y ->\n  [K] b\n *[K] c\n }\n *[K] { $y ->\n [K] e\n *[K] f\n }g{$x}\n }\n",
    "a = { $x ->\n [K] a\n [K] b\n *[K] c\n }{ { $x ->\n [K] d\n *[K] e\n } }\n",
]


def meaning(x, idx, alpha):
    """A Fluent pattern is read as a message that says the same, and written as a pattern that does"""
    parts = SELECTS[idx].split("[K]")
    src = parts[0]
    for i, p in enumerate(parts[1:]):
        k = x.str(f"k{i}", 1, alpha)
        src = src + "[" + k + "]" + p
    ast = FluentParser(with_spans=False).parse(src).body[0]
    if type(ast).__name__ != "Message":
        x.reject()
    if not distinct(ast.value):
        x.reject()
    x.obs("src", src)
    msg = fluent_parse(src, with_linepos=False).sections[0].entries[0].value
    x.obs("msg", msg)
    out = "".join(fluent_serialize(Resource(None, [Section((), [Entry(("a",), msg)])])))
    x.obs("out", out)
    ast2 = FluentParser(with_spans=False).parse(out).body[0]
    for a in alpha + "z":
        for b in alpha + "z" if "$y" in src else "z":
            env = {"x": a, "y": b}
            want = ftl_value(ast.value, env)
            x.check_eq(msg_value(msg, env), want, "read as meant")
            x.check_eq(ftl_value(ast2.value, env), want, "written as meant")


def distinct(pattern):
    """The default variant of each selector has a name of its own"""
    for el in pattern.elements:
        while type(el).__name__ == "Placeable":
            el = el.expression
        if type(el).__name__ == "SelectExpression":
            names = [v.key.name if type(v.key).__name__ == "Identifier" else v.key.value for v in el.variants]
            default = [v.default for v in el.variants].index(True)
            if names.count(names[default]) > 1:
                return False
            if not all(distinct(v.value) for v in el.variants):
                return False
    return True


def comments(x, a, b, c, d, alpha="scalar-\r"):
    """Comments come back where they were"""
    com = [x.str(f"c{i}", n, alpha) for i, n in enumerate((a, b, c, d))]
    for k in com:
        if len(k):
            x.assume(x.none(k[-1], "re:\\s"))
    e = Entry(("b",), PatternMessage(["x"]), comment=com[2])
    es = [Entry(("a",), PatternMessage(["y"])), e]
    if d:
        es.append(Comment(com[3]))
    es.append(Entry(("c",), PatternMessage(["z"])))
    info = [Metadata("info", com[3])] if d else []
    res = Resource(None, [Section((), es, com[1]), Section((), [Entry(("d",), PatternMessage(["y"]))], com[3])], com[0], info)
    out = "".join(fluent_serialize(res))
    x.obs("out", out)
    got = fluent_parse(out, with_linepos=False)
    x.obs("got", got)
    x.check_eq(got.comment, com[0], "resource comment")
    x.check_eq(got.meta, info, "info")
    x.check_eq(got.sections, res.sections, "sections")
    x.check_eq("".join(fluent_serialize(got)), out, "fixpoint")
    trim = "".join(fluent_serialize(res, trim_comments=True))
    x.check("#" not in trim, "trimmed")
    x.check_eq([(e.id, e.value) for e in entries_of(fluent_parse(trim))], [(e.id, e.value) for e in entries_of(res)], "trimmed messages")


def source(x, pre, n, mid, m, post, alpha="scalar", whole=True):
    """What was parsed comes back from its serialization"""
    src = pre + x.str("s", n, alpha) + mid + x.str("t", m, alpha) + post
    try:
        res = fluent_parse(src, with_linepos=False) if whole else Resource(None, [Section((), [Entry(("a",), fluent_parse_message(src))])])
    except ValueError:
        return
    x.obs("res", res)
    try:
        out = "".join(fluent_serialize(res))
    except ValueError:
        return
    x.obs("out", out)
    again = fluent_parse(out, with_linepos=False)
    x.obs("again", again)
    want, got = entries_of(res), entries_of(again)
    x.check_eq([(e.id, list(e.properties)) for e in got], [(e.id, list(e.properties)) for e in want], "ids")
    for g, w in zip(got, want):
        same(x, g.value, w.value, "value")
        for p in w.properties:
            same(x, g.properties[p], w.properties[p], "property")
    x.check_eq("".join(fluent_serialize(again)), out, "fixpoint")


def reads(x, n, k):
    """Each part is read as what it is"""
    nm = "re:[a-zA-Z0-9_-]"
    s = x.str("s", n, "re:[^{}\\s\\\\\"\ud800-\udfff]")
    i = "i" + x.str("i", k, nm)
    sp = [" ", "", "\n  "][x.choice("sp", 3)]
    a = x.str("a", 2, "re:[^\"\\\\\n\r\ud800-\udfff]")
    src = (
        f"# {s}\n{i} ={sp}x{s}{{{sp}${i}{sp}}}{{ {i}.{i} }}{{ -{i} }}{{-{i}.{i}({i}:{sp}\"{a}\")->\n [a] b{s}\n  *[{i}] {{\"{a}\"}}c\n }}{{ F{i.upper()}(${i}, {i}: 1.0) }}{{ -12.50 }}{{\"\\u0041\\\\\"}}\n"
        f"  .{i} = {{ ${i} ->\n [one] 1{s}\n [0] 0\n *[other] {{{{${i}}}}}\n}}\n-{i} = w{s}\n"
    )
    res = fluent_parse(src, with_linepos=False)
    x.obs("res", res)
    es = res.sections[0].entries
    v = Expression(VariableRef(i))
    fn = "F" + i.upper()
    pre, post = ["x" + s, v, Expression(i + "." + i, "message"), Expression("-" + i, "message")], [Expression(VariableRef(i), fn.lower(), {i: "1.0"}, {"fluent-fn": fn}), Expression("-12.50", "number"), Expression("A\\")]
    x.check_eq(len(es), 2, "entries")
    x.check_eq((es[0].id, es[0].comment, es[1].id, es[1].comment), ((i,), s, ("-" + i,), ""), "ids")
    same(x, es[1].value, PatternMessage(["w" + s]), "term")
    m = es[0].value
    x.check_eq((m.declarations, m.selectors), ({"sel_1": Expression("-" + i + "." + i, "message", {i: a})}, (VariableRef("sel_1"),)), "selector")
    same(
        x, PatternMessage(m.variants["a",]), PatternMessage(pre + ["b" + s] + post), "first variant",
    )
    same(
        x, PatternMessage(m.variants[CatchallKey(i),]), PatternMessage(pre + [a + "c"] + post), "second variant",
    )
    same(
        x, es[0].properties[i],
        SelectMessage({i: Expression(VariableRef(i), "number")}, (VariableRef(i),), {("0",): ["0"], ("one",): ["1" + s], (CatchallKey("other"),): [v]}), "property",
    )


NAMES = ["n", "n_1", "n_2", "sel_1", "n_1_1"]
# selectors of the variable V, and their values
SELECTORS = {
    "plain": "$V",
    "fn": "NUMBER($V)",
    "opt": "NUMBER($V, minimumFractionDigits: 1)",
    "other": "FOO($V)",
    "none": "FOO()",
}


def names(x, first, second, nest):
    """Names made up for selectors are not those of other variables"""
    a, b, c = x.choice("a", NAMES), x.choice("b", NAMES), x.choice("c", NAMES)
    d = x.choice("d", NAMES) if second else ""
    inner = "{ $" + b + " } x" if not nest else "{ " + SELECTORS[second].replace("V", d) + " ->\n  [k] { $" + b + " } y\n *[o] z\n }"
    src = "{ " + SELECTORS[first].replace("V", a) + " ->\n [one] " + inner + "\n *[other] { FOO($" + c + ") }\n }"
    if second and not nest:
        src += " { " + SELECTORS[second].replace("V", d) + " ->\n  [k] y\n *[o] z\n }"
    vars = [c]
    if not (nest and second == first):
        vars.append(b)
    if first != "none":
        vars.append(a)
    if second and second != "none":
        vars.append(d)
    msg = fluent_parse_message(src)
    x.obs("msg", msg)
    # without a function, a selector is of numbers or strings, depending on its keys
    x.check(len(msg.selectors) == (2 if second and not (first == second and (a == d or first == "none") and first != "plain") else 1), "selectors")
    x.check_eq([s.name for s in msg.selectors], list(msg.declarations), "each selector is declared")
    for (name, e), (how, v) in zip(msg.declarations.items(), [(first, a), (second, d)]):
        x.check_eq(e.arg, None if how == "none" else VariableRef(v), "the selector is of its variable")
        x.check_eq(e.function, None if how == "none" and e.function is None else e.function, "function")
        if e.arg != VariableRef(name) or "fluent-fn" in e.attributes:
            x.check(name not in vars, "a name that is made up is not that of a variable")
    for keys, p in msg.variants.items():
        if len(keys) == 1 and second:
            # the same selector twice: the inner variant never or always matches
            continue
        got = [e.arg.name for e in p if isinstance(e, Expression)]
        one = keys[0] == "one"
        want = [c] if not one else [b] if not nest or keys[1] == "k" else []
        x.check_eq(got, want, "variables of the variant")
    back = fluent_parse_message(fluent_serialize_message(msg))
    x.check_eq([canon(p) for p in back.variants.values()], [canon(p) for p in msg.variants.values()], "again: variants")
    # NUMBER() without options is not written
    if first != "fn" and second != "fn":
        same(x, back, msg, "again")


def refused(x, what, n):
    s = x.str("s", n)
    e = Entry(("i",), PatternMessage(["v"]))
    res = Resource(None, [Section((), [e])])
    if what == 0:
        e.id = ()
    elif what == 1:
        e.id = ("a", s)
    elif what == 2:
        res.sections[0] = Section(("s" + s,), [e])
    elif what == 3:
        res.meta.append(Metadata("x" + s, s))
    elif what == 4:
        res.sections[0].meta.append(Metadata("x", s))
    elif what == 5:
        e.meta.append(Metadata("x", s))
    elif what == 6:
        e.value = PatternMessage([Expression(None, None)])
    elif what == 7:
        e.value = SelectMessage({"v": Expression(VariableRef("v"), "number")}, (VariableRef("v"),), {("a " + s,): ["x"], (CatchallKey(),): ["y"]})
    elif what == 8:
        e.value = PatternMessage([Expression(VariableRef("v" + s), "message")])
    try:
        "".join(fluent_serialize(res))
    except ValueError:
        return
    x.fail("not refused")


def cases(tier):
    d = 1 if tier == "thorough" else 0
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for n in range(0, 4 + d):
        for kind in range(3):
            add("text", f"{n}-{kind}", pre="", n=n, post="", kind=kind)
        add("text", f"{n}-alone", pre="", n=n, post="", kind=0, single=False)
    for i, (pre, n, post) in enumerate([("a\n", 2, "b"), ("a\n ", 2, "b"), ("[", 2, "\n b"), ("a\n  ", 1, "\nb"), ("\n", 2, "a"), ("a", 2, "\n "), ("a\n b\n", 1, " c"), ("  a\n", 1, "b")]):
        for kind in range(3):
            add("text", f"tpl{i}-{kind}", pre=pre, n=n + d, post=post, kind=kind)
        add("text", f"tpl{i}-alone", pre=pre, n=n + d, post=post, kind=0, single=False)
    for shape in range(7):
        for n, m in ((1, 1), (2, 0), (0, 2)) if not d else ((1, 2), (2, 1), (3, 0), (0, 3)):
            for kind in (0, 3) if not d else range(4):
                add("pieces", f"{shape}-{n}{m}-{kind}", shape=shape, n=n, m=m, kind=kind)
    for shape in range(18):
        for n in range(0, 3 + d):
            if shape < 15 or n == 1:
                add("exprs", f"{shape}-{n}", shape=shape, n=n)
    for what in range(3):
        for n in range(0, 3 + d):
            add("entry", f"{what}-{n}", what=what, n=n)
    for kind in range(3):
        for n in range(0, 3):
            for m in range(3):
                for where in (0, 1, 3):
                    add("select", f"{kind}-{n}-{m}-0-{where}", kind=kind, n=n, m=m, k=0, where=where)
        for k in (1, 2, 3):
            add("select", f"{kind}-1-2-{k}-0", kind=kind, n=0, m=2, k=k, where=0)
    for kind in range(3):
        add("select2", f"0-{kind}", n=0, kind=kind)
        add("select2", f"1-{kind}", n=1, kind=kind)
    for single in (True, False):
        for c in range(3):
            add("fallback", f"{c}-{int(single)}", c=c, single=single)
    for n in (2, 3):
        for first in range(4):
            add("subset", f"{n}-{first}", n=n, first=first)
    for idx in range(len(SELECTS)):
        add("meaning", f"{idx}", idx=idx, alpha="abc" if d or idx == 6 else "ab")
        add("meaning", f"{idx}-num", idx=idx, alpha="b0c" if d or idx == 6 else "b0")
    for c in [(0, 0, 0, 0), (1, 1, 1, 1), (2, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (0, 0, 0, 2), (3, 0, 0, 0), (0, 3, 0, 0), (0, 0, 3, 0), (0, 0, 0, 3)]:
        add("comments", "".join(str(n) for n in c), a=c[0], b=c[1], c=c[2], d=c[3])
    for i, (pre, n, mid, m, post) in enumerate([
        ("a = ", 3, "", 0, ""), ("a =\n ", 2, "\n  ", 1, "b"), ("a = {", 3, "}", 0, ""), ("a = b\n .c = ", 2, "\n d = ", 1, ""), ("a = { $x ->\n [", 1, "] b\n *[", 1, "] c\n }"), ("a = { ", 1, "x ->\n *[a] b\n }", 1, "c"),
        ("a = {F(", 3, ")}", 0, ""), ('a = {F("', 2, '")}', 0, ""), ("#", 2, "\na = b\n#", 1, ""), ("a = b\n", 3, "", 0, "c = d"), ('a = { "', 2, '"', 1, "}"), ("-a = ", 1, "{ -b", 1, " }"), ("a = b { $x ->\n *[a] b\n }", 1, "{ $x ->\n [b] a\n *[c]", 1, "d\n }"),
    ]):
        add("source", i, pre=pre, n=n + d, mid=mid, m=m, post=post)
    for n in (0, 1, 2):
        for k in (0, 1, 2):
            add("reads", f"{n}-{k}", n=n, k=k)
    for what in range(9):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    for first in SELECTORS:
        add("names", f"{first}", first=first, second=None, nest=False)
        for second in SELECTORS:
            for nest in (False, True):
                add("names", f"{first}-{second}-{int(nest)}", first=first, second=second, nest=nest)
    return out
