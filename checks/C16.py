from moz.l10n.formats.android.parse import android_parse_message
from moz.l10n.formats.android.serialize import android_serialize_message
from moz.l10n.formats.properties.parse import properties_parse, properties_parse_message
from moz.l10n.formats.properties.serialize import properties_serialize, properties_serialize_message
from moz.l10n.formats.xliff.parse_xcode import parse_xcode_pattern
from moz.l10n.model import Expression, PatternMessage, VariableRef
from moz.l10n.util.printf import parse_printf_pattern

BOUNDS = {
    "quick": "all strings of up to 5 characters over every Unicode scalar value; all strings of the stated templates with up to 6 more characters; up to 3 placeholders of each form",
    "thorough": "all strings of up to 7 characters; templates with up to 8",
}
ASSUMPTIONS = ["for Android strings, the text has no spaces, quotes, backslashes, markup or references, which are not read literally"]


def source_of(x, parts):
    """The concatenated source text of the parts, each of which has to be well formed."""
    out = ""
    text = False
    for p in parts:
        if isinstance(p, str):
            x.check(not text, "no two adjacent texts")
            x.check(p != "", "no empty text")
            out = out + p
            text = True
        else:
            text = False
            x.check(isinstance(p, Expression), "text or expression")
            src = p.attributes["source"]
            x.check(isinstance(src, str), "the source is recorded")
            x.check(src[0] == "%", "a placeholder starts with a percent sign")
            if p.arg == "%":
                x.check(src[len(src) - 1] == "%", "literal percent sign")
            else:
                x.check(isinstance(p.arg, VariableRef), "a placeholder is a variable")
                x.check(p.arg.name != "", "a placeholder has a name")
                x.check(p.function is None or p.function != "", "a function has a name")
            out = out + src
    return out


def lossless(x, which, pre, n, post, alpha="scalar"):
    s = pre + x.str("s", n, alpha) + post
    parts = list((parse_printf_pattern if which == "printf" else parse_xcode_pattern)(s))
    x.obs("parts", parts)
    x.check_eq(source_of(x, parts), s, "concatenated sources give the text")
    if n and not pre and not post:
        # text without a percent sign is one text
        if x.eq(x.none(s, "%"), True):
            x.check_eq(parts, [s], "no percent sign, no placeholder")


def spec(x, which):
    """Placeholders are recognised whole, and named by their argument."""
    num = x.str("num", 1, "123456789") if x.flag("numbered") else ""
    t = x.str("type", 1, "cdsxXufgeGE@p" if which == "xcode" else "cdsxXufgeGE@pCSaAFDOUo")
    pct = "%" + (num + "$" if num != "" else "") + ["", "-", "0", "5", ".2", "05.1"][x.choice("flags", 6)] + ["", "l", "ll", "h", "hh"][x.choice("size", 5) if which == "printf" else 0] + t
    a, b = x.str("a", 1), x.str("b", 1)
    x.assume(x.none(a + b, "%"))
    parts = list((parse_printf_pattern if which == "printf" else parse_xcode_pattern)(a + pct + b))
    x.obs("parts", parts)
    x.check(len(parts) == 3, "text, placeholder, text")
    x.check_eq([parts[0], parts[2]], [a, b], "surrounding text")
    ph = parts[1]
    x.check_eq(ph.attributes["source"], pct, "the source of the placeholder")
    if which == "printf":
        x.check_eq(ph.arg, VariableRef("arg" + num), "name")
        x.check(x.implies(x.only(t, "dxXupDOUo"), x.eq(ph.function, "integer")), "integer")
        x.check(x.implies(x.only(t, "csCS"), x.eq(ph.function, "string")), "string")
        x.check(x.implies(x.only(t, "fgeGEaAF"), x.eq(ph.function, "number")), "number")
        x.check(x.implies(x.only(t, "@"), x.eq(ph.function, "printf")), "other")
    else:
        x.check(ph.arg.name.endswith(num), "name")
        x.check(x.implies(x.only(t, "dxXup"), x.eq(ph.function, "integer")), "integer")
        x.check(x.implies(x.only(t, "csCS"), x.eq(ph.function, "string")), "string")
        x.check(x.implies(x.only(t, "fgeGE"), x.eq(ph.function, "number")), "number")
        x.check(x.implies(x.only(t, "@"), x.eq(ph.function, None)), "other")


def named(x, n):
    """Arguments with names are referred to by the whole of them, dates and times by their letters"""
    name = "a" + x.str("name", n, "re:[\\w.]")
    t = x.str("type", 1, "dsf@")
    date = x.flag("date")
    src = "%(" + name + ")" + ["", "-", "0", "5.2"][x.choice("flags", 4)] + (["T", "t"][x.choice("case", 2)] + "HMd"[x.choice("letter", 3)] if date else t)
    a = x.str("a", 1, "re:[^%\ud800-\udfff]")
    if date:
        # any more letters are a part of it
        x.assume(x.none(a, "re:[A-Za-z]"))
    got = list(parse_printf_pattern(a + src + a))
    x.obs("got", got)
    x.check(len(got) == 3, "text, placeholder, text")
    x.check_eq([got[0], got[2]], [a, a], "surrounding text")
    x.check_eq((got[1].arg, got[1].attributes), (VariableRef(name), {"source": src}), "name and source")
    if date:
        x.check_eq(got[1].function, "datetime", "date")
    else:
        for ch, fn in zip("dsf@", ("integer", "string", "number", "printf")):
            x.check(x.implies(x.eq(t, ch), x.eq(got[1].function, fn)), fn)


def percent(x, which, n):
    """%% is a literal percent sign and does not start a placeholder"""
    t = x.str("t", n)
    x.assume(x.none(t, "%"))
    s = t + "%%" + t
    parts = list((parse_printf_pattern if which == "printf" else parse_xcode_pattern)(s))
    x.check_eq([p for p in parts if not isinstance(p, str)], [Expression("%", attributes={"source": "%%"})], "literal percent sign")
    x.check_eq([p for p in parts if isinstance(p, str)], [t, t] if n else [], "text around it")


def properties(x, pre, n, post):
    """.properties values with placeholders survive parse and serialize, as single values and in files"""
    s = pre + x.str("s", n) + post
    src = properties_serialize_message(PatternMessage([s]))
    msg = properties_parse_message(src, printf_placeholders=True)
    x.obs("msg", msg)
    x.check_eq(source_of(x, msg.pattern), s, "message with placeholders")
    again = properties_serialize_message(msg)
    x.check_eq(properties_parse_message(again, printf_placeholders=True), msg, "message again")
    res = properties_parse("key = " + src + "\n", printf_placeholders=True)
    x.check_eq(res.sections[0].entries[0].value, msg, "entry with placeholders")
    res2 = properties_parse("".join(properties_serialize(res)), printf_placeholders=True)
    x.check_eq(res2.sections[0].entries[0].value, msg, "entry again")


def android(x, pre, n, post):
    """Placeholders of Android strings keep their source, and %% and %n what they stand for"""
    s = pre + x.str("s", n, "re:[^\ufffe\uffff\ud800-\udfff\x00-\x20\x7f-\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000\"'\\\\<&@?]") + post
    if s[0] == "?" or s[0] == "@" or "]]>" in s:
        x.reject()
    msg = android_parse_message(s)
    x.obs("msg", msg)
    out = ""
    for p in msg.pattern:
        x.check(isinstance(p, (str, Expression)), "text or expression")
        src = p if isinstance(p, str) else p.attributes["source"]
        out = out + src
        if isinstance(p, Expression):
            x.check(src[0] == "%", "a placeholder starts with a percent sign")
            if src == "%%" or src == "%n":
                x.check_eq(p.arg, "%" if src == "%%" else "\n", "literal")
    x.check_eq(out, s, "concatenated sources give the text")


TYPES = {"boolean": "bB", "string": "cCsS", "integer": "dhHoxX", "number": "aAeEfgG"}


def arguments(placeholders):
    """Which argument each placeholder formats, and how"""
    out = []
    ordinary, last = 0, None
    for src in placeholders:
        if src[1] == "<":
            out.append((last, src[2:]))
        elif len(src) > 2 and src[2] == "$":
            last = src[1]
            out.append((last, src[3:]))
        else:
            ordinary += 1
            last = f"{ordinary}"
            out.append((last, src[1:]))
    return out


def android_spec(x, k):
    """Android placeholders are recognised whole, and keep their arguments"""
    srcs = []
    text = ""
    types = []
    for i in range(k):
        idx = x.choice(f"idx{i}", ["", "n", "<"] if i else ["", "n"])
        if idx == "n":
            idx = x.str(f"n{i}", 1, "123456789") + "$"
        t = x.str(f"t{i}", 1, "bBcCsSdhHoxXaAeEfgG")
        if k < 3 and x.flag(f"time{i}"):
            t = x.choice(f"T{i}", ["t", "T"]) + t
        flags = x.choice(f"f{i}", ["", "-", "+5", "05.1", ",", "(", " "]) if k == 1 else ""
        types.append(t)
        srcs.append("%" + idx + flags + t)
        text += "abc"[i] + srcs[-1].replace("<", "&lt;")
    msg = android_parse_message(text + "z")
    x.obs("msg", msg)
    x.check_eq([p for p in msg.pattern if isinstance(p, str)], list("abc"[:k]) + ["z"], "surrounding text")
    phs = [p for p in msg.pattern if not isinstance(p, str)]
    x.check(len(phs) == k and len(msg.pattern) == 2 * k + 1, "placeholders")
    got = arguments([p.attributes["source"] for p in phs])
    x.check_eq(got, arguments(srcs), "the same arguments")
    for p, (arg, _), t, src in zip(phs, got, types, srcs):
        func = None
        if len(t) == 2:
            func = "datetime"
        else:
            for f, ts in TYPES.items():
                if x.inset(t, ts):
                    func = f
        x.check_eq(p.function, func, "the type of the placeholder")
        if src[2:3] == "$":
            x.check_eq(p.arg, VariableRef("arg" + arg), "name")
    again = android_serialize_message(msg)
    x.obs("again", again)
    x.check_eq(android_parse_message(again), msg, "the same message again")
    x.check_eq(again.replace("&lt;", "<"), "".join("abc"[i] + p.attributes["source"] for i, p in enumerate(phs)) + "z", "placeholders are written as their source")


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for which in ("printf", "xcode"):
        for n in range(0, 8 if t else 6):
            add("lossless", f"{which}-{n}", which=which, pre="", n=n, post="")
        for pre, n, post in [("%", 4, ""), ("%1$", 4, "s"), ("%(a", 3, ")d"), ("%T", 2, ""), ("%.", 3, "f"), ("%#@", 3, "@"), ("%1$#@a", 3, "@"), ("%ll", 2, "d")]:
            add("lossless", f"{which}-{pre}-{post}", which=which, pre=pre, n=n + (2 if t else 0), post=post)
        for n in range(0, 4):
            add("percent", f"{which}-{n}", which=which, n=n)
        add("spec", which, which=which)
    for n in range(0, 3 + (tier == "thorough")):
        add("named", n, n=n)
    for n in range(1, 5 if t else 4):
        add("properties", n, pre="", n=n, post="")
    for pre, n, post in [("%", 3, ""), (" %1$", 2, " "), ("%(", 2, ")d")]:
        add("properties", f"{pre}-{post}", pre=pre, n=n + (1 if t else 0), post=post)
    for n in range(1, 6 if t else 5):
        add("android", n, pre="", n=n, post="")
    for pre, n, post in [("%", 3, ""), ("%1$", 2, "d"), ("a%", 2, "%")]:
        add("android", f"{pre}-{post}", pre=pre, n=n + (1 if t else 0), post=post)
    for k in range(1, 4):
        add("android_spec", k, k=k)
    return out
