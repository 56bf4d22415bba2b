from moz.l10n.formats.mf2.message_parser import MF2ParseError, mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.mf2.validate import mf2_validate_message
from moz.l10n.model import Expression, Markup, PatternMessage, SelectMessage, VariableRef

from checks.common import joined

BOUNDS = {
    "quick": "every string of up to 6 characters, and the listed templates (quoted patterns, literals, options, attributes, markup, declarations, matchers) "
    "with a hole of up to 5 characters, over every Unicode scalar value",
    "thorough": "as quick with strings of up to 7 characters and holes of up to 6",
}
ASSUMPTIONS = ["sources are str (for bytes, decoding as UTF-8 comes first)"]

TEMPLATES = {
    "free": ("", ""),
    "quoted": ("{{", "}}"),
    "spquoted": (" {{a", "}} "),
    "expr": ("{", "}"),
    "lit": ("{|", "|}"),
    "num": ("{1", "}"),
    "var": ("{$a", "}"),
    "fn": ("{:f", "}"),
    "opt": ("{:f o=", "}"),
    "opt2": ("{$a :f o=|1| ", " q=$b}"),
    "att": ("{$a @b", "}"),
    "att2": ("{$a @b=", " @c}"),
    "markup": ("{#b", "}"),
    "close": ("{/b ", "}"),
    "local": (".local $x", "{1} {{a}}"),
    "localarg": (".local $x={", "}{{a}}"),
    "input": (".input{$x", "}{{a}}"),
    "two": (".input{$x :f}", "{{a}}"),
    "dep": (".local $x={$y} .local $y={", "}{{}}"),
    "match": (".input{$x :f}.match", "*{{a}}"),
    "key": (".input{$x :f}.match $x ", " {{a}} * {{}}"),
    "keyend": (".input{$x :f}.match $x * {{a}}", ""),
    "key2": (".input{$x :f}.match $x $x 1", "{{a}}* *{{}}"),
    "dot": (".", "{{a}}"),
    "end": ("{{a}}", ""),
    "esc": ("a\\", "b"),
    "selfopt": (".local $x={1 :f o=$", "}{{a}}"),
    "inputopt": (".input{$x :f o=$", "}{{a}}"),
    "laterdecl": (".local $y={1 :f o=$", "}.input{$x}{{a}}"),
    "chain": (".local $y={$", "}.local $x={$y :f}.match $x *{{a}}"),
    "selvar": (".input{$x :f}.local $y={$x}.match $", " *{{a}}"),
    "badchain": (".input{$x}.local $y={$", "}.match $y *{{a}}"),
    "nkeys": (".input{$x :f}.match $x $x ", "{{a}}* * {{}}"),
}


def text_parts(msg):
    ps = [msg.pattern] if isinstance(msg, PatternMessage) else list(msg.variants.values())
    return [p for pat in ps for p in pat if isinstance(p, str)]


def refs(expr):
    out = [v for v in expr.options.values() if isinstance(v, VariableRef)]
    if isinstance(expr.arg, VariableRef):
        out.append(expr.arg)
    return [v.name for v in out]


def check_valid(x, msg):
    """The validity rules that MessageFormat 2 sets for its data model, other than those on syntax."""
    seen = []  # names which may not be declared any more
    functions = []  # (name, whether it leads to a function)
    for name, expr in msg.declarations.items():
        is_input = isinstance(expr.arg, VariableRef) and expr.arg.name == name
        for s in seen:
            x.check(s != name, "no duplicate or late declaration")
        own = [v.name for v in expr.options.values() if isinstance(v, VariableRef)]
        for s in own:
            x.check(s != name, "no declaration refers to itself")
        ok = expr.function is not None
        if not ok and not is_input and isinstance(expr.arg, VariableRef):
            for other, f in functions:
                if other == expr.arg.name:
                    ok = f
        functions.append((name, ok))
        seen += [name] + refs(expr)
    if isinstance(msg, SelectMessage):
        x.check(len(msg.selectors) > 0, "a selector")
        for sel in msg.selectors:
            ok = False
            for other, f in functions:
                if other == sel.name:
                    ok = f
            x.check(ok, "each selector has a function")
        fallback = False
        prev = []
        for keys in msg.variants:
            x.check(len(keys) == len(msg.selectors), "as many keys as selectors")
            shape = [k if isinstance(k, str) else None for k in keys]
            for p in prev:
                x.check(shape != p, "no duplicate variant")
            prev.append(shape)
            if not any(isinstance(k, str) for k in keys):
                fallback = True
        x.check(fallback, "a fallback variant")


def parse(x, name, n):
    pre, post = TEMPLATES[name]
    src = pre + x.str("src", n, "scalar") + post
    try:
        msg = mf2_parse_message(src)
    except MF2ParseError as e:
        x.check(0 <= e.pos and e.pos <= len(src), "the error position is in the source")
        x.obs("error", True)
        return
    check_valid(x, msg)
    mf2_validate_message(msg)  # ValueError here is a violation
    x.obs("msg", msg)  # (validation sorts the declarations)
    out = mf2_serialize_message(msg)
    x.obs("out", out)
    got = mf2_parse_message(out)
    if isinstance(msg, PatternMessage):
        x.check_eq(got, PatternMessage(joined(msg.pattern), msg.declarations), "reparsed message")
    else:
        x.check_eq(got, SelectMessage(msg.declarations, msg.selectors, {k: joined(p) for k, p in msg.variants.items()}), "reparsed message")
    # no text is dropped, and none appears from nowhere
    for t in text_parts(msg):
        x.check(len(t) > 0, "no empty text part")
        x.check(x.none(t, "\x00"), "NUL is not accepted")


def plain(x, n):
    """Text without syntax characters stands for itself."""
    src = x.str("src", n, "nonnul")
    x.assume(x.none(src, "\\{}"))
    x.assume(x.none(src[0], "\t\n\r \u3000.\u061c\u200e\u200f\u2066\u2067\u2068\u2069"))
    x.check_eq(mf2_parse_message(src), PatternMessage([src]), "plain text")


def escaped(x, n):
    """Escapes stand for the escaped character and nothing else can be escaped."""
    c = x.str("c", 1, "nonnul")
    t = x.str("t", n, "nonnul")
    x.assume(x.none(t, "\\{}|"))
    quoted = x.flag("quoted")
    src = "{|" + t + "\\" + c + t + "|}" if quoted else "{{" + t + "\\" + c + t + "}}"
    try:
        msg = mf2_parse_message(src)
    except MF2ParseError:
        x.check(x.none(c, "\\{}|"), "escapable characters are accepted")
        return
    x.check(x.only(c, "\\{}|"), "only escapable characters are accepted")
    s = t + c + t
    x.check_eq(msg, PatternMessage([Expression(s) if quoted else s]), "escape")


def literal_words(x, n):
    """An unquoted literal is taken whole or the source is rejected."""
    s = x.str("s", n, "nonnul")
    x.assume(x.none(s, "\t\n\r \u3000.\u061c\u200e\u200f\u2066\u2067\u2068\u2069|$:@#/{}"))
    try:
        msg = mf2_parse_message("{" + s + "}")
    except MF2ParseError:
        return
    x.check_eq(msg, PatternMessage([Expression(s)]), "unquoted literal")


def cases(tier):
    t = tier == "thorough"
    out = []
    for name in TEMPLATES:
        top = (7 if t else 6) if name == "free" else (6 if t else 5)
        for n in range(0, top + 1):
            out.append(dict(name=f"parse-{name}-{n}", fn="parse", params=dict(name=name, n=n)))
    for fn in ("plain", "escaped", "literal_words"):
        for n in range(1, 7 if t else 5):
            out.append(dict(name=f"{fn}-{n}", fn=fn, params=dict(n=n)))
    return out
