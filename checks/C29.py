from json import dumps

from moz.l10n.formats import Format
from moz.l10n.formats.android.parse import android_parse
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.formats.xliff.parse import xliff_parse
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Entry, Expression, PatternMessage, Resource, Section, SelectMessage, VariableRef

from checks.C08 import canon
from checks.C09 import flat
from checks.common import joined, pm
from checks.resources import COUNT, PARSE, SERIALIZE, build, options

BOUNDS = {
    "quick": "all texts of 0-3 characters, and of 3-9 templates of each format with 1-2 free characters; text, placeholders and markup read from 2-4 resources of each format with 1-2 free characters",
    "thorough": "as quick with 1-2 more free characters",
}
ASSUMPTIONS = [
    "lxml and json are replaced by models in Python",
    "the text of a message of a WebExtension has no characters that JSON escapes",
    "for formats with no syntax of their own for messages, the value of a file is its text, as decided by C02-C05 and C07",
    "the lines of a Fluent message are indented in a file, and a message has no attributes",
]
XMLCH = "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
WEBEXT = {"a": {"content": "$1"}, "B1": {"content": "x", "example": "y"}}


def read_file(x, fmt, src, opt):
    """The value that the same text has in a file"""
    if fmt == "properties":
        res = properties_parse("a=" + src, printf_placeholders=opt)
    elif fmt == "android":
        res = android_parse('<resources><string name="a">' + src + "</string></resources>", ascii_spaces=opt)
    elif fmt == "xliff":
        tool = '<header><tool tool-id="com.apple.dt.xcode"/></header>' if opt else ""
        unit = '<trans-unit id="a"><source>x</source><target>' + src + "</target></trans-unit>"
        res = xliff_parse('<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2"><file original="a">' + tool + "<body>" + unit + "</body></file></xliff>")
    elif fmt == "fluent":
        res = fluent_parse("a =\n " + src.replace("\n", "\n ") + "\n", with_linepos=False)
    else:
        src_json = '{"a":{"message":' + dumps(src) + ',"placeholders":' + dumps(WEBEXT) + "}}"
        res = PARSE["webext"](src_json)
    if res.comment or len(res.sections) != 1 or len(res.sections[0].entries) != 1:
        raise ValueError("other contents")
    e = res.sections[0].entries[0]
    if not isinstance(e, Entry) or tuple(e.id) != ("a",) or e.comment or e.properties:
        raise ValueError("other contents")
    return e.value


def read(fmt, src, opt):
    f = Format[fmt]
    if fmt == "android":
        return parse_message(f, src, android_ascii_spaces=opt)
    if fmt == "xliff":
        return parse_message(f, src, xliff_is_xcode=opt)
    if fmt == "webext":
        return parse_message(f, src, webext_placeholders=WEBEXT)
    return parse_message(f, src, printf_placeholders=opt)


def attempt(f, *args):
    try:
        return f(*args)
    except (ValueError, SyntaxError):
        return None


def norm(msg, fmt=None):
    """msg with its texts joined, or with its literals as text"""
    f = {"android": flat, "fluent": canon}.get(fmt, joined)
    if isinstance(msg, SelectMessage):
        return SelectMessage(msg.declarations, msg.selectors, {k: f(p) for k, p in msg.variants.items()})
    return None if msg is None else PatternMessage(f(msg.pattern), msg.declarations)


def lax(x, src, msg):
    """An empty value, or spaces or syntax before it, which a single message may have and a file may not"""
    return msg == PatternMessage([]) or src == "" or x.eq(x.inset(src[0], "re:[\\s.*\\[]"), True)


def source(x, fmt, pre, n, post, opt=False):
    """A text as a message, and as a value in a file"""
    src = pre + x.str("s", n, "re:[^\ud800-\udfff]" if fmt == "properties" else "re:[^\ud800-\udfff\x00-\x1f\"\\\\]" if fmt == "webext" else XMLCH) + post
    msg = attempt(read, fmt, src, opt)
    x.obs("msg", msg)
    val = attempt(read_file, x, fmt, src, opt)
    if fmt == "properties" and msg is None:
        # Blank values are not accepted, and other lines are not a part of the value
        if x.eq(x.none(src, "\n\r"), True):
            x.check_eq(joined(val.pattern), [], "any line is a value")
    elif fmt == "android" and val is None:
        # A file has to declare its entities
        x.check(x.implies(x.none(src, "&"), msg is None), "the same as in a file")
    elif fmt != "fluent" or not lax(x, src, msg):
        x.check_eq(norm(msg), norm(val), "the same as in a file")
    if msg is None:
        return
    out = serialize_message(Format[fmt], msg)
    x.obs("out", out)
    x.check_eq(norm(read(fmt, out, opt), fmt), norm(msg, fmt), "the message comes back")


def plain(x, fmt, pre, n, post, opt):
    """Formats with no syntax for messages"""
    src = pre + x.str("s", n) + post
    f = Format[fmt]
    msg = parse_message(f, src, printf_placeholders=opt)
    if not opt:
        x.check_eq(msg, pm(src), "text")
    x.check_eq(serialize_message(f, msg), src, "the text comes back")
    x.check_eq(serialize_message(f, msg.pattern), src, "the pattern too")


def from_file(x, fmt, i, n, m):
    """Each message of a file, on its own"""
    s, v = x.str("s", n, "re:[a-z]"), x.str("v", m, XMLCH)
    try:
        res = PARSE[fmt]("".join(SERIALIZE[fmt](build(fmt, i, s, v), **options(fmt, i))))
    except ValueError:
        x.reject()
    f = Format[fmt]
    for sec in res.sections:
        if fmt == "android" and tuple(sec.id) == ("!ENTITY",):
            continue
        for e in sec.entries:
            if not isinstance(e, Entry):
                continue
            msg = e.value
            if isinstance(msg, SelectMessage) and fmt != "fluent":
                try:
                    serialize_message(f, msg)
                    x.fail("plurals are not supported")
                except ValueError:
                    continue
            out = serialize_message(f, msg)
            x.obs("out", out)
            if fmt == "webext":
                ph = {}
                for name, d in msg.declarations.items():
                    ph[name] = {"content": d.attributes["source"] if isinstance(d.arg, VariableRef) else d.arg}
                    if "example" in d.attributes:
                        ph[name]["example"] = d.attributes["example"]
                got = parse_message(f, out, webext_placeholders=ph)
            elif fmt == "xliff":
                got = parse_message(f, out, xliff_is_xcode=sec.id[0] != "f")
            else:
                got = parse_message(f, out)
            x.check_eq(norm(got, fmt), norm(msg, fmt), "each message")
            if isinstance(msg, PatternMessage) and not msg.declarations:
                x.check_eq(serialize_message(f, msg.pattern), out, "each pattern")


def unsupported(x, fmt, n):
    """Errors rather than a loss of contents"""
    v = x.str("v", n, XMLCH)
    q = {"n": Expression(VariableRef("n"), "number")}
    sel = SelectMessage(q, (VariableRef("n"),), {(CatchallKey(),): ["x" + v]})
    nosrc = PatternMessage(["x", Expression("y" + v, "foo"), v])
    msgs = [sel]
    if fmt not in ("android", "mf2", "xliff"):
        msgs.append(nosrc)
    for msg in msgs:
        try:
            out = serialize_message(Format[fmt], msg)
        except ValueError:
            continue
        x.check(msg is sel and fmt in ("fluent", "mf2"), "not supported")
    decl = PatternMessage(["x" + v], {"d": Expression(v, "f")})
    try:
        out = serialize_message(Format[fmt], decl)
    except ValueError:
        return
    # declarations that are not used mean nothing in these
    x.check(fmt in ("fluent", "mf2", "properties", "webext"), "declarations are not supported")


SRC = {
    "properties": [("a\\", ""), ("\\u00", "z"), ("a", " "), ("%", "$S"), ("%1$S", "%d"), ("a\\\n", "b"), (" ", "\\ ")],
    "android": [("a", " "), ('"', '" b'), ("\\", "b"), ("a %1$d ", " b"), ("<b>", "</b>"), ("<![CDATA[", "]]>"), ("&", "; b"), ("\\u00", "1"), ("@", "a"), ("<b c='", "'/>")],
    "xliff": [("a", " "), ("<g id='1'>", "</g>"), ("%", "@ b"), ("<x id='", "'/>b"), ("&#x", ";"), ("<!--", "--> b"), ("<![CDATA[", "]]>")],
    "fluent": [("a", "b"), ("a\n", "b"), ("{ \"", "\" }"), ("{ $a", " }"), ("{ $a ->\n", "[one] b\n*[o] c\n}"), ("a\n  ", "\n b"), ("{ $n ->\n[1] b\n*[o]", "c\n}\n"), ("{ -", "(a: 1) }"), ("{ FOO(", ") }")],
    "webext": [("$", "$"), ("$a$", "$1"), ("$A", "$"), ("a$", "1$B"), ("$1$", "$B1$")],
}
PLAIN = ["dtd", "gettext", "inc", "ini", "plain_json"]


def cases(tier):
    d = 1 if tier == "thorough" else 0
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for fmt, srcs in SRC.items():
        for opt in (False, True):
            if opt and fmt in ("fluent", "webext"):
                continue
            for n in range((3 if fmt == "properties" else 2) + d + 1):
                add("source", f"{fmt}-{n}-{opt}", fmt=fmt, pre="", n=n, post="", opt=opt)
            for k, (pre, post) in enumerate(srcs):
                for n in range(3 + d):
                    add("source", f"{fmt}-t{k}-{n}-{opt}", fmt=fmt, pre=pre, n=n, post=post, opt=opt)
    for fmt in PLAIN:
        for n in range(4 + d):
            add("plain", f"{fmt}-{n}", fmt=fmt, pre="", n=n, post="", opt=False)
        add("plain", f"{fmt}-printf", fmt=fmt, pre="a%", n=3 + d, post="d %s", opt=True)
    for fmt in ("android", "fluent", "properties", "webext", "xliff"):
        for i in range(COUNT[fmt]):
            for n, m in ((0, 1), (1, 2)) + (((0, 3),) if d else ()):
                add("from_file", f"{fmt}-{i}-{n}{m}", fmt=fmt, i=i, n=n, m=m)
    for fmt in PLAIN + list(SRC) + ["mf2"]:
        for n in (0, 2):
            add("unsupported", f"{fmt}-{n}", fmt=fmt, n=n)
    return out
