from configparser import Error as ConfigError

from iniparse.ini import INISection
from moz.l10n.formats import Format, UnsupportedFormat
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.mf2.message_parser import MF2ParseError
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.message import parse_message
from moz.l10n.model import Comment, Entry, Expression, PatternMessage, Resource, Section, VariableRef
from moz.l10n.resource import parse_resource

BOUNDS = {
    "quick": "every source text of up to 5 code points (surrogates and NUL included) for properties, DTD, inc and ini files, and of up to 4 for messages of the properties, webext, mf2, dtd, ini and plain formats; "
    "the listed templates with up to 4 free code points; JSON files with any kind of value in any place; every text is followed to the end of the parser or to its error",
    "thorough": "as quick with one more code point",
}
ASSUMPTIONS = [
    "sources are str (decoding bytes comes first, and may raise UnicodeDecodeError)",
    "the errors meant are ValueError (with MF2ParseError among them) and, for .ini files, those of configparser; a path that takes more than 60 s or a million steps counts as not terminating",
]
PARSERS = {"properties": properties_parse, "dtd": dtd_parse, "inc": inc_parse, "ini": ini_parse}


def well_formed(x, res):
    """The parsed resource follows the data model"""
    x.check(isinstance(res, Resource), "a resource")
    for s in res.sections:
        x.check(isinstance(s.id, tuple) and isinstance(s.comment, str), "section")
        for e in s.entries:
            if isinstance(e, Entry):
                x.check(len(e.id) == 1 and isinstance(e.id[0], str), "entry id")
                x.check(isinstance(e.value, PatternMessage) and all(isinstance(p, str) for p in e.value.pattern), "entry value")
                x.check(isinstance(e.comment, str), "entry comment")
            else:
                x.check(isinstance(e, Comment) and e.comment != "", "standalone comment")


def file(x, fmt, pre, n, post):
    INISection._compat_skip_empty_lines.clear()  # state of iniparse that is shared by all paths, and not used by moz.l10n
    src = pre + x.str("src", n, "any") + post
    try:
        res = PARSERS[fmt](src)
    except ValueError:
        x.check(fmt != "properties", "every text is a .properties file")
        x.obs("error", "ValueError")
        return
    except ConfigError:
        x.check(fmt == "ini", "only for .ini files")
        x.obs("error", "ConfigError")
        return
    x.obs("res", res)
    well_formed(x, res)
    again = PARSERS[fmt](src)
    x.check_eq(again, res, "parsing again gives the same")


def message(x, fmt, pre, n, post, printf):
    src = pre + x.str("src", n, "any") + post
    f = Format[fmt]
    try:
        if fmt == "webext":
            msg = parse_message(f, src, webext_placeholders={"a": {"content": "$1"}, "B1": {"content": "x"}} if x.flag("ph") else None)
        else:
            msg = parse_message(f, src, printf_placeholders=printf)
    except ValueError as e:
        x.check(fmt in ("properties", "webext", "mf2"), "other messages always parse")
        x.check(isinstance(e, MF2ParseError) == (fmt == "mf2"), "the documented error")
        x.obs("error", True)
        return
    x.obs("msg", msg)


JSON_VALUES = ["1", "null", "true", "[]", '"s"', "{}", '[{"a": "b"}]', '{"content": 1}', '{"content": null}', '{"x": "$1"}', '{"content": "$1"}', '{"content": "c", "example": 1}', '{"a": {"message": "m"}}']


def json(x, how, at, n):
    """JSON files of any structure"""
    v = x.choice("value", JSON_VALUES)
    s = x.str("s", n, "ab$1@")
    ph = '{"' + ("a" if n else "b") + '": {"content": "x"}}'
    # where the value is
    doc = {
        "root": v,
        "entry": '{"k": {"message": "m"}, "l": ' + v + "}",
        "message": '{"k": {"message": ' + v + "}}",
        "description": '{"k": {"message": "' + s + '", "description": ' + v + "}}",
        "other": '{"k": {"message": "m", "other": ' + v + "}}",
        "placeholders": '{"k": {"message": "$' + s + '$", "placeholders": ' + v + "}}",
        "placeholder": '{"k": {"message": "$' + s + '$", "placeholders": {"a": ' + v + "}}}",
        "content": '{"k": {"message": "$' + s + '$", "placeholders": {"a": {"content": ' + v + "}}}}",
        "example": '{"k": {"message": "$' + s + '$", "placeholders": {"a": {"content": "c", "example": ' + v + "}}}}",
        "deep": '{"k": {"l": {"m": ' + v + ', "n": "' + s + '"}}}',
        "missing": '{"k": {"description": "d", "placeholders": ' + v + "}}",
        "twice": '{"k": "' + s + '", "k": ' + v + "}",
    }[at]
    if x.flag("comment"):
        doc = "// c\n" + doc
    try:
        if how == "detect":
            res = parse_resource("messages.json", doc)
        elif how == "bytes":
            res = parse_resource(None, doc.encode("utf-8"))
        else:
            res = parse_resource(Format[how], doc)
    except (ValueError, UnsupportedFormat) as e:
        x.obs("error", True)
        x.check(how in ("webext", "plain_json") or isinstance(e, UnsupportedFormat) or at not in ("root", "entry", "message", "description", "other", "deep", "missing", "twice"), "detection finds out about the format")
        return
    x.obs("res", res)
    for e in res.sections[0].entries:
        x.check(isinstance(e.comment, str), "entry comment")
        x.check(isinstance(e.value, PatternMessage), "entry value")
        for p in e.value.pattern:
            x.check(isinstance(p, (str, Expression)), "pattern")
            x.check(isinstance(p, str) or isinstance(p.arg, (str, VariableRef)), "argument")
        for d in e.value.declarations.values():
            x.check(isinstance(d.arg, (str, VariableRef)), "content of a placeholder")


FILES = {
    "properties": [("", ""), ("k=\\", ""), ("#", "\nk=v")],
    "dtd": [("", ""), ("<!ENTITY a ", ">"), ('<!ENTITY a "', ""), ("<!--", "-->"), ("<!ENTITY % a SYSTEM 'b'>", "%a;"), ("<!ENTITY", '"">'), ("<!-- a --", "<!ENTITY a 'b'>\n")],
    "inc": [("", ""), ("#define", ""), ("#define a b\n", "c"), ("# ", "\n")],
    "ini": [("", ""), ("[a]\n", ""), ("[a]\nb=", "c"), ("[a]\nb=c\n", "d"), ("[a", "]\n"), ("#a\n", "[a]\n")],
}
MESSAGES = {
    "properties": [("", "")],
    "webext": [("", ""), ("$a$", "$"), ("$B1", "$")],
    "mf2": [("", ""), (".", "{{}}")],
    "dtd": [("", "")],
    "ini": [("", "")],
    "plain_json": [("", "")],
}


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    for fmt, tpls in FILES.items():
        for pre, post in tpls:
            for n in range(0, (5 if not pre else 4) + t + 1):
                out.append(dict(name=f"file-{fmt}-{pre!r}-{post!r}-{n}", fn="file", params=dict(fmt=fmt, pre=pre, n=n, post=post)))
    for fmt, tpls in MESSAGES.items():
        for pre, post in tpls:
            for n in range(0, 5 + t):
                for printf in (False, True) if fmt in ("properties", "dtd") else (False,):
                    out.append(
                        dict(name=f"message-{fmt}-{printf}-{pre!r}-{post!r}-{n}", fn="message", params=dict(fmt=fmt, pre=pre, n=n, post=post, printf=printf))
                    )
    for at in ("root", "entry", "message", "description", "other", "placeholders", "placeholder", "content", "example", "deep", "missing", "twice"):
        for how in ("detect", "bytes", "webext", "plain_json"):
            for n in range(0, 3 + t):
                if n < 2 or at in ("description", "placeholder", "content"):
                    out.append(dict(name=f"json-{how}-{at}-{n}", fn="json", params=dict(how=how, at=at, n=n)))
    return out
