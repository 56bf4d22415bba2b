"""Format detection depends on the name and contents as documented."""
import json

from moz.l10n.formats import Format, UnsupportedFormat, detect_format
from moz.l10n.formats.android.parse import android_parse
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.formats.webext.parse import webext_parse
from moz.l10n.formats.xliff.parse import xliff_parse
from moz.l10n.resource import parse_resource

BOUNDS = (
    "names with a directory and a stem of up to 2 (thorough: 3) symbolic characters each and all extensions or up to 4 (thorough: 5) symbolic characters after a dot, with contents of each kind; contents without a known extension of up to 4 (thorough: 5) free code points, "
    "JSON values of depth 4 with symbolic kinds at each of up to 4 nodes and keys of one message, objects with up to 2 of any 4 keys and 12 values in 7 places, JSON with comments and with up to 2 free characters at any of 5 places, XML documents with symbolic root names and namespaces of up to 3 free characters and 12 kinds of surroundings"
)
ASSUMPTIONS = [
    "the start tag of the root of an XML document is well-formed", "contents are text or its UTF-8 encoding (other bytes may raise UnicodeDecodeError); text has no surrogates and no byte order mark",
    "XML documents are those of the model of lxml: one root, with the usual prologs",
]

EXT = {".dtd": "dtd", ".ftl": "fluent", ".po": "gettext", ".pot": "gettext", ".inc": "inc", ".ini": "ini", ".properties": "properties", ".xlf": "xliff", ".xliff": "xliff"}
OTHER = ["", ".json", ".xml", ".txt", ".FTL", ".ftl.bak", ".p", ".htm", ".webext"]

CONTENTS = {
    "none": (None, None),
    "text": ("abc", None),
    "webext": ('{"a": {"message": "S"}}', "webext"),
    "plain": ('{"a": "S"}', "plain_json"),
    "android": ('<resources><string name="a">S</string></resources>', "android"),
    "xliff": ('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="S"/></xliff>', "xliff"),
}


def fmt(name):
    return None if name is None else Format[name]


def stem(x, name, n):
    s = x.str(name, n, "ab.+ \xe9")
    return s


def names(x, ext, kind, ns, nd, abs, encode):
    """The extension of the name decides; without a known one, the contents do"""
    s = "q" + stem(x, "stem", ns)
    d = stem(x, "dir", nd)
    text, want = CONTENTS[kind]
    if text is not None:
        text = text.replace("S", x.str("s", 1, "ab c"))
        if encode:
            text = text.encode("utf-8")
    if ext in EXT:
        want = EXT[ext]
    elif ext == ".xml" and want in ("webext", "plain_json"):
        want = None
    elif ext == "" and "." in s:
        ext = s[s.rindex(".") :]
        x.assume(ext not in EXT)
    name = s + ("" if ext and s.endswith(ext) and ext not in EXT and ext not in OTHER else ext)
    got = detect_format(name, text)
    x.obs("got", got)
    x.check(got == fmt(want), "format of a name")
    for prefix in (d + "/", "/" + d + "/r.ftl/", "./", "r.po/" + d + "/"):
        x.check(detect_format(prefix + name, text) == got, "the directory does not matter")


def extension(x, n, kind):
    """Only the known extensions are known"""
    e = "." + x.str("e", n, "dtflpoincrexsj.")
    text, want = CONTENTS[kind]
    got = detect_format("z" + e, text)
    x.obs("got", got)
    last = e[e.rindex(".") :]
    for k, f in EXT.items():
        if k == last:
            x.check(got == Format[f], "a known extension")
            return
    x.check(got == (None if last == ".xml" and want in ("webext", "plain_json") else fmt(want)), "the contents decide")


def total(x, name, pre, n, post, alpha, encode):
    """Any contents"""
    src = pre + x.str("src", n, alpha) + post
    x.assume(src[:1] != "\ufeff")
    res = detect_format(name, src.encode("utf-8") if encode else src)
    x.obs("format", res)
    x.check(res in (None, Format.webext, Format.plain_json, Format.android, Format.xliff), "a format with contents of its own")
    x.check(detect_format(name, src) == res, "text and its encoding are of the same format")
    if name is None:
        x.check(detect_format("README", src) == res, "a name without extension does not matter")
    try:
        got = parse_resource(name, src)
    except UnsupportedFormat:
        x.check(res is None, "only contents of no format are not supported")
        return
    except Exception:
        x.check(res in (Format.android, Format.xliff, Format.webext), "contents detected as JSON are read as JSON")
        return
    x.check(res is not None, "only contents of a format are parsed")
    x.check(got.format == res, "contents are parsed as the format that is detected")


KINDS = ["str", "num", "null", "list", "obj", "msg", "empty"]


def node(x, name, depth):
    """a value, whether it is an object of strings, a message of webext"""
    k = x.choice(name, KINDS if depth else KINDS[:4])
    if k == "str":
        return x.choice(name + "v", ["", "$1"])
    if k == "num":
        return 1
    if k == "null":
        return None
    if k == "list":
        return ["a"]
    if k == "empty":
        return {}
    if k == "obj":
        return {"k": node(x, name + "k", depth - 1)}
    out = {"message": "m"}
    key = x.choice(name + "m", ["message", "description", "placeholders", "other"])
    out[key] = node(x, name + "n", depth - 1)
    return out


def object_of_strings(v):
    return isinstance(v, dict) and all(isinstance(w, str) or object_of_strings(w) for w in v.values())


def webext_message(v):
    if not isinstance(v, dict) or not isinstance(v.get("message"), str):
        return False
    for k, w in v.items():
        if k in ("message", "description"):
            if not isinstance(w, str):
                return False
        elif k == "placeholders":
            if not isinstance(w, dict) or not all(isinstance(p, dict) and all(isinstance(q, str) for q in p.values()) for p in w.values()):
                return False
        else:
            return False
    return True


def tree(x, depth, two, comment):
    """JSON values: messages, an object of strings, or another value"""
    v = node(x, "v", depth)
    if two:
        v = {"a": v, "b": node(x, "w", 1)}
    text = json.dumps(v)
    if comment:
        text = "// \"x\n" + text + " // {"
    judge(x, v, text, comment)


KEYS = ["message", "placeholders", "description", "other"]
VALUES = ["s", "", 1, None, ["a"], {}, {"x": "s"}, {"x": {}}, {"x": {"y": "s"}}, {"x": {"y": "s"}, "z": 1}, {"x": {"y": 1}}, {"x": {"y": "s"}, "z": {"y": None}}]


def objects(x, nk, at, comment, encode):
    """JSON objects with any of the keys of messages"""
    obj = {}
    for i in range(nk):
        obj[x.choice(f"k{i}", KEYS)] = x.choice(f"v{i}", VALUES)
    v = {
        "only": {"a": obj},
        "first": {"a": obj, "b": {"message": "m"}},
        "last": {"b": {"message": "m", "description": "d"}, "a": obj},
        "deep": {"a": {"b": {"c": "d"}, "e": obj}},
        "plain": {"a": "s", "b": obj},
        "root": obj,
        "list": [obj],
    }[at]
    text = json.dumps(v)
    if comment:
        text = "// c\n" + text
    judge(x, v, text, comment, encode)


def judge(x, v, text, comment, encode=False):
    if not object_of_strings(v):
        want = None
    elif all(webext_message(m) for m in v.values()):
        want = Format.webext
    else:
        want = None if comment else Format.plain_json
    src = text.encode("utf-8") if encode else text
    got = detect_format(None, src)
    x.obs("got", got)
    x.check(got == want, "format of JSON contents")
    for name in ("m.json", "messages.json", "m", "m.txt"):
        x.check(detect_format(name, src) == want, "format of JSON contents, with a name")
    x.check(detect_format("m.xml", src) is None, "JSON is not XML")
    if got == Format.webext:
        res = webext_parse(text)
        x.check([e.id for e in res.sections[0].entries] == [(k,) for k in v], "contents detected as messages are messages")
        x.check_eq(parse_resource("m.json", text), res, "parsed as the detected format")
    elif got == Format.plain_json:
        x.check_eq(parse_resource("m.json", text), plain_json_parse(text), "parsed as the detected format")


XML = {
    "plain": "R",
    "decl": '<?xml version="1.0" encoding="utf-8"?>\nR',
    "comment": "<!-- <resources> -->R",
    "comment-end": "R<!-- x -->",
    "space": "\n R\n",
    "doctype": "<!DOCTYPE resources [<!ENTITY a 'b'>]>\nR",
}


def xml(x, kind, root, n, ns, name, encode):
    """XML contents: the root element decides"""
    r = root.replace("S", x.str("r", n, "resoucxlif-1")) if n else root
    attr = ""
    uri = None
    if ns is not None:
        uri = ns.replace("S", x.str("u", 2, "012.:")) if "S" in ns else ns
        attr = f' xmlns="{uri}"'
    src = XML[kind].replace("R", f"<{r}{attr}></{r}>")
    got = detect_format(name, src.encode("utf-8") if encode else src)
    x.obs("got", got)
    if uri:
        want = Format.xliff if uri in ("urn:oasis:names:tc:xliff:document:1.0", "urn:oasis:names:tc:xliff:document:1.1", "urn:oasis:names:tc:xliff:document:1.2") else None
    else:
        want = Format.android if r == "resources" else None
    x.check(got == want, "format of XML contents")


PARSED = {
    "a.dtd": ('<!ENTITY a "S">', dtd_parse),
    "a.ftl": ("a = S", fluent_parse),
    "a.inc": ("#define a S", inc_parse),
    "a.ini": ("[s]\na=S", ini_parse),
    "a.properties": ("a=S", properties_parse),
    "a.json": ('{"a": {"message": "S"}}', webext_parse),
    "b.json": ('{"a": "S"}', plain_json_parse),
    "c.json": ('{"a": {"message": "S"}} // "', webext_parse),
    "a.xml": ('<resources><string name="a">S</string></resources>', android_parse),
    "a.xlf": ('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="S" datatype="x"><body><trans-unit id="a"><source>S</source></trans-unit></body></file></xliff>', xliff_parse),
}


def parsed(x, name, n):
    """Files are parsed by the parser of the format of their name or contents"""
    text, parse = PARSED[name]
    src = text.replace("S", "q" + x.str("s", n, "ab ." if name == "c.json" else "ab\xe9 ." if "json" in name or "xm" in name or "xl" in name or "ftl" in name or "dtd" in name else "ab \xe9.\\#"))
    want = parse(src)
    fs = x.fs([("d.po/" + name, src)])
    x.check_eq(parse_resource(name, src), want, "parsed from text")
    x.check_eq(parse_resource(name, src.encode("utf-8")), want, "parsed from bytes")
    x.check_eq(parse_resource(fs.path("d.po/" + name)), want, "parsed from a file")
    x.check_eq(parse_resource(want.format, src), want, "parsed as a format")
    if name[-4:] in ("json", ".xml", ".xlf"):
        x.check_eq(parse_resource(None, src), want, "parsed without a name")
    x.check(not fs.written(), "nothing is written")
    try:
        parse_resource(want.format)
    except TypeError:
        return
    x.fail("a source is required")


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda case, fn, **params: out.append(dict(name=case, fn=fn, params=params))
    for ext in [*EXT, *OTHER]:
        for kind in CONTENTS:
            add(f"name{ext}-{kind}", "names", ext=ext, kind=kind, ns=1, nd=1, abs=0, encode=kind in ("plain", "android"))
        add(f"name{ext}-stem", "names", ext=ext, kind="plain", ns=2 + t, nd=0, abs=0, encode=False)
        add(f"name{ext}-dir", "names", ext=ext, kind="xliff", ns=0, nd=2 + t, abs=0, encode=False)
    for n in range(0, 5 + t):
        for kind in ("none", "plain", "android") if n < 5 else ("none",):
            add(f"extension-{n}-{kind}", "extension", n=n, kind=kind)
    for n in range(0, 5 + t):
        for name in (None, "a.xml"):
            add(f"text-{n}-{name}", "total", name=name, pre="", n=n, post="", alpha="scalar", encode=False)
            add(f"bytes-{n}-{name}", "total", name=name, pre="", n=n, post="", alpha="ascii", encode=True)
    for i, (pre, post) in enumerate([('{"a', '": "b"}'), ('{"a": "', '"}'), ('{"a": {"message": "', '"}}'), ('{"a": ', "}"), ('{"a": "b"', "}")]):
        for n in range(1, 3 + t):
            add(f"json-{i}-{n}", "total", name=None, pre=pre, n=n, post=post, alpha="scalar", encode=False)
    for i, (pre, post) in enumerate([("<", "></resources>"), ("<resources>", ""), ("<resource", "></resources>"), ("", "<resources></resources>"), ("<resources></resources>", "")]):
        for n in range(1, 3 + t):
            # what libxml2 makes of a malformed start tag is not modelled
            add(f"xml-{i}-{n}", "total", name=None, pre=pre, n=n, post=post, alpha="re:[0-9A-Za-z_\xc0-\xd6\u3001-\u9fff]" if i in (0, 2) else "scalar", encode=False)
    for depth in range(1, 4):
        for two in (False, True) if depth < 3 or t else (False,):
            for comment in (False, True):
                add(f"tree-{depth}-{two}-{comment}", "tree", depth=depth, two=two, comment=comment)
    for at in ("only", "first", "last", "deep", "plain", "root", "list"):
        for nk in (0, 1, 2, 3):
            if nk < 3 or t and at == "only":
                add(f"objects-{at}-{nk}", "objects", nk=nk, at=at, comment=False, encode=nk == 1)
            if nk < 2:
                add(f"objects-{at}-{nk}-comment", "objects", nk=nk, at=at, comment=True, encode=nk == 1)
    for kind in XML:
        for i, (root, n) in enumerate([("resources", 0), ("resS", 3 + t), ("rS", 1), ("xliff", 0), ("Sesources", 1), ("resourcesS", 1)]):
            if root.startswith("S") or root == "resourcesS":
                if kind != "plain":
                    continue
            add(f"root-{kind}-{i}", "xml", kind=kind, root=root, n=n, ns=None, name=None, encode=kind != "space")
        for i, ns in enumerate(["urn:oasis:names:tc:xliff:document:1.S", "urn:oasis:names:tc:xliff:document:S", "urn:oasis:names:tc:xliff:document:1.2", "urn:oasis:names:tc:xliff:document:1.0", "urn:oasis:names:tc:xliff:document:1.1", "urn:oasis:names:tc:xliff:document:2.0", "x", ""]):
            for root in ("xliff", "resources"):
                add(f"ns-{kind}-{i}-{root}", "xml", kind=kind, root=root, n=0, ns=ns, name="a.xml" if i % 2 else None, encode=False)
    for name in PARSED:
        for n in range(0, 3 + t):
            add(f"parsed-{name}-{n}", "parsed", name=name, n=n)
    return out
