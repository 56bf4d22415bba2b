from moz.l10n.formats.properties.parse import properties_parse, properties_parse_message
from moz.l10n.formats.properties.serialize import properties_serialize, properties_serialize_message
from moz.l10n.model import Comment, Entry, PatternMessage, Resource, Section

from checks.common import assume_comment, entries_of, pm

BOUNDS = {
    "quick": "keys 1-2 chars, values 0-3 chars, comments 0-2 chars, all over every Unicode scalar value; source texts of 0-4 free characters, "
    "and the listed templates with 2-3 free characters; utf-8 and iso-8859-1 output",
    "thorough": "as quick with values to 4 chars, keys to 3, free source texts to 5 characters",
}
ASSUMPTIONS = [
    "entry ids are non-empty, as the data model documents",
    "comments have the documented shape: newline-separated lines without trailing whitespace or carriage returns, except where the check says any comment",
]


def entry(x, k, v, enc, sec):
    key = x.str("key", k)
    val = x.str("val", v)
    ids = ("s",) if sec else ()
    res = Resource(None, [Section(ids, [Entry((key,), PatternMessage([val]))])])
    src = "".join(properties_serialize(res, encoding=enc))
    x.obs("src", src)
    if enc == "iso-8859-1":
        x.check(x.only(src, "ascii"), "ASCII output is ASCII")
    got = properties_parse(src)
    x.obs("res", got)
    es = [e for s in got.sections for e in s.entries]
    x.check(len(es) == 1, "exactly one entry comes back")
    x.check_eq(es[0].id, ("s." + key if sec else key,), "the key comes back")
    x.check_eq(es[0].value.pattern, [val] if v else [], "the value comes back")
    x.check(got.comment == "" and es[0].comment == "", "no comment appears")


def two(x, v, c, c2, alpha):
    """The first entry's value and the second one's comment and key do not run together."""
    val = x.str("val", v, alpha)
    com = x.str("com", c, alpha)
    com0 = x.str("com0", c2, alpha)
    key = x.str("key", 1, alpha)
    assume_comment(x, com, '\r')
    assume_comment(x, com0, '\r')
    a = Entry(("a",), PatternMessage([val]))
    b = Entry((key,), PatternMessage(["z"]), comment=com)
    body = [a, Comment(com0), b] if c2 else [a, b]
    src = "".join(properties_serialize(Resource(None, [Section((), body)])))
    x.obs("src", src)
    got = properties_parse(src)
    es = entries_of(got)
    x.check(len(es) == 2, "two entries come back")
    x.check_eq(es[0].value.pattern, [val] if v else [], "first value")
    x.check_eq(es[1].id, (key,), "second key")
    x.check_eq(es[1].value.pattern, ["z"], "second value")
    x.check_eq(es[1].comment, com, "comment")
    cs = [e for s in got.sections for e in s.entries if not isinstance(e, Entry)]
    x.check(len(cs) == (1 if c2 else 0), "standalone comments")
    if c2:
        x.check_eq(cs[0].comment, com0, "standalone comment text")


def rescom(x, c, c2):
    com = x.str("com", c)
    com2 = x.str("com2", c2)
    assume_comment(x, com, '\r')
    assume_comment(x, com2, '\r')
    res = Resource(None, [Section((), [Entry(("a",), PatternMessage(["z"]), comment=com2)])], comment=com)
    got = properties_parse("".join(properties_serialize(res)))
    x.obs("res", got)
    x.check_eq(got.comment, com, "resource comment")
    es = [e for s in got.sections for e in s.entries]
    x.check(len(es) == 1, "one entry")
    x.check_eq(es[0].comment, com2, "entry comment")
    x.check_eq(es[0].id, ("a",), "id")


def anycomment(x, c, kind):
    """No comment text, however odd, adds, removes or changes a message."""
    com = x.str("com", c)
    ents = [Entry(("a",), PatternMessage(["y"])), Entry(("b",), PatternMessage(["z"]))]
    res = Resource(None, [Section((), ents)])
    if kind == "entry":
        ents[1].comment = com
    elif kind == "standalone":
        ents.insert(1, Comment(com))
    elif kind == "section":
        res.sections[0].comment = com
    else:
        res.comment = com
    got = properties_parse("".join(properties_serialize(res)))
    x.check_eq([(e.id, e.value.pattern) for e in entries_of(got)], [(("a",), ["y"]), (("b",), ["z"])], "messages are untouched")


def text(x, pre, n, post, alpha):
    """Any source text: serializing its parse keeps ids and values, and is a fixpoint."""
    src = pre + x.str("src", n, alpha) + post
    r1 = properties_parse(src)
    x.obs("r1", r1)
    for e in entries_of(r1):
        # an entry with an empty key has no representation in the data model
        x.assume(e.id[0] != "")
    s1 = "".join(properties_serialize(r1))
    r2 = properties_parse(s1)
    e1 = entries_of(r1)
    e2 = entries_of(r2)
    x.check_eq([e.id for e in e1], [e.id for e in e2], "ids are kept")
    x.check_eq(["".join(e.value.pattern) for e in e1], ["".join(e.value.pattern) for e in e2], "values are kept")
    x.check_eq("".join(properties_serialize(r2)), s1, "serialization is a fixpoint")


HEX = "0123456789abcdefABCDEF"


def unescape(x, line):
    """Escapes of one physical line, as the format defines them"""
    out = ""
    i = 0
    n = len(line)
    while i < n:
        ch = line[i]
        i += 1
        if ch != "\\" or i == n:
            out += ch
            continue
        ch = line[i]
        i += 1
        if ch == "u":
            j = i
            while j < n and j < i + 4 and x.inset(line[j], HEX):
                j += 1
            if j == i:
                out += "u"
                continue
            code = int(line[i:j], 16)
            if 0xD800 <= code <= 0xDBFF and line[j : j + 2] == "\\u":
                k = j + 2
                while k < n and k < j + 6 and x.inset(line[k], HEX):
                    k += 1
                low = int(line[j + 2 : k], 16) if k == j + 6 else 0
                if 0xDC00 <= low <= 0xDFFF:
                    code = 0x10000 + (code - 0xD800) * 0x400 + (low - 0xDC00)
                    j = k
            out += chr(code)
            i = j
        elif ch == "t":
            out += "\t"
        elif ch == "n":
            out += "\n"
        elif ch == "f":
            out += "\f"
        elif ch == "r":
            out += "\r"
        else:
            out += ch
    return out


def odd_backslashes(line):
    odd = False
    for ch in reversed(line):
        if ch != "\\":
            break
        odd = not odd
    return odd


def reference(x, src):
    """
    The messages of a .properties file, as the format defines them:
    natural lines joined to logical lines, comment lines dropped, key and separator split off.
    """
    lines = [""]
    i = 0
    while i < len(src):
        ch = src[i]
        i += 1
        if ch == "\r":
            if i < len(src) and src[i] == "\n":
                i += 1
            lines.append("")
        elif ch == "\n":
            lines.append("")
        else:
            lines[-1] += ch
    out = []
    at = 0
    while at < len(lines):
        line = lines[at].lstrip(" \t\f")
        at += 1
        if line == "" or line.startswith(("#", "!")):
            continue
        # the key ends at the first separator that is not escaped
        i = 0
        while i < len(line):
            if line[i] == "\\":
                if i + 1 == len(line) and at < len(lines):
                    x.reject()  # a key over two lines
                i += 2
            elif x.inset(line[i], " \t\f:="):
                break
            else:
                i += 1
        key = line[:i]
        rest = line[i:].lstrip(" \t\f")
        if rest.startswith(("=", ":")):
            rest = rest[1:].lstrip(" \t\f")
        parts = [rest]
        while odd_backslashes(parts[-1]) and at < len(lines):
            parts[-1] = parts[-1][:-1]
            parts.append(lines[at].lstrip(" \t\f"))
            at += 1
        out.append((unescape(x, key), "".join([unescape(x, p) for p in parts])))
    return out


MEANING = [
    ("", ""),
    ("k=", "\nb=2"),
    ("k = a\\", "b\nc=d"),
    ("k=a\\\r", "b\nc=d"),
    ("k=a\\\n ", " \nc=d"),
    ("k=\\\\\\", "b\nc"),
    ("#c\\", "k=v"),
    ("a:1\n", "b 2"),
    ("k\\", ": v"),
    ("k=\\u00", ""),
    ("k=\\ud83d\\ude0", "c"),
]


def meaning(x, pre, n, post):
    """Any source text has the messages that the format defines."""
    src = pre + x.str("src", n) + post
    got = [(e.id[0], "".join(e.value.pattern)) for e in entries_of(properties_parse(src))]
    want = reference(x, src)
    x.check(len(got) == len(want), "number of messages")
    x.check_eq(got, want, "messages")


def cases(tier):
    t = tier == "thorough"
    out = []
    for enc in ("utf-8", "iso-8859-1"):
        for k in (1, 2, 3) if t else (1, 2):
            for v in range(0, 5 if t else 4):
                if k + v > (5 if t else 3) or (enc != "utf-8" and k + v > (4 if t else 2)):
                    continue
                out.append(dict(name=f"entry-{enc}-{k}-{v}", fn="entry", params=dict(k=k, v=v, enc=enc, sec=False)))
    out.append(dict(name="entry-section", fn="entry", params=dict(k=1, v=1, enc="utf-8", sec=True)))
    for v, c, c2 in [(0, 0, 0), (1, 0, 0), (2, 0, 0), (1, 1, 0), (1, 2, 0), (1, 0, 1), (0, 0, 2)] + ([(2, 1, 1), (1, 3, 0), (0, 0, 3)] if t else []):
        out.append(dict(name=f"two-{v}-{c}-{c2}", fn="two", params=dict(v=v, c=c, c2=c2, alpha="scalar")))
    for c, c2 in [(1, 0), (2, 0), (1, 1), (0, 2)] + ([(3, 1), (0, 3)] if t else []):
        out.append(dict(name=f"rescom-{c}-{c2}", fn="rescom", params=dict(c=c, c2=c2)))
    for kind in ("entry", "standalone", "section", "resource"):
        out.append(dict(name=f"anycomment-{kind}", fn="anycomment", params=dict(c=3 if t else 2, kind=kind)))
    for n in range(0, 6 if t else 4):
        out.append(dict(name=f"text-{n}", fn="text", params=dict(pre="", n=n, post="", alpha="scalar")))
    for pre, post in [("k=", ""), ("k = a\\", "b"), ("#c\n", "x=y"), ("a=1\n", "b=2"), ("k\\", ": v"), ("k=\\u00", ""), ("k=v\n\n#", "\n\n#d\na=b")]:
        out.append(dict(name=f"text-{pre!r}-{post!r}", fn="text", params=dict(pre=pre, n=4 if t else 3 if len(post) < 5 else 2, post=post, alpha="scalar")))
    for pre, post in MEANING:
        for n in range(0 if pre else 1, (8 if t else 6) if not pre else (6 if t else 4)):
            out.append(dict(name=f"meaning-{pre!r}-{post!r}-{n}", fn="meaning", params=dict(pre=pre, n=n, post=post)))
    return out
