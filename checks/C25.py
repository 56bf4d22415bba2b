from json import JSONDecodeError, loads

from moz.l10n.formats.webext.parse import webext_parse
from moz.l10n.util.loads import json_linecomment_loads

BOUNDS = {
    "quick": "all texts of up to 5 characters; objects with a key, a value and a comment, each with up to 3 free characters (any scalar value for str input, ASCII for bytes), "
    "comments in each of 5 places, with and without a line after them",
    "thorough": "as quick with up to 6 and 5 free characters",
}
ASSUMPTIONS = ["free texts do not contain the letter N, as NaN is not equal to itself", "bytes input is ASCII with no NUL, which would make it be read as UTF-16 or UTF-32 (for str input there is no such limit)", "the real json module is represented by a model of it in symbolic runs, and used in replays"]


def spec_strip(text):
    """The text without its line comments, written as a scanner: independent of the regular expressions of the code."""
    out = ""
    i = 0
    instr = False
    while i < len(text):
        c = text[i]
        if instr:
            if c == "\\" and i + 1 < len(text) and text[i + 1] != "\n":
                out = out + c + text[i + 1]
                i += 2
                continue
            if c == '"' or c == "\n":
                instr = False
        elif c == '"':
            instr = True
        elif c == "/" and i + 1 < len(text) and text[i + 1] == "/":
            while i < len(text) and text[i] != "\n":
                i += 1
            continue
        out = out + c
        i += 1
    return out


def run(x, text, raw):
    try:
        want, valid = loads(text), True
    except JSONDecodeError:
        valid = False
        try:
            want = loads(spec_strip(text))
        except JSONDecodeError:
            want = JSONDecodeError
    try:
        got = json_linecomment_loads(text.encode() if raw else text)
    except JSONDecodeError:
        x.check(want is JSONDecodeError, "data with line comments is accepted")
        return
    x.obs("got", got)
    x.check(want is not JSONDecodeError, "only line comments are accepted")
    x.check(got[1] is valid, "validity is reported")
    x.check_eq(got[0], want, "the data without the comments")


def free(x, n, raw):
    s = x.str("s", n, "ascii" if raw else "scalar")
    x.assume(x.none(s, "N"))  # NaN is not equal to itself
    if raw:
        x.assume(x.none(s, "\0"))
    run(x, s, raw)


def places(x, k, v, c, raw, at):
    """{"k": "v"} with a comment in one of its places"""
    al = "ascii" if raw else "scalar"
    key = '"' + x.str("k", k, al) + '"'
    val = '"' + x.str("v", v, al) + '"'
    com = "//" + x.str("c", c, al)
    toks = ["{", key, ":", val, "}"]
    text = ""
    for i, t in enumerate(toks):
        text = text + t
        if i == at:
            text = text + com + "\n"
    if raw:
        x.assume(x.none(text, "\0"))
    run(x, text, raw)


def strings(x, n, raw):
    """nothing in a string is a comment"""
    s = x.str("s", n, "ascii" if raw else "scalar")
    x.assume(x.none(s, '"\\'))
    for i in range(n):
        x.assume(s[i] >= " ")
    text = '{"a": "' + s + '", // x\n"' + s + '//": "//' + s + '"}'
    got = json_linecomment_loads(text.encode() if raw else text)
    x.check_eq(got[0], {"a": s, s + "//": "//" + s} if s + "//" != "a" else {"a": "//" + s}, "strings are kept as they are")


def messages(x, n):
    """messages.json with comments"""
    s = x.str("s", n)
    x.assume(x.none(s, '"\\$'))
    for i in range(n):
        x.assume(s[i] >= " ")
    c = x.str("c", n)
    x.assume(x.none(c, "\n"))
    text = '{ //' + c + '\n "id": { "message": "' + s + '", "description": "//' + s + '" } // "\n}'
    res = webext_parse(text)
    e = res.sections[0].entries[0]
    x.check_eq(e.value.pattern, [s] if n else [], "message")
    x.check_eq(e.comment, "//" + s, "description")


def cases(tier):
    t = tier == "thorough"
    out = []
    for raw in (False, True):
        for n in range(0, 7 if t else 6):
            out.append(dict(name=f"free-{n}-{raw}", fn="free", params=dict(n=n, raw=raw)))
        for k, v, c in [(0, 0, 2), (0, 1, 1), (1, 1, 0), (0, 2, 1), (0, 3, 0), (0, 0, 3)] + ([(0, 4, 1), (0, 2, 3), (2, 2, 0), (0, 5, 0)] if t else []):
            for at in range(5):
                out.append(dict(name=f"places-{k}{v}{c}-{at}-{raw}", fn="places", params=dict(k=k, v=v, c=c, raw=raw, at=at)))
        for n in range(1, 6 if t else 4):
            out.append(dict(name=f"strings-{n}-{raw}", fn="strings", params=dict(n=n, raw=raw)))
    for n in range(0, 5 if t else 4):
        out.append(dict(name=f"messages-{n}", fn="messages", params=dict(n=n)))
    return out
