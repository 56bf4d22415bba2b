"""
A model of the standard json module (its C accelerator cannot be executed symbolically), used in its place in
symbolic runs. Every sampled path and counterexample is replayed with the real module.
"""


class JSONDecodeError(ValueError):
    def __init__(self, msg, doc, pos):
        ValueError.__init__(self, msg)
        self.msg = msg
        self.doc = doc
        self.pos = pos


WS = " \t\n\r"
HEX = "0123456789abcdefABCDEF"
SIMPLE = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}


def _ws(s, i):
    while i < len(s) and s[i] in WS:
        i += 1
    return i


def _hex4(s, i):
    h = s[i : i + 4]
    if len(h) != 4 or not all(c in HEX for c in h):
        raise JSONDecodeError("Invalid \\uXXXX escape", s, i)
    return int(h, 16)


def _string(s, i):
    out = ""
    while True:
        if i >= len(s):
            raise JSONDecodeError("Unterminated string starting at", s, i)
        c = s[i]
        if c == '"':
            return out, i + 1
        if c == "\\":
            i += 1
            if i >= len(s):
                raise JSONDecodeError("Unterminated string starting at", s, i)
            c = s[i]
            if c == "u":
                n = _hex4(s, i + 1)
                i += 5
                if 0xD800 <= n and n <= 0xDBFF and s[i : i + 2] == "\\u":
                    m = _hex4(s, i + 2)
                    if 0xDC00 <= m and m <= 0xDFFF:
                        n = 0x10000 + ((n - 0xD800) << 10) + (m - 0xDC00)
                        i += 6
                out = out + chr(n)
                continue
            for k, v in SIMPLE.items():
                if c == k:
                    out = out + v
                    break
            else:
                raise JSONDecodeError("Invalid \\escape: ", s, i)
            i += 1
            continue
        if c < " ":
            raise JSONDecodeError("Invalid control character at", s, i)
        out = out + c
        i += 1


def _value(s, i):
    if i >= len(s):
        raise JSONDecodeError("Expecting value", s, i)
    c = s[i]
    if c == '"':
        return _string(s, i + 1)
    if c == "{":
        return _object(s, i + 1)
    if c == "[":
        return _array(s, i + 1)
    for word, v in (("null", None), ("true", True), ("false", False), ("NaN", float("nan")), ("Infinity", float("inf")), ("-Infinity", float("-inf"))):
        if s[i : i + len(word)] == word:
            return v, i + len(word)
    j = i
    if s[j : j + 1] == "-":
        j += 1
    if s[j : j + 1] == "0":
        j += 1
    else:
        k = j
        while j < len(s) and s[j] in "0123456789":
            j += 1
        if j == k:
            raise JSONDecodeError("Expecting value", s, i)
    isint = True
    if s[j : j + 1] == "." and j + 1 < len(s) and s[j + 1] in "0123456789":
        isint = False
        j += 1
        while j < len(s) and s[j] in "0123456789":
            j += 1
    if j < len(s) and s[j] in "eE":
        k = j + 1
        if k < len(s) and s[k] in "+-":
            k += 1
        if k < len(s) and s[k] in "0123456789":
            isint = False
            while k < len(s) and s[k] in "0123456789":
                k += 1
            j = k
    return (int(s[i:j]) if isint else float(s[i:j])), j


def _object(s, i):
    res = {}
    i = _ws(s, i)
    if s[i : i + 1] == "}":
        return res, i + 1
    while True:
        if s[i : i + 1] != '"':
            raise JSONDecodeError("Expecting property name enclosed in double quotes", s, i)
        k, i = _string(s, i + 1)
        i = _ws(s, i)
        if s[i : i + 1] != ":":
            raise JSONDecodeError("Expecting ':' delimiter", s, i)
        v, i = _value(s, _ws(s, i + 1))
        res[k] = v
        i = _ws(s, i)
        c = s[i : i + 1]
        if c == "}":
            return res, i + 1
        if c != ",":
            raise JSONDecodeError("Expecting ',' delimiter", s, i)
        i = _ws(s, i + 1)


def _array(s, i):
    res = []
    i = _ws(s, i)
    if s[i : i + 1] == "]":
        return res, i + 1
    while True:
        v, i = _value(s, i)
        res.append(v)
        i = _ws(s, i)
        c = s[i : i + 1]
        if c == "]":
            return res, i + 1
        if c != ",":
            raise JSONDecodeError("Expecting ',' delimiter", s, i)
        i = _ws(s, i + 1)


def loads(s):
    if isinstance(s, bytes):
        s = s.decode()
    elif not isinstance(s, str):
        raise TypeError("the JSON object must be str, bytes or bytearray")
    elif s[:1] == "\ufeff":
        raise JSONDecodeError("Unexpected UTF-8 BOM (decode using utf-8-sig)", s, 0)
    v, i = _value(s, _ws(s, 0))
    i = _ws(s, i)
    if i != len(s):
        raise JSONDecodeError("Extra data", s, i)
    return v


ESC = {"\\": "\\\\", '"': '\\"', "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


def _quote(s, ascii):
    out = '"'
    for c in s:
        for k, v in ESC.items():
            if c == k:
                out = out + v
                break
        else:
            if c < " " or (ascii and c > "~"):
                n = ord(c)
                if n > 0xFFFF:
                    n -= 0x10000
                    out = out + f"\\u{0xD800 + (n >> 10):04x}\\u{0xDC00 + (n & 0x3FF):04x}"
                else:
                    out = out + f"\\u{n:04x}"
            else:
                out = out + c
    return out + '"'


def _dump(v, ascii, nl, step, sort):
    if isinstance(v, str):
        return _quote(v, ascii)
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    inner = nl + step if step is not None else ""
    sep = "," + inner if step is not None else ", "
    if isinstance(v, dict):
        if not v:
            return "{}"
        items = sorted(v.items()) if sort else v.items()
        out = ""
        for k, w in items:
            if not isinstance(k, str):
                raise TypeError("keys must be str")
            out = out + (sep if out != "" else inner) + _quote(k, ascii) + ": " + _dump(w, ascii, inner, step, sort)
        return "{" + out + (nl if step is not None else "") + "}"
    if isinstance(v, (list, tuple)):
        if not v:
            return "[]"
        out = ""
        for i, w in enumerate(v):
            out = out + (sep if i else inner) + _dump(w, ascii, inner, step, sort)
        return "[" + out + (nl if step is not None else "") + "]"
    raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")


def dumps(obj, *, indent=None, ensure_ascii=True, sort_keys=False):
    return _dump(obj, ensure_ascii, "\n", None if indent is None else " " * indent, sort_keys)


def dump(obj, fp, **k):
    fp.write(dumps(obj, **k))


def load(fp):
    return loads(fp.read())
