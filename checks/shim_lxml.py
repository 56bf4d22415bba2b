"""
A model of the parts of lxml.etree that moz.l10n uses, in Python so that it can be executed symbolically.
Replays use the real lxml, so that every sampled path compares the two.
"""
from re import compile

from symx.core import Inconclusive as SymUnsupported
from symx.core import Infeasible as Outside

START = r"A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF"
REST = r".0-9\xB7\u0300-\u036F\u203F-\u2040-"
name_re = compile(f"[{START}][{START}{REST}]*")
qname_re = compile(f"[{START}:][{START}{REST}:]*")
plain = compile("[^<&\r\\]\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]+")
plain_attr = compile("[^<&\r\n\t\"'\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]+")
bad_char = compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]")
XML = "http://www.w3.org/XML/1998/namespace"


class ErrorTypes:
    ERR_UNDECLARED_ENTITY = 26


class LxmlError(Exception):
    pass


class XMLSyntaxError(LxmlError, SyntaxError):
    def __init__(self, msg, code=0):
        SyntaxError.__init__(self, msg)
        self.code = code


def check_text(s):
    if bad_char.search(s) is not None:
        raise ValueError("All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters")
    return s


class QName:
    def __init__(self, text_or_uri, tag=None):
        if tag is not None:
            text = "{" + text_or_uri + "}" + tag if text_or_uri else tag
        else:
            text = text_or_uri
            if text is Comment or text is ProcessingInstruction:
                raise ValueError("Invalid tag name")
        if text[:1] == "{":
            end = text.index("}")
            self.namespace = text[1:end]
            self.localname = text[end + 1 :]
            if self.namespace == "":
                self.namespace = None
        else:
            self.namespace = None
            self.localname = text
        if not name_re.fullmatch(self.localname):
            raise ValueError("Invalid tag name")
        self.text = text

    def __str__(self):
        return self.text


class CDATA:
    def __init__(self, data):
        self.data = check_text(data)


class _Attrib:
    def __init__(self, el):
        self._el = el
        self._d = {}

    def __setitem__(self, key, value):
        q = QName(key)
        if q.namespace and q.namespace != XML:
            self._el._prefix_for(q.namespace, False)
        self._d[key] = check_text(value)

    def __getitem__(self, key):
        return self._d[key]

    def __contains__(self, key):
        return key in self._d

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __iter__(self):
        return iter(self._d)

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def get(self, key, default=None):
        return self._d.get(key, default)


class _Element:
    _kind = "element"

    def __init__(self):
        self._parent = None
        self._children = []
        self._text = None
        self._cdata = False
        self._tail = None
        self._ns = {}
        self.attrib = _Attrib(self)
        self.tag = None
        self._doc = None
        self._counter = 0
        self._before = []

    # names

    @property
    def nsmap(self):
        res = {}
        el = self
        while el is not None:
            for k, v in el._ns.items():
                if k not in res:
                    res[k] = v
            el = el._parent
        return res

    @property
    def prefix(self):
        ns = QName(self.tag).namespace
        return None if not ns else self._prefix_for(ns, True)

    def _prefix_for(self, uri, default):
        if uri == XML:
            return "xml"
        el = self
        seen = []
        while el is not None:
            for k, v in el._ns.items():
                if k not in seen:
                    seen.append(k)
                    if v == uri and (default or k is not None):
                        return k
            el = el._parent
        root = self
        while root._parent is not None:
            root = root._parent
        used = self.nsmap
        while True:
            p = f"ns{root._counter}"
            root._counter += 1
            if p not in used:
                self._ns[p] = uri
                return p

    # text

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, value):
        if isinstance(value, CDATA):
            self._text = value.data
            self._cdata = True
        else:
            self._text = None if value is None else check_text(value)
            self._cdata = False

    @property
    def tail(self):
        return self._tail

    @tail.setter
    def tail(self, value):
        self._tail = None if value is None else check_text(value)

    # tree

    def __len__(self):
        return len(self._children)

    def __bool__(self):
        return len(self._children) > 0

    def __iter__(self):
        i = 0
        while i < len(self._children):
            yield self._children[i]
            i += 1

    def __getitem__(self, i):
        return self._children[i]

    def __setitem__(self, i, els):
        if not isinstance(i, slice) or i.start is not None or i.stop is not None:
            raise SymUnsupported("item assignment")
        els = list(els)
        for el in self._children:
            el._parent = None
        self._children = []
        for el in els:
            self.append(el)

    def _detach(self):
        if self._parent is not None:
            p = self._parent
            p._children = [c for c in p._children if c is not self]
            self._parent = None

    def _adopt(self, el, idx):
        el._detach()
        self._children.insert(idx, el)
        el._parent = self
        if el._kind == "element":
            outer = self.nsmap
            el._ns = {k: v for k, v in el._ns.items() if outer.get(k) != v}

    def append(self, el):
        el._detach()
        self._adopt(el, len(self._children))

    def insert(self, i, el):
        el._detach()
        self._adopt(el, i)

    def remove(self, el):
        if el._parent is not self:
            raise ValueError("Element is not a child of this node.")
        el._detach()

    def _index(self):
        for i, c in enumerate(self._parent._children):
            if c is self:
                return i
        raise ValueError

    def addnext(self, el):
        if self._parent is None:
            raise TypeError("Only processing instructions and comments can be siblings of the root element")
        # the tail text moves to the new element
        el._detach()
        self._parent._adopt(el, self._index() + 1)
        if self._tail is not None:
            raise SymUnsupported("addnext with tail")

    def addprevious(self, el):
        el._detach()
        if self._parent is None:
            if el._kind not in ("comment", "pi"):
                raise TypeError("Only processing instructions and comments can be siblings of the root element")
            self._before.append(el)
            el._tail = None
            return
        self._parent._adopt(el, self._index())

    def getparent(self):
        return self._parent

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def find(self, path):
        for c in self._children:
            if c._kind == "element" and c.tag == path:
                return c
        return None

    def itersiblings(self, tag=None, *, preceding=False):
        if self._parent is not None or not preceding or tag is not Comment:
            raise SymUnsupported("itersiblings")
        for c in reversed(self._before):
            if c._kind == "comment":
                yield c

    def getroottree(self):
        root = self
        while root._parent is not None:
            root = root._parent
        return _Tree(root)


class _Tree:
    def __init__(self, root):
        self.docinfo = _DocInfo(root._doc)


class _DocInfo:
    def __init__(self, dtd):
        self.internalDTD = dtd


class _DTD:
    def __init__(self, entities):
        self._entities = entities

    def iterentities(self):
        yield from self._entities


class _DTDEntity:
    def __init__(self, name, content):
        self.name = name
        self.content = content


class _Comment(_Element):
    _kind = "comment"


class _ProcessingInstruction(_Element):
    _kind = "pi"


class _Entity(_Element):
    _kind = "entity"

    def __init__(self, name):
        _Element.__init__(self)
        self.name = name
        self._text = "&" + name + ";"
        self.tag = Entity


def Comment(text=None):
    el = _Comment()
    text = "" if text is None else check_text(text)
    if "--" in text or text[-1:] == "-":
        raise ValueError("Comment may not contain '--' or end with '-'")
    el._text = text
    el.tag = Comment
    return el


def Entity(name):
    check_text(name)
    if name[:1] == "#":
        raise SymUnsupported("character reference")
    if not qname_re.fullmatch(name):
        raise ValueError("Invalid entity reference")
    return _Entity(name)


def ProcessingInstruction():
    raise Outside("processing instruction")


def _fill(el, tag, attrib, nsmap, parent):
    q = QName(tag)
    el.tag = q.text if q.namespace else q.localname
    if nsmap:
        for k, v in nsmap.items():
            if not v:
                raise Outside("empty namespace")
            el._ns[k] = v
    if parent is not None:
        parent.append(el)
    if q.namespace and q.namespace != XML:
        el._prefix_for(q.namespace, True)
    if attrib:
        for k, v in attrib.items():
            el.attrib[k] = v
    return el


def Element(tag, attrib=None, nsmap=None):
    return _fill(_Element(), tag, attrib, nsmap, None)


def SubElement(parent, tag, attrib=None, nsmap=None):
    return _fill(_Element(), tag, attrib, nsmap, parent)


def cleanup_namespaces(root, top_nsmap=None):
    for k, v in (top_nsmap or {}).items():
        if k not in root._ns:
            root._ns[k] = v
    used = []

    def name(el, n, default):
        q = QName(n)
        if q.namespace and q.namespace != XML:
            # the outermost declaration
            e = el
            found = None
            p = el._prefix_for(q.namespace, default)
            top = [k for k, v in root._ns.items() if v == q.namespace and (default or k is not None)]
            if p not in top and top:
                p = top[0]
            used.append((p, q.namespace))

    def walk(el):
        if el._kind != "element":
            return
        name(el, el.tag, True)
        for k in el.attrib:
            name(el, k, False)
        for c in el:
            walk(c)

    walk(root)

    def drop(el, outer):
        if el._kind != "element":
            return
        el._ns = {k: v for k, v in el._ns.items() if (k, v) in used and outer.get(k) != v}
        inner = dict(outer)
        inner.update(el._ns)
        for c in el:
            drop(c, inner)

    drop(root, {})


# --- serialization


def _esc(s):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    return s


def _esc_attr(s):
    return _esc(s).replace('"', "&quot;").replace("\t", "&#9;").replace("\n", "&#10;")


def _write(el, fmt, level):
    if el._kind == "comment":
        return "<!--" + el._text + "-->"
    if el._kind == "entity":
        return el._text
    q = QName(el.tag)
    p = el.prefix
    name = p + ":" + q.localname if p else q.localname
    attrs = []
    for k, v in el.attrib.items():
        aq = QName(k)
        ap = el._prefix_for(aq.namespace, False) if aq.namespace else None
        an = ap + ":" + aq.localname if ap else aq.localname
        attrs.append(" " + an + '="' + _esc_attr(v) + '"')
    out = "<" + name
    for k, v in el._ns.items():
        out += (" xmlns:" + k if k else " xmlns") + '="' + _esc_attr(v) + '"'
    out += "".join(attrs)
    text = el._text
    if text is None and not el._children:
        return out + "/>"
    out += ">"
    if text is not None:
        fmt = False
        if el._cdata:
            out += "<![CDATA[" + text.replace("]]>", "]]]]><![CDATA[>") + "]]>"
        else:
            out += _esc(text)
    for c in el:
        if c._tail is not None or c._kind == "entity":
            fmt = False
    for c in el:
        if fmt:
            out += "\n" + "  " * (level + 1)
        out += _write(c, fmt, level + 1)
        if c._tail is not None:
            out += _esc(c._tail)
    if fmt and el._children:
        out += "\n" + "  " * level
    return out + "</" + name + ">"


def tostring(el, encoding=None, method="xml", pretty_print=False):
    if encoding != "unicode":
        raise SymUnsupported("encoding")
    if method != "xml":
        raise SymUnsupported("method")
    out = _write(el, pretty_print, 0)
    if el._tail is not None:
        out += _esc(el._tail)
    return out + "\n" if pretty_print else out


# --- parser


class XMLParser:
    def __init__(self, resolve_entities="internal"):
        self.resolve_entities = resolve_entities


PREDEFINED = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}
SPACE = " \t\r\n"


class _Reader:
    def __init__(self, src, resolve):
        self.src = src
        self.n = len(src)
        self.pos = 0
        self.resolve = resolve
        self.entities = {}
        self.dtd = None
        self.started = None

    def error(self, msg="XML syntax error", code=0):
        raise XMLSyntaxError(msg, code)

    def at(self, s):
        return self.src[self.pos : self.pos + len(s)] == s

    def peek(self):
        return self.src[self.pos] if self.pos < self.n else ""

    def skip(self):
        start = self.pos
        while self.pos < self.n and self.src[self.pos] in SPACE:
            self.pos += 1
        return self.pos > start

    def expect(self, s):
        if not self.at(s):
            self.error(f"expected {s}")
        self.pos += len(s)

    def name(self):
        m = qname_re.match(self.src, self.pos)
        if m is None:
            self.error("invalid name", 68)
        self.pos = m.end()
        return m[0]

    def until(self, s):
        end = self.src.find(s, self.pos)
        if end == -1:
            self.error(f"unterminated, expected {s}")
        res = self.src[self.pos : end]
        self.pos = end + len(s)
        if bad_char.search(res) is not None:
            self.error("invalid character")
        return res.replace("\r\n", "\n").replace("\r", "\n")

    def reference(self):
        """after &: text, or an entity name"""
        if self.peek() == "#":
            self.pos += 1
            if self.peek() == "x":
                self.pos += 1
                digits, base = "0123456789abcdefABCDEF", 16
            else:
                digits, base = "0123456789", 10
            start = self.pos
            while self.pos < self.n and self.src[self.pos] in digits:
                self.pos += 1
            if start == self.pos:
                self.error("invalid character reference")
            text = self.src[start : self.pos]
            self.expect(";")
            cp = int(text, base)
            if not (cp in (9, 10, 13) or 0x20 <= cp <= 0xD7FF or 0xE000 <= cp <= 0xFFFD or 0x10000 <= cp <= 0x10FFFF):
                self.error("invalid character reference")
            return chr(cp), None
        m = qname_re.match(self.src, self.pos)
        if m is None:
            self.error("xmlParseEntityRef: no name", 68)
        name = m[0]
        self.pos = m.end()
        if self.peek() != ";":
            self.error("EntityRef: expecting ';'", 23)
        self.pos += 1
        if name in PREDEFINED:
            return PREDEFINED[name], None
        if name not in self.entities:
            self.error(f"Entity '{name}' not defined, line 1, column 1", 26)
        if "<" in self.entities[name] or "&" in self.entities[name]:
            raise Outside("reference to an entity that needs parsing")
        return None, name

    def comment(self):
        text = self.until("--")
        self.expect(">")
        el = _Comment()
        el._text = text
        el.tag = Comment
        return el

    def document(self):
        before = []
        if self.at("<?xml") and self.src[self.pos + 5 : self.pos + 6] in (" ", "\n", "\t"):
            self.until("?>")
        root = None
        while True:
            self.skip()
            if self.at("<!--"):
                self.pos += 4
                before.append(self.comment())
            elif self.at("<!DOCTYPE"):
                if self.dtd is not None:
                    self.error()
                self.pos += 9
                self.doctype()
            elif self.at("<?"):
                raise Outside("processing instruction")
            elif self.at("<"):
                self.pos += 1
                root = self.element(None)
                break
            else:
                self.error("Start tag expected, '<' not found", 4)
        while True:
            self.skip()
            if self.at("<!--"):
                self.pos += 4
                self.comment()
            elif self.at("<?"):
                raise Outside("processing instruction")
            elif self.pos < self.n:
                self.error("Extra content at the end of the document", 5)
            else:
                break
        root._before = before
        root._doc = self.dtd
        return root

    def doctype(self):
        if not self.skip():
            self.error()
        self.name()
        self.skip()
        decls = []
        if self.at("["):
            self.pos += 1
            while True:
                self.skip()
                if self.at("]"):
                    self.pos += 1
                    break
                if self.at("<!--"):
                    self.pos += 4
                    self.comment()
                    continue
                if not self.at("<!ENTITY"):
                    if self.at("<!") or self.at("<?") or self.at("%"):
                        raise Outside("declaration")
                    self.error()
                self.pos += 8
                if not self.skip():
                    self.error()
                if self.at("%"):
                    raise Outside("parameter entity")
                name = self.name()
                if ":" in name:
                    self.error("colons are forbidden from entities names")
                if not self.skip():
                    self.error()
                quote = self.peek()
                if quote not in ('"', "'"):
                    if self.at("SYSTEM") or self.at("PUBLIC"):
                        raise Outside("external entity")
                    self.error()
                self.pos += 1
                value = self.entity_value(quote)
                self.skip()
                self.expect(">")
                if name not in self.entities:
                    self.entities[name] = value
                    decls.append(_DTDEntity(name, value))
            self.skip()
        elif not self.at(">"):
            raise Outside("external DTD")
        self.expect(">")
        self.dtd = _DTD(decls)

    def entity_value(self, quote):
        out = ""
        while True:
            if self.pos >= self.n:
                self.error("EntityValue: \" or ' expected")
            ch = self.src[self.pos]
            if ch == quote:
                self.pos += 1
                return out
            self.pos += 1
            if ch == "&":
                start = self.pos
                if self.peek() == "#":
                    out += self.reference()[0]
                else:
                    m = qname_re.match(self.src, self.pos)
                    if m is None:
                        self.error("EntityValue: '&' forbidden except for entities references")
                    self.pos = m.end()
                    if self.peek() != ";":
                        self.error("EntityValue: '&' forbidden except for entities references")
                    self.pos += 1
                    out += "&" + self.src[start : self.pos]
            elif ch == "%":
                self.error("EntityValue: '%' forbidden except for entities references")
            elif bad_char.match(ch) is not None:
                self.error("invalid character in entity value")
            else:
                out += ch

    def attributes(self):
        res = []
        while True:
            sp = self.skip()
            ch = self.peek()
            if ch in (">", "/"):
                return res
            if not sp:
                self.error("attributes construct error")
            name = self.name()
            self.skip()
            self.expect("=")
            self.skip()
            quote = self.peek()
            if quote not in ('"', "'"):
                self.error("AttValue: \" or ' expected")
            self.pos += 1
            out = ""
            while True:
                if self.pos >= self.n:
                    self.error("AttValue: ' expected")
                m = plain_attr.match(self.src, self.pos)
                if m is not None:
                    out += m[0]
                    self.pos = m.end()
                    continue
                ch = self.src[self.pos]
                self.pos += 1
                if ch == quote:
                    break
                if ch == "&":
                    text, ent = self.reference()
                    if ent is not None:
                        raise Outside("entity in attribute")
                    out += text
                elif ch == "<":
                    self.error("Unescaped '<' not allowed in attributes values")
                elif ch == "\r":
                    if self.peek() == "\n":
                        self.pos += 1
                    out += " "
                elif ch == "\n" or ch == "\t":
                    out += " "
                elif bad_char.match(ch) is not None:
                    self.error("invalid character in attribute value")
                else:
                    out += ch
            if any(n == name for n, _ in res):
                self.error("Attribute redefined")
            res.append((name, out))

    def qname(self, el, name, attr):
        if ":" in name:
            if name.count(":") > 1:
                raise Outside("colons in name")
            p, local = name.split(":")
            if not p or not local or not name_re.fullmatch(local):
                raise Outside("colons in name")
            if p == "xml":
                return "{" + XML + "}" + local
            ns = el.nsmap.get(p)
            if ns is None:
                self.error(f"Namespace prefix {p} on {local} is not defined", 201)
            return "{" + ns + "}" + local
        if attr:
            return name
        ns = el.nsmap.get(None)
        return "{" + ns + "}" + name if ns else name

    def element(self, parent):
        tag = self.name()
        el = _Element()
        el._parent = parent
        attrs = self.attributes()
        for k, v in attrs:
            if k == "xmlns":
                el._ns[None] = v
            elif k[:6] == "xmlns:":
                if not v:
                    raise Outside("empty namespace")
                el._ns[k[6:]] = v
        el.tag = self.qname(el, tag, False)
        el._qname = tag
        for k, v in attrs:
            if k != "xmlns" and k[:6] != "xmlns:":
                k = self.qname(el, k, True)
                if k in el.attrib:
                    self.error("Attribute redefined")
                el.attrib._d[k] = v
        if parent is not None:
            parent._children.append(el)
        else:
            self.started = el
        if self.at("/"):
            self.pos += 1
            self.expect(">")
            return el
        self.expect(">")
        last = None
        text = ""

        def flush():
            if text:
                if last is None:
                    el._text = text
                else:
                    last._tail = text

        while True:
            if self.pos >= self.n:
                self.error("Premature end of data")
            ch = self.src[self.pos]
            if ch == "<":
                if self.at("<![CDATA["):
                    self.pos += 9
                    text += self.until("]]>")
                    continue
                if self.at("<?"):
                    raise Outside("processing instruction")
                flush()
                text = ""
                if self.at("</"):
                    self.pos += 2
                    if not self.at(tag):
                        self.error("Opening and ending tag mismatch", 76)
                    self.pos += len(tag)
                    self.skip()
                    if not self.at(">"):
                        self.error("Opening and ending tag mismatch", 76)
                    self.pos += 1
                    return el
                if self.at("<!--"):
                    self.pos += 4
                    last = self.comment()
                    last._parent = el
                    el._children.append(last)
                else:
                    self.pos += 1
                    last = self.element(el)
                continue
            m = plain.match(self.src, self.pos)
            if m is not None:
                text += m[0]
                self.pos = m.end()
                continue
            self.pos += 1
            if ch == "&":
                t, ent = self.reference()
                if ent is None:
                    text += t
                elif self.resolve:
                    raise SymUnsupported("entity")
                else:
                    flush()
                    text = ""
                    last = _Entity(ent)
                    last._parent = el
                    el._children.append(last)
            elif ch == "\r":
                if self.peek() == "\n":
                    self.pos += 1
                text += "\n"
            elif ch == "]" and self.src[self.pos : self.pos + 2] == "]>":
                self.error("Sequence ']]>' not allowed in content")
            elif bad_char.match(ch) is not None:
                self.error("PCDATA invalid Char value")
            else:
                text += ch


def fromstring(source, parser=None):
    if isinstance(source, (bytes, bytearray)) or not isinstance(source, str):
        source = source.decode("utf-8")
    elif source[:5] == "<?xml" and "encoding" in source[: source.find("?>")]:
        raise ValueError("Unicode strings with encoding declaration are not supported.")
    return _Reader(source, parser is None or parser.resolve_entities).document()


def iterparse(source, events=("end",)):
    """Only for the first start event: errors after the start tag of the root do not prevent it"""
    assert tuple(events) == ("start",)
    data = source.getvalue()
    text = data.decode("utf-8")
    if text[:1] == "\ufeff":
        text = text[1:]
    r = _Reader(text, True)
    try:
        r.document()
    except XMLSyntaxError:
        if r.started is None:
            raise
        if text.find(">", 1) == -1:
            raise Outside("incomplete start tag")
    return iter([("start", r.started)])


class etree:
    """the module"""


for _k in ("QName", "CDATA", "_Element", "_Comment", "_Entity", "_ProcessingInstruction", "Comment", "Entity", "Element", "SubElement", "cleanup_namespaces", "tostring", "XMLParser", "fromstring", "iterparse", "LxmlError", "ErrorTypes", "XMLSyntaxError"):
    setattr(etree, _k, globals()[_k])
