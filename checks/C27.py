from moz.l10n.model import Comment, Entry, Metadata, Section
from moz.l10n.formats import Format
from moz.l10n.resource.serialize_resource import serialize_resource

from checks.resources import COUNT, FORMATS, PARSE, SERIALIZE, build, options, snap

BOUNDS = {
    "quick": "2-4 resources of each format with comments at the resource, sections, entries and on their own, and in metadata that is written as comments; each or all of the comments present; an id, a text, and two comments of 0-2 free XML characters each",
    "thorough": "as quick with up to 2 more free characters",
}
ASSUMPTIONS = [
    "lxml and json are replaced by models in Python",
    "comments start with a letter, so that none of them is a directive of an .inc file",
    "obsolete entries of gettext, which are comments, are outside the claim",
]
XMLCH = "re:[^\ufffe\uffff\ud800-\udfff\x00-\x08\x0b\x0c\x0e-\x1f]"
KINDS = ["resource", "section", "entry", "standalone"]


def resource(fmt, i, s, v, c):
    res = build(fmt, i, s, v, c)
    if fmt in ("plain_json", "webext"):
        # They cannot have these, and trimming makes it possible to leave them out
        res.comment = c[0]
        sec = res.sections[0]
        sec.comment = c[1]
        if fmt == "plain_json":
            sec.entries[0].comment = c[2]
        if c[3]:
            sec.entries.insert(0, Comment(c[3]))
    elif fmt == "fluent" and c[3]:
        res.sections[0].entries.append(Comment(c[3]))
    return res


def values(res):
    out = []
    for sec in res.sections:
        for e in sec.entries:
            if isinstance(e, Entry):
                out.append((tuple(sec.id) + tuple(e.id), snap(e.value), snap(e.properties)))
    return out


def has_comment(res):
    if res.comment:
        return "resource"
    for sec in res.sections:
        if sec.comment:
            return "section"
        for e in sec.entries:
            if e.comment:
                return "entry"
    return ""


def squeeze(s):
    """Blank lines do not matter in .inc files"""
    return [line for line in s.split("\n") if line]


def trim(x, fmt, i, n, m, com, kind):
    s, v = x.str("s", n, "re:[a-z]"), x.str("v", m, XMLCH)
    c, d = "C" + x.str("c", com, XMLCH), "D" + x.str("d", com // 2, XMLCH)
    if fmt == "inc":
        x.assume(x.none(c + d, "#"))
    cs = tuple((c if k % 2 else d) if kind in (k, 4) else "" for k in range(4))
    with_c, without = resource(fmt, i, s, v, cs), resource(fmt, i, s, v, ("", "", "", ""))
    ser = lambda r, trim: "".join(SERIALIZE[fmt](r, trim_comments=trim, **options(fmt, i)))
    try:
        plain = ser(without, False)
    except ValueError:
        x.reject()
    got = ser(with_c, True)
    x.obs("trimmed", got)
    base = "".join(SERIALIZE[fmt](without, trim_comments=True))
    norm = squeeze if fmt == "inc" else lambda s: s
    x.check_eq(norm(got), norm(base), "there is nothing left of the comments")
    x.check_eq("".join(serialize_resource(with_c, None, trim_comments=True)), got, "serialize_resource")
    try:
        want = values(PARSE[fmt](plain))
    except ValueError:
        x.reject()
    trimmed = PARSE[fmt](got)
    x.check_eq(values(trimmed), want, "contents without comments")
    x.check_eq(has_comment(trimmed), "", "comments of the result")
    try:
        full = ser(with_c, False)
    except ValueError:
        x.check(fmt in ("plain_json", "webext"), "the comments are supported")
        return
    x.check_eq(values(PARSE[fmt](full)), want, "contents with comments")


def cases(tier):
    d = 2 if tier == "thorough" else 0
    out = []
    for fmt in FORMATS:
        for i in range(COUNT[fmt]):
            for n, m, com in ((0, 1, 1), (1, 0, 2)) + (((1, 2, 1), (0, 1, 3)) if d else ()):
                for kind in (range(5) if com == 1 else (4,)):
                    out.append(dict(name=f"{fmt}-{i}-{n}{m}{com}-{kind}", fn="trim", params=dict(fmt=fmt, i=i, n=n, m=m, com=com, kind=kind)))
    return out
