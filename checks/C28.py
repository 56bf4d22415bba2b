from moz.l10n.formats.fluent.parse import fluent_parse, fluent_parse_entry
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.model import Comment, Entry

BOUNDS = {
    "quick": "properties: every source text of up to 5 code points, and the listed templates with up to 4 free characters; Fluent: every source text of up to 4 code points, and the listed templates with up to 3 free characters",
    "thorough": "as quick with one more character",
}
ASSUMPTIONS = [
    "lines end with a line feed, a carriage return, or both; form feeds are whitespace within a line",
    "keys that continue over a line end are outside the claim",
    "in Fluent, lines end with a line feed, with or without a carriage return before it",
]


def split_lines(src):
    """lines with their ends; and no empty last line"""
    lines = []
    cur = ""
    i = 0
    while i < len(src):
        ch = src[i]
        i += 1
        cur += ch
        if ch == "\r":
            if i < len(src) and src[i] == "\n":
                cur += "\n"
                i += 1
            lines.append(cur)
            cur = ""
        elif ch == "\n":
            lines.append(cur)
            cur = ""
    if cur:
        lines.append(cur)
    return lines


def items(res):
    out = [e for s in res.sections for e in s.entries]
    return out


def properties(x, pre, n, post):
    src = pre + x.str("src", n) + post
    res = properties_parse(src)
    lines = split_lines(src)
    prev = 1
    for e in items(res):
        p = e.linepos
        x.check(p is not None, "there is a position")
        x.obs("pos", [p.start, p.key, p.value, p.end])
        if isinstance(e, Entry):
            for ch in e.id[0]:
                if ch == "\n" or ch == "\r":
                    x.reject()
        x.check(p.start <= p.key and p.key <= p.value and p.value < p.end, "start <= key <= value < end")
        x.check(p.start >= prev, "positions increase and do not overlap")
        x.check(p.end <= len(lines) + 1, "within the source")
        prev = p.end
        part = "".join(lines[p.start - 1 : p.end - 1])
        got = properties_parse(part)
        if isinstance(e, Entry):
            es = items(got)
            x.check(len(es) == 1 and isinstance(es[0], Entry), "its lines are exactly one entry")
            x.check(got.comment == "", "its lines have no other comment")
            x.check(lines[p.start - 1].strip(" \t\f\r\n") != "", "it starts with its comment or key")
            x.check_eq(es[0], e, "the same entry")
            key = lines[p.key - 1].lstrip(" \t\f")
            x.check(not key.startswith(("#", "!")) and key.strip(" \t\f\r\n") != "", "the key is on its line")
            alone = items(properties_parse("".join(lines[p.key - 1 : p.end - 1])))
            x.check_eq([(a.id, a.value, a.comment) for a in alone], [(e.id, e.value, "")], "without comment from the key line")
        else:
            x.check(len(items(got)) == 0 or (len(items(got)) == 1 and isinstance(items(got)[0], Comment)), "its lines are a comment")
            x.check_eq(got.comment or items(got)[0].comment, e.comment, "the same comment")
    x.obs("n", len(items(res)))


def fluent(x, pre, n, mid, m, post):
    """Entries, comments and sections of Fluent files are at their lines, and those of single entries too"""
    src = pre + x.str("src", n) + mid + x.str("t", m) + post
    try:
        res = fluent_parse(src)
    except ValueError:
        return
    lines = [line + "\n" for line in src.split("\n")]
    lines[-1] = lines[-1][:-1]
    if lines[-1] == "":
        lines = lines[:-1]
    prev = 1

    def blank(line):
        line = line[:-2] if line.endswith("\r\n") else line[:-1] if line.endswith("\n") else line
        return line.strip(" ") == ""

    def position(p):
        nonlocal prev
        x.check(p is not None, "there is a position")
        x.obs("pos", [p.start, p.key, p.value, p.end])
        x.check(p.start <= p.key and p.key <= p.value and p.value < p.end, "start <= key <= value < end")
        x.check(p.start >= prev, "positions increase and do not overlap")
        x.check(p.end <= len(lines) + 1, "within the source")
        prev = p.end
        return "".join(lines[p.start - 1 : p.end - 1])

    for s in res.sections:
        if s.linepos is not None or s.comment:
            got = fluent_parse(position(s.linepos))
            x.check_eq([(z.comment, len(z.entries)) for z in got.sections], [(s.comment, 0)], "the lines of a section are its comment")
        for e in s.entries:
            part = position(e.linepos)
            p = e.linepos
            got = fluent_parse(part)
            es = items(got)
            if isinstance(e, Entry):
                x.check(len(es) == 1 and isinstance(es[0], Entry), "its lines are exactly one entry")
                x.check(not got.meta and not got.comment and len(got.sections) == 1, "its lines have no other comment")
                x.check_eq(es[0], e, "the same entry")
                x.check(not blank(lines[p.start - 1]) and not blank(lines[p.end - 2]), "no blank lines around it")
                x.check(lines[p.key - 1].startswith(e.id[0]), "the key is on its line")
                alone = items(fluent_parse("".join(lines[p.key - 1 : p.end - 1])))
                x.check_eq([(a.id, a.value, a.properties, a.comment) for a in alone], [(e.id, e.value, e.properties, "")], "without comment from the key line")
                value = lines[p.value - 1]
                if p.value > p.key:
                    x.check(not blank(value) and value[0] in " {", "the value starts on an indented line")
                    x.check(all(blank(z) for z in lines[p.key : p.value - 1]), "nothing before the value")
                one = fluent_parse_entry("".join(lines[p.key - 1 : p.end - 1]))
                x.check_eq((one.id, one.value, one.properties), (e.id, e.value, e.properties), "as a single entry")
                x.check_eq([one.linepos.start, one.linepos.key, one.linepos.value, one.linepos.end], [1, 1, p.value - p.key + 1, p.end - p.key + 1], "the position in a single entry")
            else:
                x.check_eq((len(es), [(z.key, z.value) for z in got.meta]), (0, [("info", e.comment)]), "its lines are the comment")
    x.obs("n", len(items(res)))


FLUENT = [
    ("", 4, "", 0, ""),
    ("a = A", 2, "b = B", 2, ""),
    ("a = A\n", 2, ".b = B", 2, "c = C"),
    ("a =\n .b = B", 3, "", 0, "c = C\n"),
    ("# c", 2, "a =\n .b =", 2, "B\n\nc = C"),
    ("# c", 1, "# d", 2, "a = A"),
    ("x = X\n\n## g", 2, "# c", 2, "a = A\n### r\n"),
    ("### r", 2, "## g", 2, "-a = A\n"),
    ("a = { $n ->", 1, "*[b] c", 2, "}\nb = c"),
    ("a = A\r\n", 2, "b = B\r\n# c\r\nd = D\r\n .e = E\r\n", 2, ""),
    ("a = A\n# c\n\n# d", 2, "b =\n  B", 3, ""),
    ("a =", 2, " b", 2, " c\n\nd = D\n"),
    ("a = A\n #", 1, "\n# d", 2, "b = B"),
    ("a = {\"", 1, "\"}", 2, " { b }\nc = C"),
]
TEMPLATES = [
    ("", ""),
    ("k=", "\nb=2"),
    ("k=a\\", "b\nc=d"),
    ("k=a\\\r", "b\nc=d"),
    ("#c\n", "k=v\n"),
    ("a=1\n#c\n", "#d\nb=2\n"),
    ("#r\n\n", "k=v\n"),
    ("#r\n\n", "#c\nk=v\n"),
    ("a=1\n", "#c"),
    ("a=1", "\n#b\n\nc="),
    ("k", "\\\nb"),
]


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    for pre, post in TEMPLATES:
        for n in range(1 if (pre, post) == ("k", "\\\nb") else 0, (6 if not pre else 5) + t):
            out.append(dict(name=f"properties-{pre!r}-{post!r}-{n}", fn="properties", params=dict(pre=pre, n=n, post=post)))
    for i, (pre, n, mid, m, post) in enumerate(FLUENT):
        for a in range(0 if i else 1, n + 1 + t):
            for b in range(0, m + 1):
                if i == 0 or a + b >= min(n + m, 2):
                    out.append(dict(name=f"fluent-{i}-{a}{b}", fn="fluent", params=dict(pre=pre, n=a, mid=mid, m=b, post=post)))
    return out
