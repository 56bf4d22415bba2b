from json import dumps, loads

from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.plain_json.serialize import plain_json_serialize
from moz.l10n.model import Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, VariableRef

BOUNDS = {
    "quick": "trees of up to 4 leaves and depth 3 with every key and value symbolic (0-2 characters, any scalar value that JSON does not escape; any scalar value for one leaf); resources of up to 3 entries with ids of up to 3 parts "
    "and section ids of up to 2, all parts symbolic",
    "thorough": "as quick with keys and values of up to 4 characters and 4 entries",
}
ASSUMPTIONS = [
    "the real json module is represented by a model of it in symbolic runs, and used in replays",
]

# Characters that JSON strings need no escapes for: the escapes are the json module's business
PLAIN = "re:[^\\x00-\\x1f\"\\\\\ud800-\udfff]"


def leaves(tree, path=()):
    out = []
    for k, v in tree.items():
        if isinstance(v, str):
            out.append((path + (k,), v))
        else:
            out += leaves(v, path + (k,))
    return out


def tree(x, shape, n, alpha=PLAIN, ascii=False):
    """shape: nested lists; a number is a string value of that length"""

    def build(sh, tag):
        if isinstance(sh, int):
            return x.str("v" + tag, sh, alpha)
        d = {}
        for i, s in enumerate(sh):
            k = x.str(f"k{tag}{i}", n, alpha)
            if k in d:
                x.reject()
            d[k] = build(s, tag + str(i))
        return d

    t = build(shape, "")
    src = dumps(t, ensure_ascii=ascii)
    res = plain_json_parse(src)
    ents = [(e.id, e.value.pattern) for s in res.sections for e in s.entries]
    x.obs("entries", ents)
    x.check_eq(ents, [(p, [v]) for p, v in leaves(t)], "one entry for each leaf, in order")
    out = "".join(plain_json_serialize(res))
    x.obs("out", out)
    back = loads(out)
    x.check_eq(back, t, "the tree comes back")
    x.check_eq(leaves(back), leaves(t), "in the same order")
    x.check_eq(out, dumps(t, indent=2, ensure_ascii=False) + "\n", "layout")


def resource(x, shape, n, kind, vn=1):
    """shape: list of (section id length, [entry id lengths])"""
    secs, want = [], []
    for i, (sl, es) in enumerate(shape):
        sid = tuple(x.str(f"s{i}{j}", n, PLAIN) for j in range(sl))
        ents = []
        for j, el in enumerate(es):
            eid = tuple(x.str(f"e{i}{j}{k}", n, PLAIN) for k in range(el))
            v = x.str(f"v{i}{j}", vn, PLAIN)
            ents.append(Entry(eid, v if kind == 0 else PatternMessage([v]) if kind == 1 else PatternMessage(["", v, "x"])))
            want.append((sid + eid, v + "x" if kind == 2 else v))
        secs.append(Section(sid, ents))
    twice = False
    for i in range(len(want)):
        for j in range(i):
            if want[i][0] == want[j][0]:
                twice = True
    try:
        out = "".join(plain_json_serialize(Resource(None, secs)))
    except ValueError:
        # only for ids that cannot be represented: one is there twice, or the parent of another
        bad = twice
        for i, _ in want:
            for j, _ in want:
                if len(i) < len(j) and j[: len(i)] == i:
                    bad = True
            if not i:
                bad = True
            for sec in secs:  # an empty section is an object, too
                if len(i) <= len(sec.id) and sec.id[: len(i)] == i:
                    bad = True
        x.check(bad, "only ids that contain others are refused")
        return
    x.obs("out", out)
    got = [(e.id, e.value.pattern) for s in plain_json_parse(out).sections for e in s.entries]
    x.check(not twice, "no id twice")
    x.check(len(got) == len(want), "number of entries")
    for i, v in want:
        x.check(x.any([x.all([x.eq(i, gi), x.eq([v], gv)]) for gi, gv in got]), "each entry comes back")


def refused(x, what, n):
    """What the format cannot represent is refused, or dropped with trim_comments"""
    s = x.str("s", n)
    e = Entry(("a",), PatternMessage(["v"]))
    res = Resource(None, [Section((), [e])])
    if what == 0:
        res.comment = s
    elif what == 1:
        res.sections[0].comment = s
    elif what == 2:
        e.comment = s
    elif what == 3:
        res.sections[0].entries.append(Comment(s))
    elif what == 4:
        res.meta.append(Metadata(s, ""))
    elif what == 5:
        res.sections[0].meta.append(Metadata("k", s))
    elif what == 6:
        e.meta.append(Metadata(s, s))
    if what == 7:
        e.value = PatternMessage([s, Expression(VariableRef(s))])
    elif what == 8:
        e.id = ()
    try:
        out = "".join(plain_json_serialize(res))
        x.check(what < 4 and n == 0, "comments, metadata and placeholders are refused")
        x.check_eq(loads(out), {"a": "v"}, "empty comments are no comments")
    except ValueError:
        x.check(what >= 4 or n > 0, "empty comments are accepted")
    if what < 7:
        x.check_eq(loads("".join(plain_json_serialize(res, trim_comments=True))), {"a": "v"}, "trimmed")


def not_strings(x, n):
    """Only objects and strings are accepted"""
    k = x.str("k", n)
    v = [None, True, False, 1, [], ["a"], {}][x.choice("v", 7)]
    try:
        res = plain_json_parse(dumps({"a": "b", k: v} if x.flag("obj") else v))
    except ValueError:
        return
    x.check(v == {} and isinstance(v, dict), "other values are refused")
    x.check(len(res.sections[0].entries) <= 1, "no entries for it")


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for shape in ([], [1], [2], [1, 1], [[1]], [[1], 1], [[1, 0], [1]], [[[1], 1], 1], [[[1, 1]], [1]], [1, [1], 1]):
        for n in ((1, 2) if len(str(shape)) < 9 else (1,)) if not t else (0, 1, 2) if len(str(shape)) > 9 else (0, 1, 2, 3, 4):
            if n == 0 and shape not in ([], [1], [2], [[1]]):
                continue  # several equal keys
            add("tree", f"{shape}-{n}", shape=shape, n=n)
    add("tree", "long", shape=[5], n=1)
    add("tree", "longkey", shape=[1], n=5)
    add("tree", "escapes", shape=[0], n=1, alpha="scalar", ascii=True)
    add("tree", "escapes1", shape=[1], n=0, alpha="scalar", ascii=True)
    add("tree", "escapes2", shape=[2 if t else 0], n=2 if t else 1, alpha="scalar")
    shapes = [
        [(0, [1])], [(0, [1, 1])], [(0, [1, 2])], [(0, [2, 1])], [(0, [2, 2])], [(0, [3, 1])], [(0, [1, 3])], [(0, [2, 3])], [(1, [1]), (0, [1])], [(0, [1]), (1, [1])],
        [(1, [1]), (1, [1])], [(1, [1]), (0, [2])], [(2, [1]), (1, [1])], [(1, [1, 1]), (0, [1])], [(0, [1, 2, 2])], [(0, [2, 1, 2])], [(0, [0])], [(1, [0, 1])],
        [(1, [2]), (2, [1])], [(1, []), (0, [1])],
    ] + ([[(0, [1, 2, 2, 1])], [(1, [1, 2]), (0, [1, 2])], [(0, [3, 2, 1])], [(2, [2, 1]), (1, [3])]] if t else [])
    for i, shape in enumerate(shapes):
        for kind in (0, 1, 2) if i < 4 else (1,):
            add("resource", f"{shape}-{kind}", shape=shape, n=1, kind=kind)
        add("resource", f"{shape}-empty", shape=shape, n=1, kind=i % 2, vn=0)
        if t:
            add("resource", f"{shape}-blank", shape=shape, n=0, kind=1 - i % 2, vn=0)
    for what in range(9):
        for n in (0, 1):
            add("refused", f"{what}-{n}", what=what, n=n)
    for n in (0, 1):
        add("not_strings", n, n=n)
    return out
