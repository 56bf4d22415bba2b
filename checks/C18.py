from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section
from moz.l10n.resource.l10n_equal import l10n_equal

BOUNDS = {
    "quick": "pairs of resources with up to 2 sections of up to 2 entries each, all section ids, entry ids (of 1-3 parts), comments, metadata and values symbolic strings of 0-1 characters; "
    "all changes of one part of a resource; all orders of up to 3 sections and 3 entries",
    "thorough": "as quick with 3 sections and strings of up to 2 characters",
}
ASSUMPTIONS = [
    "resources are valid: the entries of equally named sections have distinct ids, and two sections with the same id, comment and metadata are both anonymous",
]
WS = " \t\n"


def some(x, name, n=None, alpha="scalar"):
    """a character, or nothing"""
    return x.str(name, 1, alpha) if n is None or x.flag("has" + name) else ""


def mk_entry(x, tag, parts, e=None):
    """parts: which of the parts are symbolic; e: they may be empty too"""
    return Entry(
        (some(x, tag + "id", e) if "i" in parts else tag,),
        PatternMessage([some(x, tag + "v", e)] if not e or "v" not in parts or x.flag("pattern" + tag) else []) if "v" in parts else PatternMessage(["v" + tag]),
        properties={some(x, tag + "pk", e): PatternMessage([some(x, tag + "pv", e)])} if "p" in parts and (not e or x.flag("props" + tag)) else {},
        comment=some(x, tag + "c", e) if "c" in parts else "",
        meta=[Metadata(some(x, tag + "mk", e), some(x, tag + "mv", e))] if "m" in parts and (not e or x.flag("meta" + tag)) else [],
    )


def copy_entry(e):
    return Entry(e.id, PatternMessage(list(e.value.pattern)), dict(e.properties), e.comment, [Metadata(m.key, m.value) for m in e.meta])


def copy_res(r, order=None, eorder=None):
    ss = []
    for s in r.sections:
        es = [copy_entry(e) if isinstance(e, Entry) else Comment(e.comment) for e in s.entries]
        if eorder:
            es = [es[i] for i in eorder]
        ss.append(Section(s.id, es, s.comment, [Metadata(m.key, m.value) for m in s.meta]))
    if order:
        ss = [ss[i] for i in order]
    return Resource(r.format, ss, r.comment, [Metadata(m.key, m.value) for m in r.meta])


def same_entry(x, a, b):
    return x.all(
        [
            x.eq(a.id, b.id),
            x.eq(a.comment.strip(), b.comment.strip()),
            x.eq(a.value, b.value),
            x.eq(a.properties, b.properties),
            same_meta(x, a.meta, b.meta),
        ]
    )


def same_meta(x, a, b):
    """each item of one is in the other"""
    return x.all(
        [x.any([x.all([x.eq(m.key, n.key), x.eq(m.value, n.value)]) for n in b]) for m in a]
        + [x.any([x.all([x.eq(m.key, n.key), x.eq(m.value, n.value)]) for n in a]) for m in b]
    )


def pair(x, parts, e=None):
    """Two one-entry resources are equal exactly when all parts are"""
    a, b = mk_entry(x, "a", parts, e), mk_entry(x, "b", parts, e)
    if "v" not in parts:
        b.value = PatternMessage(["va"])
    if "i" not in parts:
        b.id = ("a",)
    ra, rb = Resource(None, [Section((), [a])]), Resource(None, [Section((), [b])])
    want = same_entry(x, a, b)
    got = l10n_equal(ra, rb)
    x.check(x.eq(want, got), "equal exactly when all parts are equal")
    x.check(l10n_equal(rb, ra) == got, "symmetric")
    x.check(l10n_equal(ra, ra) and l10n_equal(ra, copy_res(ra)), "reflexive")


def meta_sets(x, n, m, where, e=None):
    """Metadata compares as a set"""
    ma = [Metadata(x.str(f"ak{i}", 1, "kl"), some(x, f"av{i}", e)) for i in range(n)]
    mb = [Metadata(x.str(f"bk{i}", 1, "kl"), some(x, f"bv{i}", e)) for i in range(m)]

    def mk(meta):
        e = Entry(("e",), PatternMessage([]), meta=meta if where == 0 else [])
        return Resource(None, [Section(("s",), [e], meta=meta if where == 1 else [])], meta=meta if where == 2 else [])

    ra, rb = mk(ma), mk(mb)
    got = l10n_equal(ra, rb)
    x.check(x.eq(same_meta(x, ma, mb), got), "equal exactly when the same items are there")
    x.check(l10n_equal(rb, ra) == got, "symmetric")


def comments(x, n, m, where):
    """Comments compare without whitespace around them"""
    ca, cb = x.str("ca", n), x.str("cb", m)

    def mk(c):
        e = Entry(("e",), PatternMessage([]), comment=c if where == 0 else "")
        return Resource(None, [Section(("s",), [e], comment=c if where == 1 else "")], comment=c if where == 2 else "")

    ra, rb = mk(ca), mk(cb)
    got = l10n_equal(ra, rb)
    x.check(x.eq(x.eq(ca.strip(), cb.strip()), got), "equal exactly when the stripped comments are")
    x.check(l10n_equal(rb, ra) == got, "symmetric")


PERMS = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]}


def mk_sections(x, k, what):
    ss = []
    for i in range(k):
        if what == "id":
            s = Section((x.str(f"s{i}", 1),), [Entry((f"e{i}",), PatternMessage([f"v{i}"]))])
        elif what == "id2":
            s = Section(("s", x.str(f"s{i}", 1)) if i else ("s",), [Entry((f"e{i}", "x"), PatternMessage([f"v{i}"]))])
        elif what == "metas":
            # with the same ids of entries
            m = [Metadata("k", x.str(f"m{i}", 1)), Metadata("k" if x.flag(f"k{i}") else "j", x.str(f"n{i}", 1))]
            s = Section(("s",), [Entry(("e",), PatternMessage([f"v{i}"]))], "", m)
        elif what == "notes":
            s = Section(("s",), [Entry(("e",), PatternMessage([f"v{i}"]))], x.str(f"c{i}", 1))
        elif what == "anon":
            c = x.str(f"c{i}", 1, "scalar- ") if x.flag(f"hasc{i}") else ""
            s = Section((), [Entry((f"e{i}",), PatternMessage([f"v{i}"]))], c)
        else:
            m = [Metadata("k", x.str(f"m{i}", 1))] if x.flag(f"hasm{i}") else []
            s = Section((), [Entry((f"e{i}",), PatternMessage([f"v{i}"]))], "", m)
        ss.append(s)
    for i in range(k):
        for j in range(i):
            a, b = ss[i], ss[j]
            distinct = not (
                a.id == b.id and a.comment.strip() == b.comment.strip() and x.eq(same_meta(x, a.meta, b.meta), True)
            )
            anon = not a.id and not a.comment.strip() and not a.meta
            if not (distinct or anon):
                x.reject()
    return ss


def section_order(x, k, what):
    """The order of sections is ignored"""
    r = Resource(None, mk_sections(x, k, what))
    i = x.choice("perm", len(PERMS[k]))
    p = PERMS[k][i]
    x.check(l10n_equal(r, copy_res(r, order=p)), "same sections in another order")
    # but not what is in them
    other = copy_res(r, order=p)
    other.sections[0].entries[0].value = PatternMessage(["changed"])
    x.check(not l10n_equal(r, other) and not l10n_equal(other, r), "another value is noticed")
    if i != len(PERMS[k]) - 1:
        return
    other = copy_res(r, order=p)
    sec = other.sections[x.choice("at", k)]
    part = x.choice("part", 4)
    if part == 0:
        sec.id = sec.id + ("more",)
    elif part == 1:
        sec.comment = sec.comment + "more"
    elif part == 2:
        sec.meta.append(Metadata("more", ""))
    elif sec.meta:
        sec.meta = []
    else:
        x.reject()
    x.check(not l10n_equal(r, other) and not l10n_equal(other, r), "another section is noticed")


def anon_split(x, k):
    """Anonymous sections are equivalent to one with all their entries"""
    es = [Entry((x.str(f"i{i}", 1),), PatternMessage([x.str(f"v{i}", 1)])) for i in range(k)]
    for i in range(k):
        for j in range(i):
            x.assume(es[i].id != es[j].id)
    sec = Section(("s",) if x.flag("named") else (), [Entry(("n",), PatternMessage([]))], x.str("c", 1, "scalar- ") if x.flag("comment") else "note")
    if not sec.id and not sec.comment.strip():
        x.reject()
    a = Resource(None, [Section((), list(es)), sec])
    parts = [Section((), [e]) for e in es]
    at = x.choice("at", k + 1)
    b = Resource(None, parts[:at] + [sec] + parts[at:])
    x.check(l10n_equal(a, b) and l10n_equal(b, a), "split anonymous sections")
    b.sections.pop(0 if at else 1)
    x.check(not l10n_equal(a, b) and not l10n_equal(b, a), "a missing part is noticed")


SPLITS = [((0, 1), (2,)), ((0, 2), (1,)), ((1, 2), (0,)), ((0,), (1,), (2,)), ((2, 0), (1,)), ((2, 1), (0,)), ((1, 0), (2,))]


def ids(x, k, parts):
    """k ids, with some parts symbolic: of each, or the same in all"""
    out = []
    for i in range(k):
        v = x.str(f"i{i}", 1)
        out.append({"1": (v,), "2": ("k", v), "2a": (v, "k"), "12": ("k", v) if i % 2 else (v,), "3": ("k", v, "k" + v), "21": ("k",) if i == 0 else ("k", v)}[parts])
    return out


def anon_groups(x, parts):
    """It does not matter how entries are divided into anonymous sections"""
    es = [Entry(id, PatternMessage([f"v{i}"])) for i, id in enumerate(ids(x, 3, parts))]
    for i in range(3):
        for j in range(i):
            x.assume(es[i].id != es[j].id)
    tail = [Section(("s",), [Entry(("n",), PatternMessage([]))])] if x.flag("more") else []

    def mk(groups):
        return Resource(None, [Section((), [copy_entry(es[i]) for i in g]) for g in groups] + tail)

    a = mk([(0, 1, 2)])
    b = mk(SPLITS[x.choice("b", len(SPLITS))])
    x.check(l10n_equal(a, b) and l10n_equal(b, a), "divided differently")
    b.sections[1].entries[0].value = PatternMessage(["changed"])
    x.check(not l10n_equal(a, b) and not l10n_equal(b, a), "another value is noticed")


def entry_order(x, k, parts="1"):
    es = [mk_entry(x, "abc"[i], "iv" if parts == "1" else "v") for i in range(k)]
    if parts != "1":
        for e, id in zip(es, ids(x, k, parts)):
            e.id = id
    for i in range(k):
        for j in range(i):
            x.assume(es[i].id != es[j].id)
    named = ("s",) if x.flag("named") else ()
    r = Resource(None, [Section(named, es)])
    p = PERMS[k][x.choice("perm", len(PERMS[k]))]
    o = copy_res(r, eorder=p)
    x.check(l10n_equal(r, o), "same entries in another order")
    o.sections[0].entries.append(Comment(x.str("comment", 1)))
    o.sections.append(Section((x.str("empty", 1),), [Comment("c")], "comment"))
    x.check(l10n_equal(r, o) and l10n_equal(o, r), "standalone comments and sections without entries are ignored")
    o.sections[0].entries.pop(x.choice("drop", k))
    x.check(not l10n_equal(r, o) and not l10n_equal(o, r), "a missing entry is noticed")


def moved(x):
    """An entry in another section is another entry"""
    a, b = x.str("a", 1), x.str("b", 1)
    e1, e2, e3 = [Entry((i,), PatternMessage(["v"])) for i in ("x", "y", "z")]
    ra = Resource(None, [Section((a,), [e1, e2]), Section((b,), [e3])])
    rb = Resource(None, [Section((a,), [e1]), Section((b,), [e2, e3])])
    x.assume(a != b)
    x.check(not l10n_equal(ra, rb), "moved entry")


def any_pair(x, n):
    """Any two resources: symmetric, and equal only if they have the same ids and values"""
    rs = []
    for t in "ab":
        ss = []
        for i in range(n):
            ss.append(Section((x.str(f"{t}s{i}", 1, "pq"),), [Entry((f"{i}",), PatternMessage([x.str(f"{t}v{i}", 1)]))]))
        rs.append(Resource(None, ss))
    got = l10n_equal(rs[0], rs[1])
    x.check(l10n_equal(rs[1], rs[0]) == got, "symmetric")
    if got:
        for s in rs[0].sections:
            x.check(
                x.any([x.all([x.eq(s.id, o.id), x.eq(s.entries[0].id, o.entries[0].id), x.eq(s.entries[0].value, o.entries[0].value)]) for o in rs[1].sections]),
                "each entry has its equal",
            )


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    for parts in ("i", "v", "p", "c", "m", "iv", "ic", "ivc", "cm", "vp") + (("ivcm", "ivpcm") if t else ()):
        add("pair", parts, parts=parts)
        if len(parts) < 2 or t:
            add("pair", f"{parts}-empty", parts=parts, e=1)
    for where in (0, 1, 2):
        for n, m in [(0, 1), (1, 1), (1, 2), (2, 2)] + ([(2, 3)] if t else []):
            add("meta_sets", f"{where}-{n}-{m}", n=n, m=m, where=where)
            if n + m < 4 or t:
                add("meta_sets", f"{where}-{n}-{m}-empty", n=n, m=m, where=where, e=1)
        for n, m in [(0, 1), (1, 1), (2, 1), (2, 2)] + ([(3, 2), (3, 3)] if t else []):
            add("comments", f"{where}-{n}-{m}", n=n, m=m, where=where)
    for what in ("id", "anon", "meta", "id2", "metas", "notes"):
        for k in (1, 2, 3):
            if k < 3 or what != "metas" or t:
                add("section_order", f"{what}-{k}", k=k, what=what)
    for k in (2, 3):
        add("anon_split", k, k=k)
    for k in (1, 2, 3):
        add("entry_order", k, k=k)
    add("moved", "", )
    for n in (1, 2) + ((3,) if t else ()):
        add("any_pair", n, n=n)
    for parts in ("1", "2", "2a", "12", "3", "21"):
        add("anon_groups", parts, parts=parts)
        if parts != "1":
            add("entry_order", f"2-{parts}", k=2, parts=parts)
            if t:
                add("entry_order", f"3-{parts}", k=3, parts=parts)
    return out
