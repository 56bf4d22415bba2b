from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section
from moz.l10n.resource.add_entries import add_entries

BOUNDS = {
    "quick": "all pairs of resources with up to 2 sections of up to 3 entries and comments in each, section ids, entry ids and section comments symbolic "
    "strings of one character (comments also empty), so that any of them may or may not coincide",
    "thorough": "as quick with up to 3 sections, and up to 4 entries in a section",
}
ASSUMPTIONS = ["each resource is valid: no two of its entries have the same section id and entry id"]


def mk(x, tag, shape, comments):
    """shape: for each section, a string of e (entry) and # (comment)"""
    secs = []
    for i, items in enumerate(shape):
        sid = (x.str(f"{tag}s{i}", 1),)
        com = x.str(f"{tag}c{i}", 1) if comments and x.flag(f"{tag}h{i}") else ""
        es = []
        for j, it in enumerate(items):
            if it == "e":
                es.append(Entry((x.str(f"{tag}e{i}{j}", 1),), PatternMessage([x.str(f"{tag}v{i}{j}", 1)])))
            else:
                es.append(Comment(f"{tag} comment {i}.{j}"))
        secs.append(Section(sid, es, com, [Metadata("k", f"{tag}{i}")]))
    ids = [(s.id, e.id) for s in secs for e in s.entries if isinstance(e, Entry)]
    for i in range(len(ids)):
        for j in range(i):
            x.assume(ids[i] != ids[j])
    return Resource(None, secs)


def shape_of(res):
    return [(s, list(s.entries), s.id, s.comment, list(s.meta)) for s in res.sections]


def where(res, entry):
    return [(s, i) for s in res.sections for i, e in enumerate(s.entries) if e is entry]


def unchanged(x, before, res, what):
    x.check(len(before) == len(res.sections), what + ": sections")
    for (s, es, sid, com, meta), t in zip(before, res.sections):
        x.check(s is t and len(es) == len(t.entries) and all(a is b for a, b in zip(es, t.entries)), what + ": items")
        x.check_eq([t.id, t.comment, t.meta], [sid, com, meta], what + ": section data")


def add(x, tshape, sshape, comments):
    target = mk(x, "t", tshape, comments)
    source = mk(x, "s", sshape, comments)
    tb, sb = shape_of(target), shape_of(source)
    values = [(e, list(e.value.pattern)) for s in target.sections for e in s.entries if isinstance(e, Entry)]
    n = add_entries(target, source)
    x.obs("added", n)
    x.obs("result", [[s.id, s.comment, [e.id if isinstance(e, Entry) else e.comment for e in s.entries]] for s in target.sections])
    old = [e for _, es, _, _, _ in tb for e in es]
    new = [e for s in target.sections for e in s.entries if not any(e is o for o in old)]
    x.check(n == len(new), "the number of added entries is returned")
    # nothing of the target is lost or moved
    at = 0
    for s, es, sid, com, meta in tb:
        while target.sections[at] is not s:
            x.check(all(any(e is m for m in new) for e in target.sections[at].entries), "other sections are new ones")
            at += 1
            x.check(at < len(target.sections), "every section of the target is kept, in order")
        kept = [e for e in s.entries if not any(e is m for m in new)]
        x.check(len(kept) == len(es) and all(a is b for a, b in zip(kept, es)), "every item of a section is kept, in order")
        x.check_eq([s.id, s.comment, s.meta], [sid, com, meta], "section data is kept")
        at += 1
    for e, v in values:
        x.check_eq(e.value.pattern, v, "no target value changes")
    # every source entry is there exactly once
    have = [(sid, e.id) for _, es, sid, _, _ in tb for e in es if isinstance(e, Entry)]
    for s, es, sid, com, meta in sb:
        prev = None
        for e in es:
            if not isinstance(e, Entry):
                x.check(not where(target, e), "standalone comments are not added")
                continue
            known = any((sid, e.id) == h for h in have)
            at = where(target, e)
            if known:
                x.check(not at, "an entry that was there is not added")
            else:
                x.check(len(at) == 1, "a missing entry is added once")
                ts, idx = at[0]
                x.check_eq([ts.id, ts.comment], [sid, com], "in a section with the same id and comment")
                if prev is not None and prev[0] is ts:
                    x.check(idx > prev[1], "after the entry that precedes it in the source")
            found = [(t, i) for t in target.sections for i, o in enumerate(t.entries) if isinstance(o, Entry) and t.id == sid and o.id == e.id]
            x.check(len(found) == 1, "each id is there exactly once")
            prev = found[0]
    unchanged(x, sb, source, "the source")
    # again
    after = shape_of(target)
    x.check(add_entries(target, source) == 0, "nothing to add the second time")
    unchanged(x, after, target, "the second time")


def override(x, tshape, sshape):
    """use_source_entries: the source wins, and all else stays"""
    target = mk(x, "t", tshape, False)
    source = mk(x, "s", sshape, False)
    for s in source.sections:
        s.meta = []
    for s in target.sections:
        s.meta = []
    for e in source.sections[0].entries:
        if isinstance(e, Entry):
            e.comment = x.str("com", 1)
            break
    tb = shape_of(target)
    have = [((sid, e.id), e) for _, es, sid, _, _ in tb for e in es if isinstance(e, Entry)]
    n = add_entries(target, source, use_source_entries=True)
    x.obs("changed", n)
    count = 0
    replaced = []
    for s in source.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                old = [o for k, o in have if k == (s.id, e.id)]
                if not old:
                    count += 1
                    x.check(len(where(target, e)) == 1, "a missing entry is added once")
                elif x.eq(old[0], e):
                    x.check(len(where(target, old[0])) == 1, "an equal entry is kept")
                else:
                    count += 1
                    replaced.append(old[0])
                    x.check(len(where(target, e)) == 1 and not where(target, old[0]), "a different entry is replaced")
    x.check(n == count, "the number of changes is returned")
    for k, o in have:
        if not any(o is r for r in replaced):
            x.check(len(where(target, o)) == 1, "other entries stay")
    for _, es, _, _, _ in tb:
        for c in es:
            if isinstance(c, Comment):
                x.check(len(where(target, c)) == 1, "comments stay")
    x.check(add_entries(target, source, use_source_entries=True) == 0, "nothing to change the second time")


def section_data(x, k):
    """use_source_entries also takes over the comment and metadata of a section"""
    es = [Entry((i,), PatternMessage(["v"])) for i in "abc"[:k]]
    c1, c2 = x.str("c1", 1), x.str("c2", 1)
    m1, m2 = x.str("m1", 1), x.str("m2", 1)
    target = Resource(None, [Section(("s",), [Entry(e.id, PatternMessage(["v"])) for e in es], c1, [Metadata("k", m1)])])
    source = Resource(None, [Section(("s",), es, c2, [Metadata("k", m2)])])
    n = add_entries(target, source, use_source_entries=True)
    x.check(len(target.sections) == 1, "one section")
    x.check_eq([target.sections[0].comment, [m.value for m in target.sections[0].meta]], [c2, [m2]], "section data of the source")
    x.check(x.eq(n == 0, x.all([x.eq(c1, c2), x.eq(m1, m2)])), "changes are counted")
    x.check(n <= 1, "one change")


def cases(tier):
    t = tier == "thorough"
    out = []

    def case(fn, name, **p):
        out.append(dict(name=f"{fn}-{name}", fn=fn, params=p))

    shapes = [
        ((), ("e",)), (("e",), ()), (("e",), ("e",)), (("",), ("ee",)), (("ee",), ("e",)), (("e#e",), ("ee",)), (("ee",), ("ee#",)), (("eee",), ("ee",)), (("ee",), ("eee",)),
        (("e", "e"), ("e",)), (("e", "e"), ("ee",)), (("e",), ("e", "e")), (("ee",), ("e", "e")), (("e", "e"), ("e", "e")), (("#e", "e#"), ("#e", "ee")), (("ee", "e"), ("ee", "e")),
    ]
    if t:
        shapes += [(("ee", "ee"), ("ee", "ee")), (("e", "e", "e"), ("ee",)), (("ee",), ("e", "e", "e")), (("eeee",), ("eee",)), (("e#ee",), ("eeee",)), (("e", "e", "e"), ("e", "e"))]
    for a, b in shapes:
        for c in (False, True):
            if c and not t and len("".join(a + b)) > 5:
                continue
            case("add", f"{'/'.join(a)}+{'/'.join(b)}-{c}", tshape=a, sshape=b, comments=c)
    for a, b in [(("e",), ("e",)), (("ee",), ("e",)), (("e#e",), ("ee",)), (("e", "e"), ("e",)), (("e", "e"), ("ee",)), (("ee",), ("e", "e"))]:
        case("override", f"{'/'.join(a)}+{'/'.join(b)}", tshape=a, sshape=b)
    for k in (1, 2, 3):
        case("section_data", k, k=k)
    return out
