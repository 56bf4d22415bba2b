from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section

BOUNDS = {
    "quick": "metadata lists of up to 4 items whose keys and values are any strings of one character, on entries, sections and resources; "
    "single operations on each list, and all sequences of two operations on lists of up to 2",
    "thorough": "as quick with lists of up to 5 items, keys of up to 2 characters, and sequences of three operations",
}
ASSUMPTIONS = []


def owner(x, kind, meta):
    if kind == 0:
        return Entry(("e",), PatternMessage([]), meta=meta)
    if kind == 1:
        return Section(("s",), [], meta=meta)
    return Resource(None, [], meta=meta)


def pairs(meta):
    return [[m.key, m.value] for m in meta]


def spec_get(x, model, key):
    for k, v in model:
        if k == key:
            return v
    return None


def apply(x, o, model, op, tag, n):
    key = x.str(tag + "k", n)
    if op == 0:
        got = o.get_meta(key)
        want = spec_get(x, model, key)
        x.check((got is None) == (want is None), "get: presence")
        x.check_eq(got, want, "get: value of the first match")
    elif op == 1:
        x.check(o.has_meta(key) == (spec_get(x, model, key) is not None), "has: key")
        val = x.str(tag + "v", n)
        hit = False
        for k, v in model:
            if k == key and v == val:
                hit = True
        x.check(o.has_meta(key, val) == hit, "has: key and value")
    elif op == 2:
        val = x.str(tag + "v", n)
        x.check(o.set_meta(key, val) is None, "set: no result")
        for m in model:
            if m[0] == key:
                m[1] = val
                break
        else:
            model.append([key, val])
        x.check_eq(o.get_meta(key), val, "set: value is read back")
        x.check(o.has_meta(key, val), "set: value is found")
    else:
        gone = 0
        keep = []
        for k, v in model:
            if k == key:
                gone += 1
            else:
                keep.append([k, v])
        model[:] = keep
        x.check(o.del_meta(key) == gone, "del: number removed")
        x.check(not o.has_meta(key), "del: nothing left")
        x.check(o.get_meta(key) is None, "del: no value left")
    x.check_eq(pairs(o.meta), model, "the list afterwards")


def ops(x, k, seq, n):
    kind = x.choice("kind", 3)
    meta = [Metadata(x.str(f"k{i}", n), x.str(f"v{i}", n)) for i in range(k)]
    o = owner(x, kind, meta)
    other = Entry(("o",), PatternMessage([]))
    model = pairs(meta)
    for i, op in enumerate(seq):
        apply(x, o, model, op, f"op{i}", n)
    x.check_eq(other.meta, [], "other objects are not touched")


def empty_values(x):
    """An empty value is a value"""
    o = owner(x, x.choice("kind", 3), [])
    k = x.str("k", 1)
    o.set_meta(k, "")
    x.check_eq(o.get_meta(k), "", "empty value")
    x.check(o.has_meta(k) and o.has_meta(k, ""), "empty value found")
    v = x.str("v", 1)
    x.check(not o.has_meta(k, v), "other value not found")
    x.check(o.del_meta(k) == 1, "removed")


def empty_query(x, k):
    """An empty value is only found where there is one, and an empty key is a key"""
    kind = x.choice("kind", 3)
    meta = [Metadata(x.str(f"k{i}", x.choice(f"kn{i}", 2)), x.str(f"v{i}", x.choice(f"vn{i}", 2))) for i in range(k)]
    o = owner(x, kind, meta)
    model = pairs(meta)
    key = x.str("key", x.choice("kn", 2))
    hit = False
    for mk, mv in model:
        if mk == key and mv == "":
            hit = True
    x.check(o.has_meta(key, "") == hit, "has: empty value")
    x.check_eq(o.get_meta(key), spec_get(x, model, key), "get: first value, even if empty")
    x.check_eq(pairs(o.meta), model, "nothing changed")


def cases(tier):
    t = tier == "thorough"
    out = [dict(name=f"empty-{k}", fn="empty_query", params=dict(k=k)) for k in range(0, 4 if t else 3)]
    out += [dict(name="empty", fn="empty_values", params={})]
    for k in range(0, 6 if t else 5):
        for op in range(4):
            out.append(dict(name=f"one-{k}-{op}", fn="ops", params=dict(k=k, seq=(op,), n=1)))
    for k in range(0, 4 if t else 3):
        for a in range(4):
            for b in range(4):
                out.append(dict(name=f"two-{k}-{a}{b}", fn="ops", params=dict(k=k, seq=(a, b), n=2 if t else 1)))
                if t and k < 2:
                    for c in range(4):
                        out.append(dict(name=f"three-{k}-{a}{b}{c}", fn="ops", params=dict(k=k, seq=(a, b, c), n=1)))
    return out
