"""Migrations add what is missing and change nothing else."""
from moz.l10n.migrate import Migrate, all_migrations, copy, entry
from moz.l10n.migrate.utils import get_entry, get_pattern, insert_entry_after, plural_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.paths import L10nConfigPaths
from moz.l10n.resource import parse_resource

BOUNDS = (
    "localized files with up to 3 messages of symbolic ids, up to 2 (thorough: 3) new messages with symbolic ids and sources, made by every kind of function (messages, entries, strings, tuples with places, copies of messages, properties and variants from this file and another, new entries of parts, nothing, a missing source); "
    "2 sections or groups with symbolic names (3 of up to 2 parts for `insert_entry_after`); messages of up to 3 variants with symbolic keys; files in all formats; 2 locales, each with the file, without it, without its directory, or with one that is malformed; dry runs; migrations done twice"
)
ASSUMPTIONS = [
    "migration functions do not change the resources they are given, and give equal results when called again",
    "ids are distinct within a file; new messages can be represented in the format of the file if not said otherwise",
    "files are as before or as written: no crash within a write, and no error from reading or writing",
]


def ftl(ids, pre="v"):
    return "".join(f"{i} = {pre}{k}\n" for k, i in enumerate(ids))


def ids_(x, name, n, alpha, pre="m"):
    out = [pre + x.str(f"{name}{i}", 1, alpha) for i in range(n)]
    for i in range(n):
        for k in range(i):
            x.assume(out[i] != out[k])
    return out


def flat(res):
    """messages by id, and their order"""
    return [(s.id + e.id, e.value, sorted(e.properties.items(), key=first), e.comment) for s in res.sections for e in s.entries if isinstance(e, Entry)]


def first(item):
    return item[0]


KINDS = ["message", "string", "entry", "tuple", "tuple-str", "tuples", "copy", "copy-other", "value", "none", "stop", "new", "new-copy", "partial"]


def make(x, kind, k, src, src2):
    """a migration function, and a model of it: (text, ids of sources) of the new message, or None, from texts by id"""
    msg = PatternMessage([f"n{k}"])
    if kind == "message":
        return (lambda res, ctx: msg), (lambda cur, other, tgt: (f"n{k}", [tgt]))
    if kind == "string":
        return (lambda res, ctx: f"n{k}"), (lambda cur, other, tgt: (f"n{k}", [tgt]))
    if kind == "entry":
        # the place is that of the id of the entry
        return (lambda res, ctx: Entry((src,), msg)), (lambda cur, other, tgt: (f"n{k}", [src]))
    if kind == "tuple":
        return (lambda res, ctx: (msg, {(src,)})), (lambda cur, other, tgt: (f"n{k}", [src]))
    if kind == "tuple-str":
        return (lambda res, ctx: (f"n{k}", {src})), (lambda cur, other, tgt: (f"n{k}", [src]))
    if kind == "tuples":
        return (lambda res, ctx: (Entry(("q",), msg), [(src,), (src2,)])), (lambda cur, other, tgt: (f"n{k}", [src, src2]))
    if kind == "none":
        return (lambda res, ctx: None), (lambda cur, other, tgt: None)
    if kind == "stop":
        return (lambda res, ctx: get_pattern(res, "zz")), (lambda cur, other, tgt: None)

    def copied(cur, id):
        for i, t in cur:
            if x.eq(i, id):
                return t
        return None

    if kind in ("copy", "value"):
        f = copy(None, src, value_only=kind == "value")
        return f, (lambda cur, other, tgt: None if copied(cur, src) is None else (copied(cur, src), [src]))
    if kind == "copy-other":
        return copy("o.ftl", (src,)), (lambda cur, other, tgt: None if copied(other, src) is None else (copied(other, src), [src]))
    if kind == "new":
        return entry(f"n{k}"), (lambda cur, other, tgt: (f"n{k}", []))
    if kind == "new-copy":
        return entry(copy(None, src), {"p": copy("o.ftl", src2)}), (
            lambda cur, other, tgt: None if copied(cur, src) is None or copied(other, src2) is None else (copied(cur, src), [src, src2])
        )
    assert kind == "partial"
    return entry(copy(None, src), {"p": copy("o.ftl", src2)}, allow_partial=True), (
        lambda cur, other, tgt: None
        if copied(cur, src) is None and copied(other, src2) is None
        else (copied(cur, src) or "", ([src] if copied(cur, src) is not None else []) + ([src2] if copied(other, src2) is not None else []))
    )


def place(x, ids, new, src, prev):
    """index for a new message: after the last of its sources or earlier new ones, or at the end"""
    at = None
    for k, i in enumerate(ids):
        if x.any([x.eq(i, s) for s in src + prev]):
            at = k
    return len(ids) if at is None else at + 1


def text_of(msg):
    assert isinstance(msg, PatternMessage)
    return "".join(msg.pattern)


def fluent(x, n, kinds, no=1, comment=False):
    """New messages of each kind"""
    ids = ids_(x, "i", n, "abc")
    oids = ids_(x, "o", no, "ab")
    body = ftl(ids)
    if comment:
        body = "### R\n\n## S\n\n# C\n" + body + "\n# L\n"
    fs = x.fs([("en/m.ftl", ""), ("en/o.ftl", ""), ("de/m.ftl", body), ("de/o.ftl", ftl(oids, "w")), ("de/x.ftl", "x=y")])
    map, models = {}, []
    tgts = []
    for k, kind in enumerate(kinds):
        tgt = "m" + x.str(f"t{k}", 1, "acd")
        for t in tgts:
            x.assume(tgt != t)
        tgts.append(tgt)
        src, src2 = "m" + x.str(f"s{k}", 1, "abe"), "m" + x.str(f"r{k}", 1, "bc") if kind in ("tuples", "new-copy", "partial") else ""
        f, model = make(x, kind, k, src, src2)
        map[(tgt,) if k else tgt] = f
        models.append(model)
    before = parse_resource(fs.path("de/m.ftl"))
    cur = [(id[0], text_of(v)) for id, v, _, _ in flat(before)]
    other = [(i, f"w{k}") for k, i in enumerate(oids)]

    def simulate(cur):
        added, prev = [], []
        for tgt, model in zip(tgts, models):
            exists = x.any([x.eq(tgt, i) for i, _ in cur])
            res = None if exists else model(cur, other, tgt)
            if res is not None:
                text, src = res
                at = place(x, [i for i, _ in cur], tgt, src, prev)
                cur = [*cur[:at], (tgt, text), *cur[at:]]
                added.append(tgt)
            prev.append(tgt)
        return cur, added

    cur, added = simulate(cur)
    all_migrations.clear()
    mig = Migrate({"m.ftl": map}, fs.path(""))
    x.check(all_migrations == [mig], "migrations are collected")
    dry = mig.apply(dry_run=True)
    x.check(not fs.written(), "dry runs write nothing")
    x.check_eq(fs.read("de/m.ftl"), body, "dry runs leave the file alone")
    got = mig.apply()
    path = fs.path("de/m.ftl")
    x.obs("added", added)
    for r in (dry, got):
        x.check_eq(list(r), [path] if added else [], "changed files are reported")
        x.check_eq([e.id for e in r[path]] if added else [], [(a,) for a in added], "added messages are reported")
    after = parse_resource(path)
    if not added:
        x.check_eq(fs.read("de/m.ftl"), body, "a file without new messages is left alone")
    x.check_eq([(id[0], text_of(v)) for id, v, _, _ in flat(after)], cur, "all messages, in order")
    for s, t in zip(before.sections, after.sections):
        x.check_eq(t.comment, s.comment, "comments of sections")
    x.check_eq(after.comment, before.comment, "comment of the file")
    for id, v, props, c in flat(before):
        x.check(x.any([x.all([x.eq(id, id_), x.eq(v, v_), x.eq(props, p_), x.eq(c, c_)]) for id_, v_, p_, c_ in flat(after)]), "messages are as before")
    for p, t in (("de/o.ftl", ftl(oids, "w")), ("en/m.ftl", ""), ("en/o.ftl", ""), ("de/x.ftl", "x=y")):
        x.check_eq(fs.read(p), t, "other files are left alone")
    x.check(sum(1 for t in fs.tree("").values() if t is not None) == 5, "no other files are made")
    text = fs.read("de/m.ftl")
    # copies of messages made by later ones
    cur, again = simulate(cur)
    x.check_eq([e.id for es in mig.apply().values() for e in es], [(a,) for a in again], "nothing is added twice")
    if not again:
        x.check_eq(fs.read("de/m.ftl"), text, "migrating again changes nothing")


XLIFF = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">'


def unit(id, text):
    return f'<trans-unit id="{id}"><source>q</source><target>{text}</target></trans-unit>'


def sections(x, ext, kind, n=2):
    """New messages go in their own sections"""
    sec = lambda s: (s,)
    t = "s" + x.str("t", 1, "ab")
    ss = ["s" + x.str(f"s{k}", 1, "ab") for k in range(n)]
    for i in range(n):
        for k in range(i):
            x.assume(ss[i] != ss[k])
    if ext == ".ini":
        text = "# R\n\n" + "".join(f"[{s}]\nk{k} = v{k}\nm = w{k}\n" for k, s in enumerate(ss))
    elif ext == "groups":
        # groups in the same file
        ext = ".xliff"
        sec = lambda s: ("f", s) if s else ("f",)
        ss = ["", *ss][:n]
        t = x.choice("tt", ss)
        text = XLIFF + '<file original="f" datatype="x" source-language="en"><body>'
        for k, s in enumerate(ss):
            text += f'<group id="{s}">' * bool(s) + unit(f"k{k}", f"v{k}") + unit("m", f"w{k}") + "</group>" * bool(s)
        text += "</body></file></xliff>"
    else:
        text = XLIFF
        for k, s in enumerate(ss):
            text += f'<file original="{s}" datatype="x" source-language="en"><body>' + unit(f"k{k}", f"v{k}") + unit("m", f"w{k}") + "</body></file>"
        text += "</xliff>"
    fs = x.fs([("en/f" + ext, text), ("de/f" + ext, text), ("fr/x.ftl", "")])
    src = (x.choice("src", ss), x.choice("key", ["k0", "k1", "m"]))
    srcid = (*sec(src[0]), src[1])
    id = x.str("id", 1, "mn")
    tgtid = (*sec(t), id)
    texts = {(s, e): v for k, s in enumerate(ss) for e, v in ((f"k{k}", f"v{k}"), ("m", f"w{k}"))}
    new = "n"
    places = [src]
    meta = [Metadata("source", "q")] if ext == ".xliff" else []
    if kind == "copy":
        f = copy(None, srcid)
        new = texts.get(src)
    elif kind == "tuple":
        f = lambda res, ctx: (Entry(("q",), PatternMessage(["n"]), meta=list(meta)), {srcid})
    elif kind == "new":
        f = entry("n", meta=meta)
        places = []
    else:
        f = lambda res, ctx: PatternMessage(["n"])
        places = [(t, id)]
    mig = Migrate({"f" + ext: {tgtid: f}}, fs.path(""))
    path = fs.path("de/f" + ext)
    order = [list(s.id) + list(e.id) for s in parse_resource(path).sections for e in s.entries]
    got = mig.apply()
    text2 = fs.read("de/f" + ext)
    res = parse_resource(path)
    want = []
    added = False
    for k, s in enumerate(ss):
        es = [(f"k{k}", f"v{k}"), ("m", f"w{k}")]
        if x.eq(s, t) and new is not None and not x.eq(id, "m"):
            added = True
            at = 2
            if places and x.eq(places[0][0], s):
                for i, e in enumerate(es):
                    if e[0] == places[0][1]:
                        at = i + 1
            es = [*es[:at], (id, new), *es[at:]]
        want += [((*sec(s), e), v) for e, v in es]
    x.obs("added", added)
    x.check_eq([(id, text_of(v)) for id, v, _, _ in flat(res)], want, "each message in its own section")
    x.check(added == (path in got), "changed files are reported")
    if not added:
        x.check_eq(text2, text, "a file without new messages is left alone")
    # the other locale has no file: it gets one
    fr = "fr/f" + ext
    if new == "n" and kind != "copy" and x.any([x.eq(t, s) for s in ss]):
        x.check_eq([(id, text_of(v)) for id, v, _, _ in flat(parse_resource(fs.path(fr)))], [(tgtid, "n")], "a new file has the new messages only")
    else:
        x.check("f" + ext not in [p[3:] for p in fs.tree("") if p[:3] == "fr/"], "no file without new messages")
    tree = fs.tree("")
    x.check_eq(mig.apply(), {}, "nothing is added twice")
    x.check_eq(fs.tree(""), tree, "migrating again changes nothing")


STATES = ["there", "absent", "no-dir", "bad", "refused"]


def files(x, ext, how, n=1):
    """Files of several locales"""
    sub = "d" + x.str("d", n, "ab+") + "/"
    key = "k" + x.str("k", 1, "ab")
    bad = {".ftl": "a = {", ".dtd": "<!ENTITY", ".properties": b"a=\xff", ".xml": "<resources><string", ".ini": "x"}[ext]
    make = {
        ".ftl": lambda k, v: f"{k} = {v}\n",
        ".properties": lambda k, v: f"{k} = {v}\n",
        ".dtd": lambda k, v: f'<!ENTITY {k} "{v}">\n',
        ".ini": lambda k, v: f"[s]\n{k} = {v}\n",
        ".xml": lambda k, v: f'<resources><string name="{k}">{v}</string></resources>',
    }[ext]
    ref = sub + "m" + ext
    L = {"discover": "{locale}/", "config": "l/{locale}/", "android": "l/v-{android_locale}/"}[how]
    fs = x.fs([("en/" + ref, make("z", "Z")), ("en/" + sub + "x.ftl", "")])
    if how != "discover":
        fs.add("l10n.toml", f"basepath = '.'\nlocales = ['de', 'he']\n[[paths]]\nreference = 'en/{ref}'\nl10n = '{L}{ref}'\n")
    exp = {}
    for k, lc in enumerate(("de", "he")):
        dir = L.replace("{locale}", lc).replace("{android_locale}", "iw" if lc == "he" else lc)
        st = x.choice(f"st{k}", STATES)
        p = dir + ref
        if how == "discover":
            fs.add(dir + "y/y.ftl", "")
        if st in ("there", "bad", "refused"):
            fs.add(p, bad if st == "bad" else make("ka", "A"))
        elif st == "absent":
            fs.add(dir + sub[:-1], None)
        exp[lc] = (p, st)
    refused = {lc for lc, (_, st) in exp.items() if st == "refused"}
    tgt = ("s", key) if ext == ".ini" else key

    def value(res, ctx):
        if ctx.locale in refused:
            # no format has this
            sel = (VariableRef("x"), VariableRef("y"))
            return SelectMessage({"x": Expression(sel[0], "b c"), "y": Expression(sel[1], "d")}, sel, {("zz", CatchallKey()): ["A"], (CatchallKey(), CatchallKey()): ["B"]})
        return PatternMessage(["N"])

    src = ("en/" + ref) if how != "discover" else ref
    paths = L10nConfigPaths(fs.path("l10n.toml")) if how != "discover" else fs.path("")
    mig = Migrate({src: {tgt: value}}, paths)
    before = fs.tree("")
    order = list(mig.paths.target(src)[1])
    dry = mig.apply(dry_run=True)
    x.check_eq(fs.tree(""), before, "dry runs change nothing")
    failed = False
    try:
        got = mig.apply()
    except Exception:
        failed = True
        got = {}
    after = fs.tree("")
    want = dict(before)
    done = {}
    for lc in order:
        p, st = exp[lc]
        if st == "bad" or (st in ("there", "refused") and x.eq(key, "ka")):
            continue
        if st == "refused":
            # nothing after this one is done
            x.check(failed, "a message that is refused is an error")
            break
        done[p] = True
        res = parse_resource(fs.path(p))
        x.check_eq(
            [(id[-1], text_of(v)) for id, v, _, _ in flat(res)],
            [("ka", "A"), (key, "N")] if st == "there" else [(key, "N")],
            "the new message is in the file",
        )
        if ext in (".ini", ".ftl", ".properties"):
            x.check("z" not in after[p], "messages of the source are not copied")
        want[p] = after[p]
        parts = p.split("/")
        for i in range(1, len(parts)):
            want["/".join(parts[:i])] = None
    else:
        x.check(not failed, "no error")
        x.check_eq(sorted(got), sorted(fs.path(p) for p in done), "changed files are reported")
        x.check_eq(sorted(dry), sorted(got), "dry runs report the same")
    x.obs("n", len(done))
    x.check_eq(sorted(after), sorted(want), "no other files are made")
    for p in want:
        x.check_eq(after[p], want[p], "other files are left alone")


def renamed(part):
    """placeholders may be changed in place"""
    if isinstance(part, Expression):
        part.arg = VariableRef("q")


def copies(x, variant, prop, value_only, replace, sel):
    """Copies of parts of messages"""
    key = x.str("key", 1, "ox")
    text = "s = V { $p }w\n  .a = A\n"
    if sel:
        text = "s = { $n ->\n  [o] O { $p }w\n *[" + key + "x] X\n }\n  .a = { $n ->\n  [o] AO { $p }w\n *[x] AX\n }\n"
    fs = x.fs([("en/m.ftl", ""), ("de/m.ftl", text)])
    kw = {}
    if variant is not None:
        variant = kw["variant"] = x.str("var", 1, "oxz")
    if prop:
        prop = kw["property"] = x.str("prop", 1, "ab")
    if value_only:
        kw["value_only"] = True
    if replace:
        kw["replace"] = renamed if replace == "in place" else (lambda part: "" if isinstance(part, Expression) else None) if replace == "remove" else lambda part: Expression(VariableRef("q")) if isinstance(part, Expression) else None
    orig = get_entry(parse_resource(fs.path("de/m.ftl")), "s")
    mig = Migrate({"m.ftl": {"t": copy(None, "s", **kw)}}, fs.path(""))
    mig.apply()
    res = parse_resource(fs.path("de/m.ftl"))
    x.check_eq(get_entry(res, "s"), orig, "the source is as before")
    got = get_entry(res, "t")
    x.obs("got", got is None)

    def swap(pattern):
        if not replace:
            return pattern
        if replace == "remove":
            return ["".join(p for p in pattern if isinstance(p, str))]
        return [Expression(VariableRef("q")) if isinstance(p, Expression) else p for p in pattern]

    def swapped(msg):
        if isinstance(msg, PatternMessage):
            return PatternMessage(swap(msg.pattern))
        return SelectMessage(msg.declarations, msg.selectors, {k: swap(v) for k, v in msg.variants.items()})

    src = orig.value
    if prop:
        src = orig.properties["a"] if x.eq(prop, "a") else None
    if src is None:
        x.check(got is None, "no copy of a property that is not there")
        return
    x.check(got is not None, "the message is copied")
    want = swapped(src)
    if variant is not None and isinstance(want, SelectMessage):
        found = None
        for k, v in want.variants.items():
            if not isinstance(k[0], CatchallKey) and x.eq(k[0], variant):
                found = v
        if found is None:
            found = [v for k, v in want.variants.items() if isinstance(k[0], CatchallKey)][0]
        want = PatternMessage(found)
    x.check_eq(got.value, want, "the value is that of the source")
    props = {k: swapped(v) for k, v in orig.properties.items()} if not prop and not value_only and variant is None else {}
    x.check_eq(got.properties, props, "properties are those of the source")


def utilities(x, n, m):
    """Messages and patterns are found by their ids"""
    s1, s2 = x.str("s1", 1, "ab"), x.str("s2", 1, "ab")
    x.assume(s1 != s2)
    ids = ids_(x, "i", n, "ab", "")
    text = f"[{s1}]\n" + "".join(f"{i} = v{k}\n" for k, i in enumerate(ids)) + f"[{s2}]\na = w\n"
    res = parse_resource("a.ini", text.encode("utf-8"))
    t, id = x.str("t", 1, "abc"), x.str("id", m, "ab")
    got = get_entry(res, t, id)
    want = None
    for k, i in enumerate(ids):
        if x.eq(t, s1) and x.eq(i, id):
            want = f"v{k}"
    if x.eq(t, s2) and x.eq(id, "a"):
        want = "w"
    x.obs("found", want)
    if want is None:
        x.check(got is None, "no message of this id")
        x.check_eq(get_pattern(res, t, id, default=["D"]), ["D"], "default pattern")
        x.check_eq(get_pattern(res, t, id, property="p", default=["D"]), ["D"], "default pattern")
        try:
            get_pattern(res, t, id)
            x.fail("no pattern of this id")
        except StopIteration:
            pass
    else:
        x.check(text_of(got.value) == want, "message of this id")
        x.check_eq(get_pattern(res, t, id, default=["D"]), [want], "pattern of this id")
        x.check_eq(get_pattern(res, t, id, variant="a"), [want], "pattern of this id")
        try:
            x.check_eq(get_pattern(res, t, id, property="p", default=["D"]), ["D"], "default pattern")
            get_pattern(res, t, id, property="p")
            x.fail("no property")
        except StopIteration:
            pass


def inserted(x, lens, nid, nsrc, pair):
    """New messages go in the longest section that has their id, after the last of the given ones there"""
    secs = []
    for k, n in enumerate(lens):
        sid = tuple(x.str(f"s{k}{i}", 1, "ab") for i in range(n))
        es = [Entry((x.str(f"e{k}", 1, "cd"),), PatternMessage([f"A{k}"])), Entry(("a", "c"), PatternMessage([f"B{k}"]))]
        if pair:
            es.reverse()
        es.insert(1, Comment("C"))
        secs.append(Section(sid, es))
    id = tuple(x.str(f"i{i}", 1, "ab" if i < nid - 1 else "c") for i in range(nid))
    srcs = []
    for k, n in enumerate(nsrc):
        srcs.append(tuple(x.str(f"r{k}{i}", 1, "ab" if i < n - 1 else "cd") for i in range(n)))
    before = [(s.id, list(s.entries)) for s in secs]
    # independent reading
    best = None
    for s in secs:
        if len(s.id) < nid and x.all([x.eq(a, b) for a, b in zip(s.id, id)]) and (best is None or len(s.id) > best):
            best = len(s.id)
    at = None
    if best is not None:
        for k, s in enumerate(secs):
            if len(s.id) != best or not x.all([x.eq(a, b) for a, b in zip(s.id, id)]):
                continue
            if at is None or at[2] is False:
                at = (k, len(s.entries), False)
            for j, e in enumerate(s.entries):
                if isinstance(e, Entry):
                    full = [*s.id, *e.id]
                    if x.any([len(full) == len(r) and x.all([x.eq(a, b) for a, b in zip(full, r)]) for r in srcs]):
                        at = (k, j + 1, True)
    x.obs("at", at)
    new = Entry(id, PatternMessage(["N"]))
    args = [r[0] if len(r) == 1 else r for r in srcs]
    res = Resource(None, secs)
    try:
        insert_entry_after(res, new, *args)
    except StopIteration:
        x.check(at is None, "there is no section for the message")
        x.check(all(s.entries == es for s, (_, es) in zip(secs, before)), "nothing is changed")
        return
    x.check(at is not None, "there is a section for the message")
    x.check(new.id == id[best:], "the id is that within the section")
    for k, (s, (sid, es)) in enumerate(zip(secs, before)):
        x.check(s.id == sid, "ids of sections are as before")
        want = [*es[: at[1]], new, *es[at[1] :]] if k == at[0] else es
        x.check(len(want) == len(s.entries) and all(a is b for a, b in zip(want, s.entries)), "messages are in order")


def variants(x, n, catchall, prop):
    """Variants are found by their keys, or the default one is used"""
    keys = [x.str(f"k{i}", 1, "abc") for i in range(n)]
    for i in range(n):
        for k in range(i):
            x.assume(keys[i] != keys[k])
    vs = {(k,): [f"v{i}"] for i, k in enumerate(keys)}
    if catchall:
        vs[(CatchallKey(x.str("c", 1, "ab")),)] = ["other"]
    msg = SelectMessage({"q": Expression(VariableRef("q"), "string")}, (VariableRef("q"),), vs)
    plain = PatternMessage(["plain"])
    e = Entry(("e",), plain, properties={"p": msg}) if prop else Entry(("e",), msg, properties={"p": plain})
    res = Resource(None, [Section((), [e])])
    v = x.str("v", 1, "abd")
    kw = {"property": "p"} if prop else {}
    x.check_eq(get_pattern(res, "e", variant=v, **({} if prop else {"property": "p"})), ["plain"], "a message without variants")
    want = ["other"] if catchall else None
    for i, k in enumerate(keys):
        if x.eq(k, v):
            want = [f"v{i}"]
    x.obs("want", want)
    for var in (v, (v,)):
        x.check_eq(get_pattern(res, "e", variant=var, default=["D"], **kw), want or ["D"], "pattern or default")
        if want:
            x.check_eq(get_pattern(res, "e", variant=var, **kw), want, "pattern of the variant")
        else:
            try:
                get_pattern(res, "e", variant=var, **kw)
                x.fail("no variant")
            except StopIteration:
                pass
    if catchall:
        x.check_eq(get_pattern(res, "e", **kw), ["other"], "the default variant")


def pairs(x, n, catchall):
    """Variants with two keys are found by both of them"""
    def key(name):
        return CatchallKey() if x.flag(name + "?") else x.str(name, 1, "ab")
    keys = [(key(f"k{i}"), key(f"l{i}")) for i in range(n)]
    both = lambda k: isinstance(k[0], CatchallKey) and isinstance(k[1], CatchallKey)
    same = lambda a, b: isinstance(b, CatchallKey) if isinstance(a, CatchallKey) else not isinstance(b, CatchallKey) and x.eq(a, b)
    for i in range(n):
        x.assume(not both(keys[i]))
        for k in range(i):
            x.assume(not (same(keys[i][0], keys[k][0]) and same(keys[i][1], keys[k][1])))
    vs = {k: [f"v{i}"] for i, k in enumerate(keys)}
    if catchall:
        vs[CatchallKey("o"), CatchallKey("p")] = ["other"]
    sel = {v: Expression(VariableRef(v), "string") for v in "qr"}
    res = Resource(None, [Section((), [Entry(("e",), SelectMessage(sel, (VariableRef("q"), VariableRef("r")), vs))])])
    v = (key("v"), key("w"))
    want = ["other"] if catchall else ["D"]
    for i, k in enumerate(keys):
        if same(v[0], k[0]) and same(v[1], k[1]):
            want = [f"v{i}"]
    x.obs("want", want)
    x.check_eq(get_pattern(res, "e", variant=v, default=["D"]), want, "the variant, or that for anything")


def plurals(x):
    """Plural messages have the variants given, in order"""
    cats = ["zero", "one", "two", "few", "many"]
    kw = {c: [c] for c in cats if x.flag(c)}
    v = x.str("v", 1, "nq")
    msg = plural_message(v, other=["other"], **kw)
    x.check_eq(msg.selectors, (VariableRef(v),), "selector")
    x.check_eq([(k[0] if isinstance(k[0], str) else k[0].value, p) for k, p in msg.variants.items()], [(c, [c]) for c in [*cats, "other"] if c in kw or c == "other"], "variants")
    x.check(isinstance(list(msg.variants)[-1][0], CatchallKey), "the last one is the default")
    x.check_eq(msg.declarations[v].arg, VariableRef(v), "declaration")


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda case, fn, **params: out.append(dict(name=case, fn=fn, params=params))
    for kind in KINDS:
        for n in range(0, 4):
            add(f"one-{kind}-{n}", "fluent", n=n, kinds=[kind], comment=n == 2)
        for k2 in ("message", "tuple", "copy", "entry", "new") + (("new-copy", "tuples", "copy-other") if t else ()):
            add(f"two-{kind}-{k2}", "fluent", n=2, kinds=[kind, k2])
    for kinds in (["tuple", "none", "message"], ["copy", "copy", "string"]):
        add("three-" + "-".join(kinds), "fluent", n=2, kinds=kinds)
    if t:
        for kind in ("tuple", "copy", "new"):
            add(f"three-{kind}", "fluent", n=2, kinds=["message", kind, "copy"])
    for ext in (".ini", ".xliff", "groups"):
        for kind in ("copy", "tuple", "new") + (("message",) if ext == ".ini" else ()):
            for n in (1, 2):
                add(f"sections{ext}-{kind}-{n}", "sections", ext=ext, kind=kind, n=n)
    for ext in (".ftl", ".properties", ".dtd", ".ini", ".xml"):
        for how in ("discover", "config", "android"):
            add(f"files{ext}-{how}", "files", ext=ext, how=how, n=1 + t)
    for sel in (False, True):
        for replace in (False, True, "in place", "remove"):
            for variant, prop, value_only in ((None, False, False), (None, False, True), (None, True, False), ("v", False, False), ("v", True, False), ("v", False, True)):
                add(f"copy-{sel}-{replace}-{variant}-{prop}-{value_only}", "copies", variant=variant, prop=prop, value_only=value_only, replace=replace, sel=sel)
    for n in range(0, 3):
        for m in range(0, 3):
            add(f"utilities-{n}-{m}", "utilities", n=n, m=m)
    add("plurals", "plurals")
    for lens in ([0], [1], [1, 1], [0, 1], [1, 0], [1, 2], [2, 1], [1, 1, 1], [0, 1, 2], [2, 0, 1], [1, 0, 1], [0, 0]):
        for nid in (1, 2, 3):
            for nsrc in ([], [2], [1, 2], [3]):
                if t or len(lens) < 3 or (nid > 1 and nsrc in ([2], [3])):
                    add(f"insert-{'-'.join(map(str, lens))}-{nid}-{''.join(map(str, nsrc))}", "inserted", lens=lens, nid=nid, nsrc=nsrc, pair=len(nsrc) == 2)
    for n in range(0, 3 + t):
        for catchall in (False, True):
            add(f"pairs-{n}-{catchall}", "pairs", n=n, catchall=catchall)
    for n in range(0, 4):
        for prop in (False, True):
            for catchall in (False, True):
                add(f"variants-{n}-{prop}-{catchall}", "variants", n=n, prop=prop, catchall=catchall)
    return out
