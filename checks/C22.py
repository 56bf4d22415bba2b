"""Built files have exactly the messages of their sources."""
import json

import moz.l10n.bin.build as build_module
from moz.l10n.bin.build import _locales_settify, write_target_file
from moz.l10n.bin.build import cli as build
from moz.l10n.bin.build_file import cli as build_file
from moz.l10n.model import Comment, Entry
from moz.l10n.resource import parse_resource

BOUNDS = (
    "files of all ten formats with up to 3 messages in the source and in the localization, each id with a symbolic character and values of up to 2 (thorough: 3) symbolic characters, comments in each place, symbolic attributes and terms in Fluent, 2 sections; "
    "builds of 2 files and one of no format for up to 3 locales, each localization absent or not, with configured locales and coverage; lists of locales of up to 4 (thorough: 6) symbolic characters"
)
ASSUMPTIONS = [
    "sources and localizations parse and serialize, and are of the same format",
    "ids are distinct within a file",
    "nothing else writes the files, and no write fails",
]

LOG = []


class Log:
    """records the log of the build"""

    def info(self, text, *args):
        LOG.append(text % args if args else text)

    def debug(self, *args, **kwargs):
        pass

    warning = error = exception = debug


X = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" datatype="x" source-language="en"><body>'


def j(parts, sep):
    out = ""
    for i, p in enumerate(parts):
        out += (sep if i else "") + p
    return out


# format: (start of file, message, separator, end of file, alphabet of values)
# with the id §, the value ¶, and comments ZZ
FORMATS = {
    ".properties": ("# ZZ\n\n", "# ZZ1\nm§ = v¶\n", "", "\n# ZZ2\n", "ab :\xe9"),
    ".dtd": ("<!-- ZZ -->\n\n", '<!-- ZZ1 -->\n<!ENTITY m§ "v¶">\n', "", "<!-- ZZ2 -->\n", "ab <'\xe9"),
    ".inc": ("# ZZ\n\n", "# ZZ1\n#define m§ v¶\n", "\n", "# ZZ2\n", "ab <#\xe9"),
    ".ini": ("; ZZ\n\n[s]\n", "; ZZ1\nm§ = v¶\n", "", "; ZZ2\n", "ab=#\xe9"),
    ".ftl": ("### ZZ\n\n## ZZ3\n\n", "# ZZ1\nm§ = v¶\n", "", "\n# ZZ2\n", "ab =#\xe9"),
    ".json": ("{", '"m§": {"x": "v¶"}', ",", "}", "ab $/\xe9"),
    ".webext": ("{", '"m§": {"message": "v¶", "description": "ZZ1"}', ",", "}", "ab /\xe9"),
    ".po": ('# ZZ\nmsgid ""\nmsgstr ""\n"Language: xx\\n"\n', '\n# ZZ1\n#. ZZ3\n#: ZZ4\nmsgctxt "m§"\nmsgid "m"\nmsgstr "v¶"\n', "", "", "ab %"),
    ".xml": ("<!-- ZZ -->\n<resources>", '<!-- ZZ1 --><string name="m§">v¶</string>', "\n", "<!-- ZZ2 --></resources>", "ab %\xe9"),
    ".xliff": (X, '<trans-unit id="m§"><source>s</source><target>v¶</target><note>ZZ1</note></trans-unit>', "\n", "</body></file></xliff>", "ab %\xe9"),
}
FILE = {".webext": "messages.json"}


def text(ext, ids, values):
    start, msg, sep, end, _ = FORMATS[ext]
    return start + j([msg.replace("§", i).replace("¶", v) for i, v in zip(ids, values)], sep) + end


def ids(x, name, n, alpha="abc"):
    out = [x.str(f"{name}{i}", 1, alpha) for i in range(n)]
    for i in range(n):
        for k in range(i):
            x.assume(out[i] != out[k])
    return out


def messages(res):
    return [(section.id + entry.id, entry) for section in res.sections for entry in section.entries if isinstance(entry, Entry)]


def first(item):
    return item[0]


def simple(id):
    return id[0] if len(id) == 1 else list(id)


def expected(x, source, l10n, fluent):
    """entries of the built file, and the ids which the localization lacks"""
    out, missing = [], []
    for id, entry in messages(source):
        found = None
        for id_, entry_ in messages(l10n) if l10n is not None else ():
            if x.eq(id, id_):
                found = entry_
                break
        props = None
        if found is not None and fluent and id[0][:1] != "-":
            # attributes of the source are all there, and no others
            if not x.all([x.any([x.eq(a, b) for b in found.properties]) for a in entry.properties]):
                found = None
            else:
                props = [(k, v) for k, v in found.properties.items() if x.any([x.eq(k, a) for a in entry.properties])]
        if found is None:
            missing.append(simple(id))
            if fluent:
                continue
            found = entry
        if props is None:
            props = list(found.properties.items())
        out.append((id, found.value, sorted(props, key=first)))
    return out, missing


def built(x, got, source, l10n, fluent):
    want, missing = expected(x, source, l10n, fluent)
    got_ = [(id, entry.value, sorted(entry.properties.items(), key=first)) for id, entry in messages(got)]
    x.obs("ids", [id for id, _, _ in got_])
    x.check_eq([id for id, _, _ in got_], [id for id, _, _ in want], "the messages of the source, in order")
    x.check_eq(got_, want, "each localized where it can be")
    x.check(got.comment == "" and all(s.comment == "" for s in got.sections), "no comments on files or sections")
    x.check(all(isinstance(e, Entry) and e.comment == "" for s in got.sections for e in s.entries), "no comments")
    x.check_eq(got.meta, (source if l10n is None else l10n).meta, "metadata of the file")
    for s in got.sections:
        orig = [t for r in (l10n, source) if r is not None for t in r.sections if x.eq(t.id, s.id)]
        x.check(bool(orig), "sections of the source")
        x.check_eq(s.meta, orig[0].meta, "metadata of the section")
    return missing


def one(x, ext, ns, nl, nv=1, exists=True, alpha=None):
    """One file"""
    name = FILE.get(ext, "a" + ext)
    sids, lids = ids(x, "s", ns), ids(x, "l", nl)
    svals = ["S" + str(i) for i in range(ns)]
    lvals = [x.str(f"v{i}", nv if i == 0 else 1, alpha or FORMATS[ext][4]) for i in range(nl)]
    if ext == ".po":
        # the id of a message is that of its source
        svals = ["" for i in range(ns)]
    src, loc = text(ext, sids, svals), text(ext, lids, lvals)
    if ext == ".xliff":
        src = src.replace("<target>v", "<target>").replace("</target>", "</target>")
        loc = loc.replace('source-language="en"', 'source-language="en" target-language="xx"')
    fs = x.fs([("d/" + name, src), ("out/x.txt", "x")])
    if exists:
        fs.add("l/" + name, loc)
    source = parse_resource(fs.path("d/" + name))
    l10n = parse_resource(fs.path("l/" + name)) if exists else None
    delta, total, missing = write_target_file("n", parse_resource(fs.path("d/" + name)), fs.path("l/" + name), fs.path("out/" + name))
    out = fs.read("out/" + name)
    x.check("ZZ" not in out, "no comments in the file")
    fluent = ext == ".ftl"
    if out == "" and fluent:
        got = parse_resource("a.ftl", b"")
        got.sections = []
        want, miss = expected(x, source, l10n, fluent)
        x.check(not want, "an empty file has no messages")
    else:
        miss = built(x, parse_resource(fs.path("out/" + name)), source, l10n, fluent)
    x.check(total == ns, "all messages are counted")
    x.check_eq(missing, miss, "exactly the messages that are not localized are reported")
    x.check(delta == (-len(miss) if fluent else len(miss)), "the messages that are not localized are counted")
    x.check_eq(fs.read("d/" + name), src, "the source is left alone")
    if exists:
        x.check_eq(fs.read("l/" + name), loc, "the localization is left alone")
    x.check_eq(fs.read("out/x.txt"), "x", "other files are left alone")


def attributes(x, na, nb, term, value=True, sel=False):
    """Attributes of Fluent messages are those of the source"""
    a, b = ids(x, "a", na), ids(x, "b", nb)
    pre = "-" if term else ""
    m = "m" + x.str("i", 1, "mn")
    src = pre + m + (" = S\n" if value or term else " =\n") + "".join(f"  .x{k} = T\n" for k in a) + "z = Z\n"
    loc = "## ZZ\n\ny = Y\n# ZZ\n" + pre + "mm = L { $x }\n" + "".join(f"  .x{k} = U{k}\n" for k in b)
    fs = x.fs([("s.ftl", src), ("l.ftl", loc), ("out", None)])
    source, l10n = parse_resource(fs.path("s.ftl")), parse_resource(fs.path("l.ftl"))
    delta, total, missing = write_target_file("n", parse_resource(fs.path("s.ftl")), fs.path("l.ftl"), fs.path("out/a.ftl"))
    miss = built(x, parse_resource(fs.path("out/a.ftl")), source, l10n, True)
    x.check(total == 2 and delta == -len(miss), "messages are counted")
    x.check_eq(missing, miss, "missing messages")
    x.check("ZZ" not in fs.read("out/a.ftl"), "no comments in the file")


def sections(x, ext, n):
    """Messages in sections"""
    s1, s2, l1, l2 = (x.str(k, 1, "st") for k in ("s1", "s2", "l1", "l2"))
    x.assume(s1 != s2)
    x.assume(l1 != l2)
    i1, i2, i3 = (x.str(k, 1, "ab") for k in ("i1", "i2", "i3"))
    if ext == ".ini":
        make = lambda s, t, p, q, r: f"; ZZ\n[{s}]\n{p} = v{r}\n; ZZ\n\n[{t}]\n; ZZ\n{q} = w{r}\n"
    elif ext == ".json":
        make = lambda s, t, p, q, r: '{"' + s + '": {"' + p + '": "v' + r + '"}, "' + t + '": {"x": {"' + q + '": "w' + r + '"}}}'
    elif ext == ".ftl":
        make = lambda s, t, p, q, r: f"## ZZ{s}\n\n{s}{p} = v{r}\n\n## ZZ\n\n# ZZ\n{t}{q} = w{r}\n"
    else:
        has = {"S": x.flag("gs"), "L": x.flag("gl")}
        f = lambda s, r: f'<file original="{s}" datatype="d{r}" source-language="en"><header><tool tool-id="h{r}"/></header><body><group id="g"' + f' resname="r{r}"' * has[r] + '><trans-unit id="'
        e = lambda q, r: f'{q}"><source>x</source><target>{q}{r}</target></trans-unit></group></body></file>'
        make = lambda s, t, p, q, r: '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">' + f(s, r) + e(p, r) + f(t, r) + e(q, r) + "</xliff>"
    src, loc = make(s1, s2, i1, i2, "S"), make(l1, l2, i3, i3, "L")
    fs = x.fs([("s" + ext, src), ("l" + ext, loc), ("out", None)])
    source, l10n = parse_resource(fs.path("s" + ext)), parse_resource(fs.path("l" + ext))
    delta, total, missing = write_target_file("n", parse_resource(fs.path("s" + ext)), fs.path("l" + ext), fs.path("out/a" + ext))
    miss = built(x, parse_resource(fs.path("out/a" + ext)), source, l10n, ext == ".ftl")
    x.check(total == 2 and abs(delta) == len(miss), "messages are counted")
    x.check_eq(missing, miss, "missing messages")
    x.check("ZZ" not in fs.read("out/a" + ext), "no comments in the file")


LOC = ["de", "he", "pt-BR"]
AND = {"de": "de", "he": "iw", "pt-BR": "pt-rBR"}


def tree(x, e1, e2, locs, top, own, coverage, nn, shape="plain", inplace=False, st=None):
    """All files of a configuration"""
    n = x.str("n", nn, "ab+ ")
    f1, f2, f3 = "e" + n + e1, "f" + e2, "g" + n + ".txt"
    id1, id2 = x.str("i", 1, "ab"), x.str("k", 1, "ab")
    src1, src2 = text(e1, [id1], ["S"]), text(e2, ["x", "y"], ["S", "T"])
    toml = ["basepath = '.'"] + ([f"locales = {top!r}"] if top is not None else [])
    L = {"plain": "{locale}/", "deep": "{locale}/x/", "android": "values-{android_locale}/"}[shape]
    for f in (f1, f2, f3):
        toml += ["[[paths]]", f"reference = 'en/{f}'", f"l10n = '{L}{f}'"]
        if own is not None and f is f2:
            toml.append(f"locales = {own!r}")
    fs = x.fs([("c/l10n.toml", "\n".join(toml) + "\n"), ("c/en/" + f1, src1), ("c/en/" + f2, src2), ("c/en/" + f3, "abc"), ("o/old.txt", "x"), ("l", None)])
    target = "l" if inplace else "o"
    exp = {}
    for k, lc in enumerate(locs):
        dir = L.replace("{locale}", lc).replace("{android_locale}", AND[lc])
        for q, f in enumerate((f1, f2, f3)):
            loc = st[k * 3 + q] if st else x.flag(f"st{k}{q}")
            if loc:
                fs.add("l/" + dir + f, "loc" if q == 2 else text(e1, [id2], ["L"]) if q == 0 else text(e2, ["y"], ["L"]))
            if q != 1 or own is None or lc in own:
                exp[dir + f] = (lc, q, "c/en/" + f, "l/" + dir + f if loc else None)
    want = {}
    for rel, (lc, q, s, l) in exp.items():
        if q == 2:
            want[rel] = fs.read(l or s)
        else:
            write_target_file("n", parse_resource(fs.path(s)), fs.path("l/" + rel), fs.path("tmp"))
            want[rel] = fs.read("tmp")
    before = {p: d for p, d in fs.tree("").items() if d is not None and p != "tmp"}
    counts = {}
    for rel, (lc, q, s, l) in exp.items():
        if q != 2:
            c = counts.setdefault(lc, [0, 0])
            fluent = (e1, e2)[q] == ".ftl"
            c[0 if fluent else 1] += len(expected(x, parse_resource(fs.path(s)), parse_resource(fs.path(l)) if l else None, fluent)[1])
    build_module.log = Log()
    del LOG[:]
    build.callback(verbose=1, config=fs.path("c/l10n.toml"), base=fs.path("l"), target=fs.path(target), locales=set(locs), coverage=coverage)
    lines = [line.strip() for text_ in LOG for line in text_.split("\n")]
    lines = lines[lines.index("----") + 1 :]
    want_lines = []
    for lc in sorted(counts):
        want_lines += [f"{lc}:", ["ftl_missing", str(counts[lc][0])], ["src_fallback", str(counts[lc][1])]]
    x.check_eq([line if line[-1:] == ":" else line.split() for line in lines], want_lines, "the messages missing in each locale are counted")
    after = {p: d for p, d in fs.tree("").items() if d is not None and p != "tmp"}
    cov = {}
    for lc in locs:
        if coverage:
            p = target + "/" + lc + "/coverage.json"
            x.check(p in after, "a coverage file for each locale")
            cov[lc] = json.loads(after[p])
            del after[p]
    for rel, out in want.items():
        x.check_eq(after[target + "/" + rel], out, "each configured file is built")
        before[target + "/" + rel] = out
    x.obs("n", len(after))
    x.check_eq(sorted(after), sorted(before), "no other files are made")
    for p in before:
        x.check_eq(after[p], before[p], "other files are left alone")
    if coverage:
        for lc in locs:
            files = [(("../" if shape == "android" else "") + r[len(lc) + 1 :] if shape != "android" else "../" + r, v) for r, v in exp.items() if v[0] == lc and v[1] != 2]
            x.check_eq(sorted(cov[lc]), sorted(r for r, _ in files), "coverage of each file")
            for r, (_, q, s, l) in files:
                x.check(cov[lc][r]["total"] == 1 + q, "coverage counts the messages of the source")
                res = parse_resource(fs.path(s))
                if not inplace:
                    x.check_eq(cov[lc][r]["missing"], expected(x, res, parse_resource(fs.path(l)) if l else None, e1 == ".ftl" and q == 0)[1], "coverage has the missing messages")


def single(x, ext, l10n, covers, target, n=1, inplace=False):
    """One file by itself"""
    f = "e" + x.str("n", n, "ab+ ") + ext
    i, k = x.str("i", 1, "ab"), x.str("k", 1, "ab")
    if ext == ".txt":
        src, loc = "abc" + i, "def" + k
    else:
        src, loc = text(ext, [i, "c"], ["S", "T"]), text(ext, [k], ["L"])
    fs = x.fs([("s/" + f, src), ("l", None), ("o/x.txt", "x")])
    if l10n == "there":
        fs.add("l/" + f, loc)
    old = {"z.ftl": {"total": 3, "missing": ["q"]}, f: {"total": 9, "missing": []}}
    if covers == "old":
        fs.add("o/coverage.json", json.dumps(old))
    out = {"new": "o/p/" + f, "there": "o/" + f, "bare": f}[target]
    if target == "there":
        fs.add(out, "old contents" * 30)
    want = None
    if ext == ".txt":
        want = loc if l10n == "there" else src
    elif l10n != "none":
        write_target_file("n", parse_resource(fs.path("s/" + f)), fs.path("l/" + f), fs.path("tmp"))
        want = fs.read("tmp")
    before = {p: d for p, d in fs.tree("").items() if d is not None and p != "tmp"}
    cwd = target == "bare"
    build_file.callback(
        verbose=0,
        source=fs.path("s/" + f),
        target=out if cwd else fs.path(out),
        l10n=None if l10n == "none" else fs.path("l/" + f),
        coverage_base=fs.path("o") if covers != "none" else None,
    )
    after = {p: d for p, d in fs.tree("").items() if d is not None and p != "tmp"}
    if want is None:
        got = parse_resource(fs.path(out))
        x.check_eq([(id, e.value) for id, e in messages(got)], [(id, e.value) for id, e in messages(parse_resource(fs.path("s/" + f)))], "the messages of the source")
        x.check("ZZ" not in after[out], "no comments")
    else:
        x.check_eq(after[out], want, "the file is built")
    if covers != "none":
        cov = json.loads(after["o/coverage.json"])
        key = out[2:] if target != "bare" else "../" + f
        total, missing = 0, []
        if ext != ".txt":
            res = parse_resource(fs.path("s/" + f))
            total = 2
            if l10n != "none":
                missing = expected(x, res, parse_resource(fs.path("l/" + f)) if l10n == "there" else None, ext == ".ftl")[1]
        exp = {key: {"total": total, "missing": missing}}
        for o, v in old.items() if covers == "old" else ():
            if o != key:
                exp[o] = v
        x.check_eq(cov, exp, "coverage of this file and what was there before")
        before["o/coverage.json"] = after["o/coverage.json"]
    before[out] = after[out]
    x.obs("n", len(after))
    x.check_eq(sorted(after), sorted(before), "no other files are made")
    for p in before:
        x.check_eq(after[p], before[p], "other files are left alone")


def broken(x, ext, where, n=1):
    """Files that are not understood stop the build, and their targets are as before"""
    s = x.str("s", n, "ab {<")
    bad = {".ftl": "a = {" + s, ".dtd": "<!ENTITY" + s, ".xml": "<resources><string" + s, ".ini": "x" + s, ".po": 'x"' + s}[ext]
    good = text(ext, ["a"], ["S"])
    fs = x.fs([("s/a" + ext, bad if where == "source" else good), ("l/a" + ext, good if where == "source" else bad), ("o/a" + ext, "old")])
    before = fs.tree("")
    failed = False
    try:
        build_file.callback(verbose=0, source=fs.path("s/a" + ext), target=fs.path("o/a" + ext), l10n=fs.path("l/a" + ext), coverage_base=fs.path("o"))
    except (Exception, SystemExit):
        failed = True
    x.check(failed, "the build fails")
    x.check_eq(fs.tree(""), before, "nothing is written")


def locales(x, n, src="S"):
    """Lists of locales"""
    s = src.replace("S", x.str("s", n, "ab-, \"'"))
    got = _locales_settify(None, None, s)
    t = s
    while t and t[0] in "\"'":
        t = t[1:]
    while t and t[-1] in "\"'":
        t = t[:-1]
    want, item = [], ""
    for c in t + ",":
        if c != ",":
            item += c
            continue
        while item[:1] == " ":
            item = item[1:]
        while item[-1:] == " ":
            item = item[:-1]
        if item != "" and item not in want:
            want.append(item)
        item = ""
    x.check_eq(sorted(got), sorted(want), "the locales of the list")


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda case, fn, **params: out.append(dict(name=case, fn=fn, params=params))
    for ext in FORMATS:
        add(f"absent{ext}", "one", ext=ext, ns=2 + t, nl=0, exists=False)
        for ns in range(0, 3 + t):
            for nl in range(0, 3 + t):
                add(f"one{ext}-{ns}-{nl}", "one", ext=ext, ns=ns, nl=nl)
        for nv in range(0, 3 + t):
            add(f"value{ext}-{nv}", "one", ext=ext, ns=1, nl=1, nv=nv)
    for na in range(0, 3):
        for nb in range(0, 3 + t):
            for term in (False, True):
                for value in (False, True) if na and not term else (True,):
                    add(f"attributes-{na}-{nb}-{term}-{value}", "attributes", na=na, nb=nb, term=term, value=value)
    for ext in (".ini", ".json", ".ftl", ".xliff"):
        add(f"sections{ext}", "sections", ext=ext, n=1)
    for shape in ("plain", "deep", "android"):
        for e1, e2 in ((".ftl", ".properties"), (".ini", ".xml"), (".xliff", ".po")):
            for top, own in ((None, None), (["de"], ["he", "fr"])):
                add(f"tree-{shape}{e1}-{own is None}", "tree", e1=e1, e2=e2, locs=["de", "he"], top=top, own=own, coverage=True, nn=0, shape=shape)
            add(f"tree-{shape}{e1}-names", "tree", e1=e1, e2=e2, locs=LOC, top=None, own=["de", "pt-BR"], coverage=False, nn=1, shape=shape, st=[1, 0, 1, 0, 1, 0, 1, 1, 1])
            add(f"tree-{shape}{e1}-inplace", "tree", e1=e1, e2=e2, locs=LOC[:2], top=None, own=None, coverage=True, nn=1, shape=shape, st=[1, 0, 1, 0, 1, 0], inplace=True)
    for ext in (".ftl", ".properties", ".xliff", ".txt"):
        for l10n in ("none", "there", "absent"):
            for covers in ("none", "new", "old"):
                for target in ("new", "there"):
                    add(f"single{ext}-{l10n}-{covers}-{target}", "single", ext=ext, l10n=l10n, covers=covers, target=target)
            add(f"single{ext}-{l10n}-bare", "single", ext=ext, l10n=l10n, covers="none", target="bare")
    for ext in (".ftl", ".dtd", ".xml", ".ini", ".po"):
        for where in ("source", "l10n"):
            for n in range(0, 3):
                add(f"broken{ext}-{where}-{n}", "broken", ext=ext, where=where, n=n)
    for n in range(0, 5 + t):
        add(f"locales-{n}", "locales", n=n)
    add("locales-two", "locales", n=2 + t, src="deS,frS")
    return out
