"""Comparison reports every missing message and nothing else."""
import json

import click

OUT = []


def echo(message="", **kw):
    OUT.append(message)


click.echo = echo
click.style = lambda text, **kw: text

from moz.l10n.bin.compare import _ext_settify, cli  # noqa: E402

BOUNDS = (
    "sources given as JSON, as a configuration (5 shapes of targets, with and without locales) and by discovery; 2 files in up to 3 locales, each absent, malformed, of no format, empty, or with up to 2 (thorough: 3) messages with a symbolic character in each id, of all ten formats and with ids of up to 3 parts; "
    "extension filters of up to 4 (thorough: 6) symbolic characters; JSON and plain output of each verbosity"
)
ASSUMPTIONS = [
    "reference files exist and parse, no two have the same target",
    "the compared directories are in one directory and named by their locales",
    "parts of ids do not have dots (those of sections and entries are joined by dots in the report)",
    "a message is there if its id is there, whatever its value",
]

E_ = "\n"


def ini(ids):
    out = ""
    for s, k in ids:
        out += "[" + s + "]\n" + k + "=v\n"
    return out


def po(ids):
    return 'msgid ""\nmsgstr ""\n' + "".join('\nmsgid "' + i + '"\nmsgstr "v"\n' for i in ids)


X = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" datatype="x" source-language="en"><body>'
FORMATS = {
    # extension: (source of messages, prefix of ids)
    ".ftl": (lambda ids: "".join("m" + i + " = v\n" for i in ids), "m"),
    ".properties": (lambda ids: "".join("m" + i + " = v\n" for i in ids), "m"),
    ".dtd": (lambda ids: "".join("<!ENTITY m" + i + ' "v">\n' for i in ids), "m"),
    ".inc": (lambda ids: "".join("#define m" + i + " v\n" for i in ids), "m"),
    ".ini": (lambda ids: "[s]\n" + "".join("m" + i + " = v\n" for i in ids), "s.m"),
    ".json": (lambda ids: "{" + ",".join('"m' + i + '": "v"' for i in ids) + "}", "m"),
    ".po": (lambda ids: po(["m" + i for i in ids]), "m"),
    ".xml": (lambda ids: "<resources>" + "".join('<string name="m' + i + '">v</string>' for i in ids) + "</resources>", "m"),
    ".xliff": (lambda ids: X + "".join('<trans-unit id="m' + i + '"><source>v</source></trans-unit>' for i in ids) + "</body></file></xliff>", "f.m"),
    # ids of several parts
    ".c.po": (lambda ids: 'msgid ""\nmsgstr ""\n' + "".join('\nmsgctxt "m' + i + '"\nmsgid "s"\nmsgstr "v"\n' for i in ids), "s.m"),
    ".a.xml": (lambda ids: "<resources>" + "".join('<string-array name="m' + i + '"><item>v</item></string-array>' for i in ids) + "</resources>", "m", ".0"),
    ".g.xliff": (lambda ids: X + '<group id="g">' + "".join('<trans-unit id="m' + i + '"><source>v</source></trans-unit>' for i in ids) + "</group></body></file></xliff>", "f.g.m"),
}
FORMATS = {ext: (*f, "")[:3] for ext, f in FORMATS.items()}
BAD = {".ftl": "a = {", ".properties": b"a=\xff", ".dtd": "<!ENTITY", ".inc": "x y", ".ini": "x", ".json": "{", ".po": 'x"', ".xml": "<resources><string", ".xliff": X}


def run(args, **kw):
    """the report, by calling the command without its argument parser"""
    del OUT[:]
    kw = {"verbose": 0, "ext": (set(), set()), **kw}
    cli.callback(paths=tuple(args), **kw)
    return list(OUT)


def target(x, name, ext, n, status):
    """contents of a localized file, and its ids"""
    src, pre, suf = FORMATS[ext]
    if status == "absent":
        return None, []
    if status == "bad":
        return BAD[ext[ext.rindex('.'):]], None
    if status == "empty":
        return src([]), []
    ids = [x.str(f"{name}{i}", 1, "abc") for i in range(n)]
    for i in range(n):
        for j in range(i):
            x.assume(ids[i] != ids[j])
    return src(ids), [pre + i + suf for i in ids]


def reported(x, rep, errors, missing, ref, ids, where):
    """one file of a report: rep is the reported missing ids or None"""
    if ids is None:
        x.check(errors is not None and where in errors, "a file that is not understood is reported")
        x.check(rep is None, "a file that is not understood has no missing messages")
        return 0
    x.check(errors is None or where not in errors, "a file that is understood is no error")
    want = [r for r in ref if not x.any([x.eq(r, i) for i in ids])]
    x.obs("want", want)
    if not want:
        x.check(rep is None, "no missing messages")
    else:
        x.check(rep is not None, "missing messages")
        x.check_eq(sorted(rep), sorted(want), "exactly the messages that are missing")
    return len(want)


SHAPES = {
    # reference, target for a locale
    "json": ("en/S", "S"),
    "discover": ("en/S", "S"),
    "config": ("en/S", "S"),
    "deep": ("en/S", "x/S"),
    "name": ("en/S", "S-L"),
    "android": ("en/S", "../values-A/S"),
}
L10N = {"config": "{locale}/", "deep": "{locale}/x/", "name": "{locale}/", "android": "values-{android_locale}/"}
ANDROID = {"de": "de", "he": "iw", "pt-BR": "pt-rBR"}


def several(x, how, ext, ext2, locs, nr, nt, nn=0, st=None, restrict=False, output="json", bare=False):
    """Files in several locales (bare: also one without messages in the source)"""
    n = x.str("n", nn, "ab+ ")
    f1, f2 = "e" + n, "f"
    src1, pre1, suf1 = FORMATS[ext]
    src2, pre2, suf2 = FORMATS[ext2]
    ids1 = [x.str(f"r{i}", 1, "abc") for i in range(nr)]
    for i in range(nr):
        for j in range(i):
            x.assume(ids1[i] != ids1[j])
    ref1, ref2 = [pre1 + i + suf1 for i in ids1], [pre2 + "x" + suf2]
    fs = x.fs([])
    names = []
    for f, e in ((f1, ext), (f2, ext2)):
        names.append((f, e))
    if how == "json":
        source = "source.json"
        data = {f1 + ext: ref1, f2 + ext2: ref2}
        if bare:
            data = [{"g" + ext: [], **data}, {f1 + ext: ref1, "g" + ext: [], f2 + ext2: ref2}, {**data, "g" + ext: []}][x.choice("at", 3)]
        fs.add(source, json.dumps(data))
    else:
        fs.add("en/" + f1 + ext, src1(ids1))
        fs.add("en/" + f2 + ext2, src2(["x"]))
        if bare:
            fs.add("en/g" + ext, src1([]))
            names.append(("g", ext))
        source = "en" if how == "discover" else "l10n.toml"
        if how != "discover":
            suffix = "-{locale}" if how == "name" else ""
            toml = ["basepath = '.'"]
            if restrict:
                toml.append("locales = ['de', 'he']")
            at = x.choice("at", 3) if bare else 2
            for f, e in names[:at] + names[2:] + names[at:2]:
                toml += ["[[paths]]", "reference = 'en/" + f + e + "'", "l10n = '" + L10N[how] + f + suffix + e + "'"]
                if restrict and f == "f":
                    toml.append("locales = ['he', 'pt-BR']")
            fs.add(source, "\n".join(toml) + "\n")
    exp = {}
    for k, lc in enumerate(locs):
        fs.add("l/" + lc, None)
        res = []
        for j, (f, e) in enumerate(names[:2]):
            status = st[2 * k + j] if st else x.choice(f"st{k}{j}", ["absent", "bad", "empty", "ids"])
            rel = f + e
            if how == "name":
                rel = f + "-" + lc + e
            elif how == "deep":
                rel = "x/" + rel
            elif how == "android":
                rel = "../values-" + ANDROID[lc] + "/" + rel
            text, ids = target(x, f"t{k}{j}", e, nt if j == 0 else 1, status)
            if text is not None:
                fs.add("l/values-" + ANDROID[lc] + "/" + f + e if how == "android" else "l/" + lc + "/" + rel, text)
            if not restrict or j == 0 or lc != "de":
                res.append((rel, ref1 if j == 0 else ref2, ids))
        if bare:
            text = target(x, "b", ext, 1, bare)[0]
            rel = "g" + ("-" + lc if how == "name" else "") + ext
            if text is not None:
                fs.add("l/values-" + ANDROID[lc] + "/" + rel if how == "android" else "l/" + lc + "/" + "x/" * (how == "deep") + rel, text)
        exp[lc] = res
    args = [fs.path("l/" + lc) for lc in locs]
    total = len(ref1) + len(ref2)
    if output == "json":
        out = run(args, source=fs.path(source), json_output=True)
        x.check(len(out) == 1, "one JSON object")
        rep = json.loads(out[0])
        x.check_eq(sorted(rep), sorted(locs), "a report for each locale")
        for lc, res in exp.items():
            errors, missing = rep[lc]["errors"], rep[lc]["missing"]
            for rel, ref, ids in res:
                reported(x, (missing or {}).get(rel), errors, missing, ref, ids, rel)
            rels = [rel for rel, _, _ in res]
            x.check(all(r in rels for r in missing or {}) and all(r in rels for r in errors or {}), "no other files")
    else:
        out = run(args, source=fs.path(source), verbose=int(output))
        want = [f"source: {total}"]
        lines = []
        for lc, res in exp.items():
            miss = [(rel, [r for r in ref if not x.any([x.eq(r, i) for i in ids])]) for rel, ref, ids in res if ids is not None]
            miss = [(rel, m) for rel, m in miss if m]
            want.append(f"{lc}: {-sum(len(m) for _, m in miss)}")
            want += ["  !!! " + rel for rel, ref, ids in res if ids is None]
            if output != "0":
                # files which are absent or lack messages, in any order
                for rel, m in miss:
                    lines.append(f"  {rel}: {-len(m)}")
                    if output == "2":
                        lines += ["    " + i for i in m]
        got = [o[: o.index(": ")] if o[:5] == "  !!!" else o for o in out]
        x.check_eq(sorted(got), sorted(want + lines), "the report has exactly the missing messages")
    x.check(not fs.written(), "nothing is written")


def ext_rules(text):
    """independent reading of --ext"""
    inc, exc = [], []
    while text and text[0] in "\"'":
        text = text[1:]
    while text and text[-1] in "\"'":
        text = text[:-1]
    item = ""
    for c in text + ",":
        if c != ",":
            item += c
            continue
        while item[:1] == " ":
            item = item[1:]
        while item[-1:] == " ":
            item = item[:-1]
        to = inc
        if item[:1] == "!":
            to = exc
            item = item[1:]
        if item != "":
            to.append(item if item[0] == "." else "." + item)
        item = ""
    return inc, exc


def filters(x, n, text="S", how="json"):
    """Files are those with the extensions asked for"""
    s = text.replace("S", x.str("s", n, "!,.fi \"'"))
    inc, exc = ext_rules(s)
    got = _ext_settify(None, None, s)
    x.check_eq(sorted(got[0]), sorted(set(inc)), "included extensions")
    x.check_eq(sorted(got[1]), sorted(set(exc)), "excluded extensions")
    files = ["a.ftl", "b.f", "c.i", "d.ini", "e.f.i", "f"]
    fs = x.fs([("s.json", json.dumps({f: ["x", "y"] for f in files})), ("de", None)])
    want = [f for f in files if (not inc or x.any([f.endswith(e) for e in inc])) and not x.any([f.endswith(e) for e in exc])]
    x.obs("want", want)
    try:
        out = run([fs.path("de")], source=fs.path("s.json"), ext=got)
    except ValueError:
        x.check(not want, "no files")
        return
    x.check(bool(want), "some files")
    x.check_eq(out, [f"source: {2 * len(want)}", f"de: {-2 * len(want)}"], "the files are counted")


def skipped(x, how, at):
    """Source files of no format and those left out by extension do not keep others from being compared"""
    k = x.choice("k", ["a", "b", "c"])
    files = [["m.ftl"], ["c.ftl"], ["x.dtd"]]
    odd = x.choice("odd", ["txt", "png", "ini", "properties"])
    files.insert(at, ["d/o." + odd])
    files = [f for f, in files]
    fs = x.fs([("de/m.ftl", f"{k} = v\n")])
    body = {"m.ftl": "a = v\nb = v\n", "c.ftl": "c = v\n", "x.dtd": '<!ENTITY e "v">\n', "d/o.ini": "[s]\nk = v\n", "d/o.properties": "k = v\n"}
    toml = "basepath = '.'\n"
    for f in files:
        fs.add("en/" + f, body.get(f, "not a resource"))
        toml += f"[[paths]]\nreference = 'en/{f}'\nl10n = '{{locale}}/{f}'\n"
    if how == "config":
        fs.add("l10n.toml", toml)
    inc, exc = x.choice("ext", [((), ()), ((), (".ini",)), ((".ftl", ".txt"), ()), ((".properties",), (".ftl",))])
    want = {}
    for f in files:
        if f in body and (not inc or f[f.rindex("."):] in inc) and f[f.rindex("."):] not in exc:
            ids = {"m.ftl": ["a", "b"], "c.ftl": ["c"], "x.dtd": ["e"], "d/o.ini": ["s.k"], "d/o.properties": ["k"]}[f]
            ids = [i for i in ids if f != "m.ftl" or i != k]
            if ids:
                want[f] = ids
    args = [fs.path("de")]
    source = fs.path("l10n.toml" if how == "config" else "en")
    total = sum(len(v) for v in want.values()) + (1 if k in "ab" and "m.ftl" in want else 0)
    try:
        rep = json.loads(run(args, source=source, json_output=True, ext=(set(inc), set(exc)))[0])
    except ValueError:
        x.check(total == 0, "no messages")
        return
    x.check(total > 0, "some messages")
    x.check_eq({f: sorted(m) for f, m in (rep["de"]["missing"] or {}).items()}, want, "all missing messages of files that are compared")
    x.check(not rep["de"]["errors"], "no errors")


def paths(x, n):
    """Paths that are no directories are left out"""
    s = x.str("s", n, "ab/. ")
    fs = x.fs([("s.json", '{"a.ftl": ["x"]}'), ("de/a.ftl", "x=y"), ("fr", None), ("a", "")])
    p = fs.path(s)
    x.assume(".." not in s.split("/"))
    isdir = x.all([c in ("", ".") for c in s.split("/")])
    out = json.loads(run([fs.path("de"), p, fs.path("fr/")], source=fs.path("s.json"), json_output=True)[0])
    x.obs("n", len(out))
    x.check(len(out) == (3 if isdir else 2), "a report for each directory")
    x.check_eq(out["de"], {"errors": None, "missing": None}, "nothing missing")
    x.check_eq(out["fr"], {"errors": None, "missing": {"a.ftl": ["x"]}}, "everything missing")


def x_(st):
    return {"absent": "json", "bad": "1", "empty": "2"}[st]


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda case, fn, **params: out.append(dict(name=case, fn=fn, params=params))
    for how in SHAPES:
        for restrict in (False, True) if how in L10N else (False,):
            add(f"{how}-statuses-{restrict}", "several", how=how, ext=".ftl", ext2=".properties", locs=["he", "de"], nr=1, nt=1, restrict=restrict)
            add(f"{how}-three-{restrict}", "several", how=how, ext=".ini", ext2=".ftl", locs=["pt-BR", "de", "he"], nr=1, nt=1, restrict=restrict, st=["ids", "ids", "ids", "absent", "absent", "ids"], nn=1)
        for output in "012":
            add(f"{how}-output-{output}", "several", how=how, ext=".ftl", ext2=".properties", locs=["he", "de"], nr=2, nt=1, output=output, st=["ids", "absent", "empty", "bad"], nn=1)
    for ext in FORMATS:
        for how in ("json", "config", "discover"):
            if how == "discover" and ext in (".json", ".xml"):
                pass
            add(f"{how}{ext}", "several", how=how, ext=ext, ext2=".properties" if ext != ".properties" else ".ftl", locs=["de"], nr=2, nt=2 + t, st=["ids", "ids"])
            for st in ("absent", "bad", "empty"):
                add(f"{how}{ext}-{st}", "several", how=how, ext=ext, ext2=".properties" if ext != ".properties" else ".ftl", locs=["de", "he"], nr=2, nt=1, st=[st, "ids", "ids", st])
                if ext in (".ftl", ".ini", ".po", ".a.xml", ".json"):
                    add(f"{how}{ext}-bare-{st}", "several", how=how, ext=ext, ext2=".properties", locs=["de"], nr=1, nt=1, st=["ids", st], bare=st, output=x_(st))
    for n in range(0, 5 + t):
        add(f"filter-{n}", "filters", n=n)
    for text in ("ftlS", "!ftlS", "ftl,Sf", ".f,!S", "S.f.i", " iniS "):
        add(f"filter-{text}", "filters", n=2 + t, text=text)
    for how in ("config", "discover"):
        for at in range(4):
            add(f"skipped-{how}-{at}", "skipped", how=how, at=at)
    for n in range(0, 3 + t):
        add(f"paths-{n}", "paths", n=n)
    return out
