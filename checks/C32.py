"""Fix and lint leave good files alone and bad files untouched."""
import moz.l10n.bin.fix as fix_module
import moz.l10n.bin.lint as lint_module
from moz.l10n.bin.fix import fix
from moz.l10n.bin.lint import lint
from moz.l10n.resource import parse_resource, serialize_resource

BOUNDS = (
    "one file of each of 10 kinds with up to 3 (thorough: 4) free characters at one of 2-4 places of a template; up to 3 (thorough: 4) files, each good, unformatted, malformed, of no format, not UTF-8, or failing to serialize, "
    "in a directory, by names, by patterns and by a configuration; symbolic names of up to 2 characters; with and without --continue and --skip-unknown"
)
ASSUMPTIONS = [
    "files are as before or as written: no crash within a write, and no error from reading or writing",
    "a file that is not UTF-8 is the bytes E9 0A",
]

FILES = {
    # name: (templates, alphabet of free characters)
    "a.properties": (["S", "a=S\nb = c", "# S\na = b\n", "aS=b\n\n\nc:d"], "scalar"),
    "a.dtd": (["S", '<!ENTITY a "S">', "<!-- S -->\n<!ENTITY  a 'b'>", '<!ENTITY a "b">S<!ENTITY c "d">'], "scalar"),
    "a.inc": (["S", "#define a S\n", "# S\n\n#define a b", "#define a b\nS\n#define c d"], "scalar"),
    "a.ini": (["[s]\nS", "[s]\na=S\nb = c", "[s]\n# S\na=b", "[S]\na : b\n"], "print"),
    "a.ftl": (["a = S", "a =\n  b S\n  c", "# S\na = b", "S = b\n\n\nc=d"], "abA \n{}\"$.-"),
    "a.json": (['{"a": "S"}', '{"S": {"b": "c"}}', '{"a": "b"S}', "S"], "ab\\\"{} \n,n"),
    "m.json": (['{"a": {"message": "S"}}', '{"a": {"message":"b","description": "S"}} // x\n', '// S\n{"a": {"message": "$p$", "placeholders": {"p": {"content": "S"}}}}'], "ab\\\"$1 \n"),
    "a.po": (['msgid ""\nmsgstr ""\n"Language: x\\n"\n\nmsgid "aS"\nmsgstr "b"\n', 'msgid "a"\nmsgstr "S"', '# S\nmsgid "a"\nmsgstr "b"\n', 'msgid "a"\nmsgstr "b"\n\n#~ msgid "S"\n#~ msgstr ""\n'], "ab\\\"n \t#~"),
    "a.xml": (['<resources><string name="a">S</string></resources>', '<resources>\n  <!-- S -->\n<string  name="a">b</string></resources>', '<resources><string name="S">b</string><plurals name="c"><item quantity="other">d</item></plurals></resources>'], "ab\\'@ &;%1"),
    "a.xliff": (
        [
            '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" datatype="x" source-language="en"><body><trans-unit id="a"><source>S</source></trans-unit></body></file></xliff>',
            '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" datatype="x" source-language="en"><body><trans-unit id="a"><source>b</source><target>S</target><note>S</note></trans-unit></body></file></xliff>',
        ],
        "ab &;<>",
    ),
}


LOG = []


class Log:
    """records the report"""

    def info(self, text, *args):
        LOG.append(text)

    warning = error = exception = debug = info


fix_module.log = lint_module.log = Log()


def report(files, words):
    """for each file, the word that is reported for it, and the last lines"""
    lines = [line for text in LOG for line in text.split("\n")]
    out = []
    for p, _ in files:
        name = p[p.rindex("/") + 1 :]
        got = []
        for line in lines:
            for w in words:
                if line.startswith(w) and (line.endswith(name) or name + " - " in line):
                    got.append(w)
        out.append(got)
    return out, [line for line in lines if line[:7] in ("Skipped", "Found n") or line[:6] == "Fixed " and line[-5:] in ("files", " file") or line[:4] == "With"]


def outcome(path, data):
    """contents after fixing, or None if they cannot be parsed or written"""
    try:
        res = parse_resource(path, data)
        text = "".join(serialize_resource(res))
        text.encode("utf-8")
        return text
    except Exception:
        return None


def one(x, name, i, n, alpha=None):
    """One file, twice"""
    text, al = FILES[name][0][i], FILES[name][1]
    src = text.replace("S", x.str("s", n, alpha or al))
    x.assume(src[:1] != "\ufeff")
    fs = x.fs([("d/" + name, src), ("d/other.txt", "x"), ("other.ftl", "a=b")])
    path = fs.path("d/" + name)
    want = outcome(path, src.encode("utf-8"))
    lrc = lint([path])
    x.check(not fs.written(), "linting writes nothing")
    x.check_eq(fs.read("d/" + name), src, "linting leaves the file alone")
    rc = fix([path])
    got = fs.read("d/" + name)
    x.obs("rc", [lrc, rc])
    if want is None:
        x.check_eq(got, src, "a file that is not understood is left alone")
    else:
        x.check(rc == 0 and lrc == 0, "a file that is understood is fine")
        x.check_eq(got, want, "the contents are those of the parsed resource")
        rc = fix([path])
        x.check(rc == 0, "a fixed file is fine")
        x.check_eq(fs.read("d/" + name), got, "fixing again changes nothing")
        x.check(lint([path]) == 0, "a fixed file passes")
    x.check_eq(fs.read("d/other.txt"), "x", "other files are left alone")
    x.check_eq(fs.read("other.ftl"), "a=b", "other files are left alone")
    x.check(sum(1 for v in fs.tree("").values() if v is not None) == 3, "no other files are made")


KINDS = {
    # kind: (extension, contents, after fix, parses, supported)
    "good": (".ftl", "a = b\n", "a = b\n", "ok"),
    "unformatted": (".properties", "a=b", "a = b\n", "ok"),
    "malformed": (".ftl", "a = {", None, "fail"),
    "json": (".json", '{"a": 1}', None, "unsupported"),
    "unknown": (".txt", "abc", None, "unsupported"),
    "bytes": (".dtd", b"\xe9\n", None, "unsupported"),
    # parsed, but refused by the serializer
    "refused": (".xml", '<resources><string name="a">b</string><string name="c d">e</string></resources>', None, "refused"),
    "surrogate": (".json", '{"a":"b","c":"\\ud800"}', None, "refused"),
    "xml": (".xml", "<resources><string", None, "fail"),
    "empty": (".ini", "", "", "ok"),
}


def several(x, kinds, how, cont, skip, nn, order=0):
    """Several files, each with its outcome"""
    n = x.str("n", nn, "ab+ \xe9") if nn else ""
    ks = [x.choice(f"k{i}", list(KINDS)) if k is None else k for i, k in enumerate(kinds)]
    files = []
    for i, k in enumerate(ks):
        files.append((f"d/{'xyzw'[i]}{n}" + KINDS[k][0], KINDS[k][1]))
    extra = [("l10n.toml", "[[paths]]\nreference = 'd/*'\nl10n = '{locale}/*'\n")] if how == "config" else []
    fs = x.fs([*extra, *files])
    paths = [fs.path(p) for p, _ in files]
    cfg = None
    if how == "dir":
        arg = [fs.path("d")]
    elif how == "glob":
        arg = [fs.path("d/*")]
    elif how == "deep":
        arg = [fs.path("**/*")]
    elif how == "config":
        arg = []
        cfg = fs.path("l10n.toml")
    else:
        arg = paths
    del LOG[:]
    rc = lint(arg, config_path=cfg, skip_unknown=skip)
    said, last = report(files, ["ok ", "unsupported ", "FAIL ", "skip "])
    x.check(not fs.written(), "linting writes nothing")
    if how == "dir" and all(k == "unknown" for k in ks):
        ks = []  # a directory without localization files
    bad = [k for k in ks if KINDS[k][3] in ("fail", "unsupported") and not (skip and KINDS[k][0] == ".txt")]
    x.obs("lint", rc)
    x.check(rc == (1 if bad else 0), "linting fails if and only if a file is not understood")
    words = {"ok": "ok ", "refused": "ok ", "unsupported": "unsupported ", "fail": "FAIL "}
    x.check_eq(said, [["skip "] if skip and KINDS[k][0] == ".txt" else [words[KINDS[k][3]]] for k in ks] if ks else [[] for f in files], "each file is reported")
    x.check_eq(last, [] if [k for k in ks if not (skip and KINDS[k][0] == ".txt")] else ["Found no localization resources"], "files are found")
    del LOG[:]
    rc = fix(arg, cfg, cont)
    x.obs("fix", rc)
    said, last = report(files, ["OK: ", "Fixed: ", "Skip: ", "FAIL: "])
    stopped = False
    failed = False
    want = []
    for (p, src), k in zip(files, ks):
        data, after, res = KINDS[k][1:]
        got = fs.read(p)
        if after is None or stopped:
            x.check_eq(got, data, "a file that is not fixed is left alone")
        else:
            x.check_eq(got, after, "a file that is understood is fixed")
        if not stopped:
            res = KINDS[k][3]
            want.append("Skip: " if res == "unsupported" else "FAIL: " if res != "ok" else "OK: " if data == after else "Fixed: ")
        if not stopped and KINDS[k][3] in ("fail", "refused"):
            failed = True
            if not cont:
                stopped = True
    x.check(rc == (1 if failed else 0), "fixing fails if and only if a file fails")
    x.check_eq(said, [[w] for w in want] + [[] for f in files[len(want) :]], "each file that was looked at is reported")
    count = lambda w: len([v for v in want if v == w])
    s = lambda n: "" if n == 1 else "s"
    skipped, fixed, fails = count("Skip: "), count("Fixed: "), count("FAIL: ")
    touched = len(want) - skipped
    lines = [f"Skipped {skipped} unsupported file{s(skipped)}"] if skipped else []
    lines.append(f"Fixed {fixed}/{touched} file{s(touched)}" if touched else "Found no localization resources")
    if fails:
        lines.append(f"With {fails} parse failure{s(fails)}")
    x.check_eq(last, lines, "they are counted")
    before = [fs.read(p) for p, _ in files]
    fix(arg, cfg, cont)
    x.check_eq([fs.read(p) for p, _ in files], before, "fixing again changes nothing")


def arguments(x, kind, n):
    """Wrong arguments, and nothing to do"""
    s = x.str("s", n, "ab*")
    fs = x.fs([("l10n.toml", "[[paths]]\nreference = 'd/a.properties'\nl10n = '{locale}/*'\n" if kind == "missing" else ""), ("d/a.properties", "a=b")])
    cfg = fs.path("l10n.toml")
    if kind == "both":
        x.check(fix([fs.path("d/" + s)], cfg) == 2 and lint([fs.path("d/" + s)], config_path=cfg) == 2, "a configuration and paths")
    elif kind == "neither":
        x.check(fix([]) == 2 and lint([]) == 2, "neither a configuration nor paths")
    elif kind == "none":
        x.check(fix([fs.path("e/" + s)]) == 0 and lint([fs.path("e/" + s)]) == 0, "no files")
    else:
        x.check(fix([], cfg) == 0 and lint([], config_path=cfg) == 0, "an empty configuration")
    x.check(not fs.written(), "nothing is written")


def directories(x, rel, nn):
    """Patterns match files in directories, and not these"""
    n = x.str("n", nn, "ab. ")
    x.assume(n[:1] != ".")
    fs = x.fs([("d/z" + n + ".properties", "a=b"), ("d/e" + n + "/y.ftl", "a=b"), ("d/f", None)])
    pre = "" if rel else fs.path("")
    arg = [pre + "d/**"]
    rc = lint(arg)
    x.check(rc == 0 and not fs.written(), "linting succeeds")
    rc = fix(arg)
    x.check(rc == 0, "fixing succeeds")
    x.check_eq(fs.read("d/z" + n + ".properties"), "a = b\n", "fixed")
    x.check_eq(fs.read("d/e" + n + "/y.ftl"), "a = b\n", "fixed in a directory")


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda case, fn, **params: out.append(dict(name=case, fn=fn, params=params))
    for name, (ts, al) in FILES.items():
        for i in range(len(ts)):
            for n in range(0, (3 if name != "a.xml" else 3) + t):
                add(f"{name}-{i}-{n}", "one", name=name, i=i, n=n)
            if al == "scalar":
                add(f"{name}-{i}-ascii", "one", name=name, i=i, n=3 + t, alpha="ab\\ \n\r#=:\"'<>-")
    for how in ("dir", "glob", "deep", "config", "names"):
        for cont in (False, True):
            add(f"two-{how}-{cont}", "several", kinds=[None, None], how=how, cont=cont, skip=cont, nn=1)
    for how in ("dir", "names"):
        for cont in (False, True):
            add(f"three-{how}-{cont}", "several", kinds=[None, None, None], how=how, cont=cont, skip=not cont, nn=0)
            if t:
                add(f"four-{how}-{cont}", "several", kinds=[None, None, None, None], how=how, cont=cont, skip=not cont, nn=0)
    for k in KINDS:
        add(f"one-{k}", "several", kinds=[k], how="names", cont=False, skip=False, nn=2)
    for kind in ("both", "neither", "none", "empty"):
        for n in range(0, 3):
            add(f"{kind}-{n}", "arguments", kind=kind, n=n)
    for rel in (False, True):
        for nn in range(0, 3):
            add(f"directories-{rel}-{nn}", "directories", rel=rel, nn=nn)
    return out
