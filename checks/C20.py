"""Configured paths map references and targets one to one."""
from moz.l10n.paths import L10nConfigPaths, get_android_locale

BOUNDS = (
    "configurations of one [[paths]] entry in each of 24 shapes (plain, *, **, **/, **/*, several wildcards, templates, .po files, Android directories, l10n_base, env variables, repeated variables, paths with ./ and ../), "
    "of two entries with the same or different references, and with included configurations in other directories; the directory of the configuration, the file names and the directory names have up to 2 (thorough: 3) symbolic characters each, "
    "from letters, dots, and characters that are special in regular expressions; locales of up to 5 characters; looked up paths with up to 3 (thorough: 4) symbolic characters at any place"
)
ASSUMPTIONS = [
    "names contain none of the characters that are special in templates and in glob patterns, * ? [ { }",
    "no two references have the same target",
    "references are files listed by the stand-in for glob() or passed as force_paths",
]

NAME = "ab.+("
DIR = "a.+)$"
LC = ["de", "pt-BR", "sr-Latn", "he", "x"]


def config(x, fs, cfgs, **kw):
    """cfgs: {path below the root: parsed TOML}"""
    m = {fs.path(k): v for k, v in cfgs}

    def load(path):
        for k, v in m.items():
            if k == path:
                return v
        raise FileNotFoundError(path)

    return L10nConfigPaths(fs.path(cfgs[0][0]), cfg_load=load, **kw)


# name: (reference, l10n, files, expected: [(reference file, target)])
# N is a symbolic name, D a symbolic directory name
def shape(i, n, d):
    L = "{locale}"
    A = "{android_locale}"
    return [
        ("plain", f"en/{n}.ftl", f"{L}/{n}.ftl", [f"en/{n}.ftl", f"en/{n}.ft"], [(f"en/{n}.ftl", f"{L}/{n}.ftl")]),
        ("missing", f"en/{n}.ftl", f"{L}/{d}/{n}.ftl", [], [(f"en/{n}.ftl", f"{L}/{d}/{n}.ftl")]),
        ("star", "en/*.ftl", f"{L}/{d}/*.ftl", [f"en/{n}.ftl", f"en/{n}.ini", f"en/{d}/z.ftl"], [(f"en/{n}.ftl", f"{L}/{d}/{n}.ftl")]),
        ("star-dot", f"en/{d}.*", f"{L}.{d}/*", [f"en/{d}.{n}", "en/xyz"], [(f"en/{d}.{n}", f"{L}.{d}/{n}")]),
        ("stars", "en/**", f"{L}/x.{d}/**", [f"en/z{n}", f"en/q{d}/y{n}"], [(f"en/z{n}", f"{L}/x.{d}/z{n}"), (f"en/q{d}/y{n}", f"{L}/x.{d}/q{d}/y{n}")]),
        ("stars-star", "en/**/*.ftl", f"{L}/**/*.ftl", [f"en/z{n}.ftl", f"en/q{d}/y{n}.ftl", f"en/q{d}/y{n}.ini"], [(f"en/z{n}.ftl", f"{L}/z{n}.ftl"), (f"en/q{d}/y{n}.ftl", f"{L}/q{d}/y{n}.ftl")]),
        ("stars-dir", "c/**/en/x.ftl", f"c/**/{L}/x.ftl", [f"c/en/x.ftl", f"c/z{n}/en/x.ftl", f"c/z{n}/y{d}/en/x.ftl", f"c/zen/x.ftl"], [("c/en/x.ftl", f"c/{L}/x.ftl"), (f"c/z{n}/en/x.ftl", f"c/z{n}/{L}/x.ftl"), (f"c/z{n}/y{d}/en/x.ftl", f"c/z{n}/y{d}/{L}/x.ftl")]),
        ("two", "*/en/*.ftl", f"*/{L}/{d}*.ftl", [f"z{d}/en/y{n}.ftl", f"z{d}/en.ftl"], [(f"z{d}/en/y{n}.ftl", f"z{d}/{L}/{d}y{n}.ftl")]),
        ("two-same", "en/*-*.ini", f"{L}/*-*.ini", [f"en/z{n}-{d}.ini", f"en/z{n}.ini"], [(f"en/z{n}-{d}.ini", f"{L}/z{n}-{d}.ini")]),
        ("pot", f"en/{n}.pot", f"{L}/{n}.po", [], [(f"en/{n}.pot", f"{L}/{n}.po")]),
        ("pot-pot", f"en/{n}.pot", f"{L}/{n}.pot", [], [(f"en/{n}.pot", f"{L}/{n}.po")]),
        ("star-pot", "en/*.pot", f"{L}/*.po", [f"en/{n}.pot", f"en/{n}.po"], [(f"en/{n}.pot", f"{L}/{n}.po")]),
        ("star-pot-pot", "en/*.pot", f"{L}/*.pot", [f"en/{n}.pot", f"en/{n}.po"], [(f"en/{n}.pot", f"{L}/{n}.po")]),
        ("stars-pot", "en/**", f"{L}/**", [f"en/z{n}.pot", f"en/y{d}.po"], [(f"en/z{n}.pot", f"{L}/z{n}.po"), (f"en/y{d}.po", f"{L}/y{d}.po")]),
        ("po", f"{n}/locale/dj.po", f"{n}/locale/{L}/dj.po", [], [(f"{n}/locale/dj.po", f"{n}/locale/{L}/dj.po")]),
        ("android", f"res{n}/values/s.xml", f"res{n}/values-{A}/s.xml", [], [(f"res{n}/values/s.xml", f"res{n}/values-{A}/s.xml")]),
        ("android-stars", "c/**/values/s.xml", f"c/**/values-{A}/s.xml", [f"c/z{n}/values/s.xml", f"c/z{n}/y{d}/values/s.xml", f"c/z{n}/values-fr/s.xml"], [(f"c/z{n}/values/s.xml", f"c/z{n}/values-{A}/s.xml"), (f"c/z{n}/y{d}/values/s.xml", f"c/z{n}/y{d}/values-{A}/s.xml")]),
        ("base", f"en/{n}", "{l10n_base}/" + f"{L}/{d}/{n}", [], [(f"en/{n}", f"{L}/{d}/{n}")]),
        ("base-stars", "en/**", "{l10n_base}/" + f"{L}/{d}/**", [f"en/z{n}"], [(f"en/z{n}", f"{L}/{d}/z{n}")]),
        ("env", f"en/{n}", "{e}" + f"{d}/{n}", [], [(f"en/{n}", f"{L}/{d}/{n}")]),
        ("env-star", "en/*.ftl", "{e}*.ftl", [f"en/{n}.ftl"], [(f"en/{n}.ftl", f"{L}/{n}.ftl")]),
        ("twice", f"en/{n}", f"{L}/{n}.{L}.x", [], [(f"en/{n}", f"{L}/{n}.{L}.x")]),
        ("dot", f"./en/./{n}", f"./{L}/./{n}", [], [(f"en/{n}", f"{L}/{n}")]),
        ("up", f"../en/{n}", f"../l/{L}/{n}", [], [(f"../en/{n}", f"../l/{L}/{n}")]),
    ][i]


COUNT = 24
NONEMPTY = ("plain", "missing", "base", "env", "twice", "dot", "up", "star-dot", "star", "star-pot", "star-pot-pot", "env-star", "po")


def dirname(x, name, n, alpha=DIR):
    d = x.str(name, n, alpha)
    x.assume(d != "." and d != "..")
    return d


def norm(fs, base, p):
    """a path below base, or one that starts with ../"""
    if p[:3] == "../":
        return fs.path(p[3:])
    return fs.path(base + "/" + p)


def setup(x, i, nn, nd, nb, force=False, locales=None, path_locales=None, order=0):
    b = "z" + dirname(x, "b", nb)
    n = x.str("n", nn, NAME)
    d = dirname(x, "d", nd)
    name, ref, tgt, files, exp = shape(i, n, d)
    if name in NONEMPTY:
        x.assume(n not in ("", ".", ".."))
    if name in ("star", "star-pot", "star-pot-pot", "env-star"):
        # glob() does not list these for *
        x.assume(n[:1] != ".")
    if "{locale}/" in tgt and nd == 0:
        tgt = tgt.replace("//", "/")
        exp = [(r, t.replace("//", "/")) for r, t in exp]
        files = [f.replace("//", "/") for f in files]
    fs = x.fs([(b, None)])
    for f in reversed(files) if order else files:
        if not (force and any(f == r for r, _ in exp)):
            fs.add(b + "/" + f, "")
    cfg = {"paths": [{"reference": ref, "l10n": tgt}], "env": {"e": "{l10n_base}/{locale}/"}}
    if not name.startswith("env"):
        del cfg["env"]
    if locales is not None:
        cfg["locales"] = locales
    if path_locales is not None:
        cfg["paths"][0]["locales"] = path_locales
    kw = {}
    if force:
        kw["force_paths"] = [norm(fs, b, r) for r, _ in exp] + [fs.path(b + "/unrelated/zz")]
    p = config(x, fs, [(b + "/l10n.toml", cfg)], **kw)
    return fs, b, p, [(norm(fs, b, r), norm(fs, b, t)) for r, t in exp]


def fill(target, lc):
    return target.replace("{locale}", lc).replace("{android_locale}", get_android_locale(lc))


def roundtrip(x, i, nn, nd, nb, force=False, order=0):
    """The listed references, their targets, and the way back"""
    fs, b, p, exp = setup(x, i, nn, nd, nb, force, order=order)
    lc = x.choice("lc", LC)
    all = p.all()
    x.obs("all", len(all))
    x.check(len(all) == len(exp), "as many targets as references")
    refs = list(p.ref_paths)
    x.check(len(refs) == len(exp), "each reference listed once")
    for ref, tgt in exp:
        x.check(x.any([x.eq(r, ref) for r in refs]), "each reference listed")
        x.check(x.any([x.all([x.eq(k[0], ref), x.eq(k[1], tgt)]) for k in all]), "each reference with its target")
        x.check(all[(ref, tgt)] is None, "all locales")
        t, lcs = p.target(ref)
        x.check_eq(t, tgt, "target of a reference")
        x.check(len(lcs) == 0, "no locales configured")
        t, lcs = p.target(ref, locale=lc)
        path = fill(tgt, lc)
        x.check_eq(t, path, "target of a reference for a locale")
        x.check_eq(list(lcs), [lc], "locale of the target")
        x.check_eq(p.format_target_path(tgt, lc), path, "formatted target")
        back = p.find_reference(path)
        x.check(back is not None, "a reference is found for each target")
        x.check_eq(back[0], ref, "the target maps back to its reference")
        vars = {"android_locale": get_android_locale(lc)} if "{android_locale}" in tgt else {"locale": lc}
        x.check_eq(back[1], vars, "the target maps back to its locale")
        rel = path[len(p.base) + 1 :]
        if path[: len(p.base) + 1] == p.base + "/":
            x.check_eq(p.find_reference(rel), back, "a path relative to the base is the same path")
    if exp:
        ref = exp[0][0]
        if ref[: len(p.ref_root) + 1] == p.ref_root + "/":
            x.check_eq(p.target(ref[len(p.ref_root) + 1 :]), p.target(ref), "a reference relative to the root is the same path")


def find(x, i, nn, nd, path, k):
    """A reference is found only for its own targets"""
    fs, b, p, exp = setup(x, i, nn, nd, 0)
    s = x.str("s", k, "dea/.-xf")
    t = b + "/" + path.replace("S", s)
    back = p.find_reference(fs.path(t))
    x.obs("found", back is not None)
    if back is None:
        return
    ref, vars = back
    x.check(x.any([x.eq(ref, r) for r, _ in exp]), "a listed reference is found")
    tgt, _ = p.target(ref)
    for key, v in vars.items():
        tgt = tgt.replace("{" + key + "}", v)
    # other spellings of the same path are allowed
    comps = [c for c in fs.path(t).split("/") if c != "" and c != "."]
    x.assume(".." not in comps)
    x.check_eq(tgt, "/" + "/".join(comps), "the found reference has this target")


def missing(x, i, nn, nd):
    """No targets for paths that are no references"""
    fs, b, p, exp = setup(x, i, nn, nd, 0)
    s = x.str("s", 4, "enabft/.")
    ref = fs.path(b + "/en/" + s)
    comps = [c for c in ref.split("/") if c != "" and c != "."]
    x.assume(".." not in comps)
    ref_ = "/" + "/".join(comps)
    t, lcs = p.target(ref)
    is_ref = x.any([x.any([x.eq(ref_, r), x.eq(ref_ + "t", r) if r[-4:] == ".pot" else False]) for r, _ in exp])
    x.obs("target", t is not None)
    x.check(x.eq(t is None, True) if not is_ref else t is not None, "only references have targets")
    if t is None:
        x.check(len(lcs) == 0, "no locales without a target")


def locales(x, i, top, own, via, nn):
    """Locales are those configured"""
    TOP = [None, ["de", "he", "pt-BR"], []][top]
    OWN = [None, ["he", "fr"], ["fr"]][own]
    if via == "set":
        fs, b, p, exp = setup(x, i, nn, 0, 0, locales=["xx"], path_locales=OWN)
        p.locales = TOP
    else:
        fs, b, p, exp = setup(x, i, nn, 0, 0, locales=TOP, path_locales=OWN)
    lc = x.str("lc", 2, "dehfrx")
    ref, tgt = exp[0]
    t, lcs = p.target(ref)
    # an empty list of locales is no restriction
    if OWN is None:
        want = TOP or []
    elif TOP:
        want = [w for w in OWN if w in TOP]
    else:
        want = OWN
    if OWN and not want:
        x.check(t is None and len(lcs) == 0, "no target without locales")
    else:
        x.check_eq(t, tgt, "target")
        x.check_eq(sorted(lcs), sorted(want), "locales of the target")
    t, lcs = p.target(ref, locale=lc)
    ok = x.all([x.any([not TOP, *[x.eq(lc, w) for w in TOP or ()]]), x.any([OWN is None, *[x.eq(lc, w) for w in OWN or ()]])])
    if ok:
        x.check_eq(t, fill(tgt, lc), "target for a configured locale")
        x.check_eq(list(lcs), [lc], "the configured locale")
    else:
        x.check(t is None and len(lcs) == 0, "no target for other locales")
    al = p.all_locales
    for w in (TOP or []) + (OWN or []):
        x.check(w in al, "all configured locales are known")
    x.check(len(al) == len(set((TOP or []) + (OWN or []))), "only configured locales are known")
    x.check_eq(p.all()[(ref, tgt)], OWN or TOP, "locales of all targets")


def several(x, kind, nn):
    """Several entries for the same or for different references"""
    n = x.str("n", nn, NAME)
    m = x.str("m", nn, NAME)
    x.assume(n != m)
    force = kind[:6] == "force-"
    fs = x.fs([("b", None)] if force else [("b/en/z" + n, ""), ("b/en/z" + m, ""), ("b/en/y/z" + m, "")])
    kw = {}
    if force:
        kind = kind[6:]
        kw["force_paths"] = [fs.path("b/en/z" + n), fs.path("b/en/z" + m), fs.path("b/en/y/z" + m)]
    if kind == "locales":
        entries = [
            {"reference": "en/z" + n, "l10n": "{locale}/q", "locales": ["de", "fr"]},
            {"reference": "en/z" + n, "l10n": "x/{android_locale}/q", "locales": ["he"]},
            {"reference": "en/z" + n, "l10n": "y/{locale}/q"},
        ]
        want = {"de": "de/q", "fr": "fr/q", "he": "x/iw/q", "pl": "y/pl/q"}
        p = config(x, fs, [("b/l10n.toml", {"paths": entries})], **kw)
        ref = fs.path("b/en/z" + n)
        for lc, path in want.items():
            t, lcs = p.target(ref, locale=lc)
            x.check_eq(t, fs.path("b/" + path), "target of the entry for the locale")
            x.check_eq(list(lcs), [lc], "locale")
            back = p.find_reference(t)
            x.check(back is not None, "found")
            x.check_eq(back[0], ref, "reference of the target of either entry")
        x.check(len(p.all()) == 3, "each target is listed")
        x.check_eq(len(list(p.ref_paths)), 1, "the reference is listed once")
        return
    if kind == "overlap":
        # the second entry covers a part of what the first does
        entries = [{"reference": "en/**", "l10n": "{locale}/a/**"}, {"reference": "en/y/**", "l10n": "{locale}/c/**"}]
        p = config(x, fs, [("b/l10n.toml", {"paths": entries})], **kw)
        refs = [("en/z" + n, ["a/z" + n]), ("en/z" + m, ["a/z" + m]), ("en/y/z" + m, ["a/y/z" + m, "c/z" + m])]
    elif kind == "nested":
        # as in browser/locales and browser/branding
        entries = [{"reference": "en/*", "l10n": "{locale}/a/*"}, {"reference": "en/y/**", "l10n": "{locale}/a/y/**"}]
        p = config(x, fs, [("b/l10n.toml", {"paths": entries})], **kw)
        refs = [("en/z" + n, ["a/z" + n]), ("en/z" + m, ["a/z" + m]), ("en/y/z" + m, ["a/y/z" + m])]
    else:
        entries = [{"reference": "en/z" + n, "l10n": "{locale}/z" + n}, {"reference": "en/z" + m, "l10n": "{locale}/z" + m}]
        p = config(x, fs, [("b/l10n.toml", {"paths": entries})], **kw)
        refs = [("en/z" + n, ["z" + n]), ("en/z" + m, ["z" + m])]
    all = p.all()
    x.check(len(all) == sum(len(ts) for _, ts in refs), "number of targets")
    x.check(len(list(p.ref_paths)) == len(refs), "each reference is listed once")
    for ref, ts in refs:
        for t in ts:
            x.check((fs.path("b/" + ref), fs.path("b/{locale}/" + t)) in all, "each target is listed")
            back = p.find_reference("de/" + t)
            x.check(back is not None, "found")
            x.check_eq(back[0], fs.path("b/" + ref), "reference of the target")
            x.check_eq(back[1], {"locale": "de"}, "locale of the target")
        t, _ = p.target(fs.path("b/" + ref), locale="de")
        x.check(x.any([x.eq(t, fs.path("b/de/" + u)) for u in ts]), "target of the reference")


def includes(x, kind, nn, setbase):
    """Included configurations add their own references, below their own directories"""
    n = x.str("n", nn, NAME)
    d = "s" + dirname(x, "d", nn)
    top = {"paths": [{"reference": "en/z" + n, "l10n": "{locale}/z" + n}], "includes": [{"path": d + "/l10n.toml"}]}
    sub = {"paths": [{"reference": "en/*.ftl", "l10n": "{locale}/*.ftl"}]}
    deep = {"basepath": "..", "paths": [{"reference": "u/q" + n, "l10n": "u/{locale}/q" + n}]}
    cfgs = [("b/l10n.toml", top), ("b/" + d + "/l10n.toml", sub), ("b/" + d + "/deep.toml", deep)]
    files = [("b/en/z" + n, ""), ("b/" + d + "/en/y" + n + ".ftl", "")]
    refs = [("b", "en/z" + n, "{locale}/z" + n), ("b/" + d, "en/y" + n + ".ftl", "{locale}/y" + n + ".ftl")]
    kw = {}
    if kind == "deep":
        sub["includes"] = [{"path": "deep.toml"}]
        refs.append(("b", "u/q" + n, "u/{locale}/q" + n))
    elif kind == "loop":
        sub["includes"] = [{"path": "l10n.toml"}, {"path": "deep.toml"}, {"path": "./deep.toml"}]
        refs.append(("b", "u/q" + n, "u/{locale}/q" + n))
    elif kind == "env":
        top["env"] = {"v": d}
        top["includes"] = [{"path": "{v}/l10n.toml"}]
    elif kind == "twice":
        # the same reference and target in both
        deep["paths"] = [{"reference": "en/z" + n, "l10n": "{locale}/z" + n}]
        sub["includes"] = [{"path": "deep.toml"}]
    elif kind == "map":
        top["paths"][0]["l10n"] = "{lc}/z" + n
        sub["paths"][0]["l10n"] = "{lc}/*.ftl"
        refs = [(b, r, t.replace("{locale}", "{lc}")) for b, r, t in refs]
        kw["locale_map"] = {"lc": lambda s: s + "_" + s}
    fs = x.fs(files if kind != "force" else files[:1])
    if kind == "force":
        kw["force_paths"] = [fs.path("b/" + d + "/en/y" + n + ".ftl"), fs.path("b/" + d + "/en/y.txt")]
    p = config(x, fs, cfgs, **kw)
    if setbase:
        p.base = fs.path("other")
        p.locales = ["de", "fr"]
    all = p.all()
    refs_ = list(p.ref_paths)
    x.check(len(all) == len(refs), "number of targets")
    x.check(len(refs_) == len(refs) + (1 if kind == "twice" else 0), "each reference is listed once by its configuration")
    x.check_eq(list(p.config_paths())[:2], [fs.path("b/l10n.toml"), fs.path("b/" + d + "/l10n.toml")], "the configurations")
    x.check(len(list(p.config_paths())) == (3 if kind in ("deep", "loop", "twice") else 2), "each configuration once")
    for base, ref, tgt in refs:
        r = fs.path(base + "/" + ref)
        t = fs.path(("other" if setbase else base) + "/" + tgt)
        x.check((r, t) in all, "each reference with its target")
        x.check_eq(all[(r, t)], ["de", "fr"] if setbase else None, "locales")
        x.check(x.any([x.eq(r, r_) for r_ in refs_]), "each reference is listed")
        path = t.replace("{locale}", "de").replace("{lc}", "de_de")
        got = p.target(r, locale="de")
        x.check_eq(got[0], path, "target for a locale")
        x.check_eq(p.format_target_path(t, "de"), path, "formatted target")
        x.check_eq(p.target(r)[0], t, "target")
        x.check_eq(sorted(p.target(r)[1]), ["de", "fr"] if setbase else [], "locales of the target")
        if setbase:
            x.check(p.target(r, locale="pl")[0] is None, "no target for other locales")
        back = p.find_reference(path)
        x.check(back is not None, "found")
        x.check_eq(back[0], r, "reference of the target")
        x.check_eq(back[1], {"lc": "de_de"} if kind == "map" else {"locale": "de"}, "locale of the target")


def merged(x, first, second):
    """The same reference and target in two configurations, for some or for all locales"""
    L = [None, ["de", "fr"], ["pl", "de"]]
    fs = x.fs([("b", None)])
    n = x.str("n", 1, NAME)
    entry = {"reference": "en/z" + n, "l10n": "{locale}/z" + n}
    top = {"paths": [dict(entry)], "includes": [{"path": "i.toml"}]}
    sub = {"paths": [dict(entry)]}
    if L[first]:
        top["paths"][0]["locales"] = L[first]
    if L[second]:
        sub["paths"][0]["locales"] = L[second]
    p = config(x, fs, [("b/l10n.toml", top), ("b/i.toml", sub)])
    all = p.all()
    x.check(len(all) == 1, "one target")
    (got,) = all.values()
    if L[first] is None or L[second] is None:
        x.check(got is None, "all locales")
    else:
        x.check_eq(sorted(got), sorted(set(L[first] + L[second])), "the locales of both")
    for lc in ("de", "fr", "pl"):
        t, _ = p.target(fs.path("b/en/z" + n), locale=lc)
        want = any(ls is None or lc in ls for ls in (L[first], L[second]))
        x.check((t is not None) == want, "target for the locales of either")


def entries(x, count, sub, top):
    """Several entries of one reference: the last entry that lists the locale, or the last that lists none"""
    LS = [None, ["de"], ["fr", "de"], ["pl"]]
    TOP = [None, ["de"], ["fr", "xx"], ["pl", "de"]][top]
    n = x.str("n", 1, NAME)
    lc = x.str("lc", 2, "defrplx")
    es = []
    for i in range(count):
        ls = LS[x.choice("l" + str(i), [0, 1, 2, 3])]
        e = {"reference": "en/z" + n, "l10n": "{locale}/{v}/" + "abcd"[i] + n}
        if ls is not None:
            e["locales"] = ls
        es.append(e)
    cfg = {"paths": es[:sub]}
    cfgs = [("b/l10n.toml", cfg)]
    if sub < count:
        cfg["includes"] = [{"path": "s/i.toml"}]
        cfgs.append(("b/s/i.toml", {"basepath": "..", "paths": es[sub:]}))
    fs = x.fs([("b", None)])
    p = config(x, fs, cfgs)
    p.locales = TOP
    ref = fs.path("b/en/z" + n)
    where = lambda e, lc: fs.path("b/" + e["l10n"].replace("{v}", "w" + n).replace("{locale}", lc))
    fm = {"v": "w" + n}

    all = p.all(format_map=fm)
    x.check(len(all) == count, "each entry is listed")
    for e in es:
        k = (ref, where(e, "{locale}"))
        x.check(k in all, "the target of each entry is listed")
        x.check_eq(all[k], e.get("locales", TOP), "the locales of each entry")

    def pick(es, lc):
        own = [e for e in es if "locales" in e and lc in e["locales"]]
        rest = [e for e in es if "locales" not in e]
        return (own or rest or [None])[-1]

    t, lcs = p.target(ref, locale=lc, format_map=fm)
    want = None
    if not TOP or lc in TOP:
        want = pick(es[:sub], lc) or pick(es[sub:], lc)
    x.obs("found", t is not None)
    if want is None:
        x.check(t is None and len(lcs) == 0, "no target for other locales")
    else:
        x.check_eq(t, where(want, lc), "the last entry for the locale")
        x.check_eq(list(lcs), [lc], "the locale")

    t, lcs = p.target(ref, format_map={})
    x.check(t is None or "{v}" in t, "other variables are kept")
    t, lcs = p.target(ref, format_map=fm)
    want = None
    for part in (es[:sub], es[sub:]):
        if want is None:
            rest = [(e, TOP or []) for e in part if "locales" not in e]
            some = [(e, [w for w in e["locales"] if not TOP or w in TOP]) for e in part if "locales" in e]
            some = rest or [p for p in some if p[1]]
            if some:
                want = some[-1]
    if want is None:
        x.check(t is None and len(lcs) == 0, "no target without locales")
    else:
        x.check_eq(t, where(want[0], "{locale}"), "the last entry")
        x.check_eq(sorted(lcs), sorted(want[1]), "the configured locales of the entry")


def toml(x, nn):
    """A configuration in a file"""
    n = x.str("n", nn, NAME)
    fs = x.fs([("b/l10n.toml", 'basepath = "."\nlocales = ["de"]\n[[paths]]\nreference = "en/**"\nl10n = "{locale}/**"\n'), ("b/en/z" + n, "")])
    p = L10nConfigPaths(fs.path("b/l10n.toml"))
    x.check_eq(p.all(), {(fs.path("b/en/z" + n), fs.path("b/{locale}/z" + n)): ["de"]}, "references and targets")
    x.check_eq(p.find_reference("de/z" + n), (fs.path("b/en/z" + n), {"locale": "de"}), "found")


FIND = {
    "plain": ["S/a.ftl", "de/aSl", "de/a.ftlS", "SaS"],
    "star": ["S/a/b.ftl", "de/aSb.ftl", "de/a/bSftl", "de/a/b.ftS"],
    "stars": ["S/x.a/zb", "de/xSa/zb", "de/x.aSb"],
    "stars-star": ["S/zb.ftl", "de/zbSftl", "de/qa/ybSftl", "dSzb.ftl"],
    "stars-dir": ["c/S/x.ftl", "c/zbSde/x.ftl", "c/deSx.ftl", "c/de/xSftl"],
    "two": ["za/S/ayb.ftl", "za/de/aSb.ftl", "zaSde/ayb.ftl"],
    "pot-pot": ["S/b.po", "de/bSo", "de/b.pS"],
    "stars-pot": ["S/zb.po", "de/zbSo", "de/zb.pS"],
    "android": ["resb/values-S/s.xml", "resb/valuesSde/s.xml", "resb/values-de/sSxml"],
    "android-stars": ["c/zb/values-S/s.xml", "c/zbSvalues-de/s.xml", "c/zb/values-deSs.xml"],
    "twice": ["S/b.de.x", "de/b.S.x", "de/bSde.x"],
    "base": ["S/a/b", "deSa/b", "de/aSb"],
    "dot": ["S/b", "de/S", "Sde/b"],
}


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda name, fn, **params: out.append(dict(name=name, fn=fn, params=params))
    names = [shape(i, "", "")[0] for i in range(COUNT)]
    for i, name in enumerate(names):
        for nn in range(1 if name in NONEMPTY else 0, 3 + t):
            add(f"{name}-{nn}", "roundtrip", i=i, nn=nn, nd=1, nb=0)
        for nd in (2, 3)[: 1 + t]:
            add(f"{name}-dir-{nd}", "roundtrip", i=i, nn=1, nd=nd, nb=0)
        for nb in (1, 2, 3)[: 2 + t]:
            add(f"{name}-base-{nb}", "roundtrip", i=i, nn=1, nd=1, nb=nb)
        if "star" in name or name == "two":
            add(f"{name}-force", "roundtrip", i=i, nn=1, nd=1, nb=1, force=True)
            add(f"{name}-order", "roundtrip", i=i, nn=1, nd=1, nb=0, order=1)
        for k, path in enumerate(FIND.get(name, [])):
            for n in range(1, 4 + t):
                if n > 2 and path.count("S") > 1:
                    continue
                add(f"{name}-find-{k}-{n}", "find", i=i, nn=1, nd=1, path=path, k=n)
    for name in ("plain", "star", "stars", "stars-star", "pot", "star-pot"):
        add(f"{name}-missing", "missing", i=names.index(name), nn=1, nd=1)
    for i in (0, 2, 9):
        for top in range(3):
            for own in range(3):
                for via in ("file", "set"):
                    add(f"locales-{names[i]}-{top}-{own}-{via}", "locales", i=i, top=top, own=own, via=via, nn=1)
    for kind in ("locales", "overlap", "nested", "different", "force-overlap", "force-nested"):
        for nn in (1, 2)[: 1 + t]:
            add(f"several-{kind}-{nn}", "several", kind=kind, nn=nn)
    for kind in ("plain", "deep", "loop", "env", "twice", "map", "force"):
        for setbase in (False, True):
            add(f"includes-{kind}-{setbase}", "includes", kind=kind, nn=1 + t, setbase=setbase)
    for a in range(3):
        for b in range(3):
            add(f"merged-{a}-{b}", "merged", first=a, second=b)
    for top in range(4):
        for count, sub in ((2, 2), (2, 1), (3, 2), (3, 3))[: 3 + t]:
            add(f"entries-{count}-{sub}-{top}", "entries", count=count, sub=sub, top=top)
    for nn in range(0, 3):
        add(f"toml-{nn}", "toml", nn=nn)
    return out
