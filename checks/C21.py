"""Discovered paths map references and targets one to one."""
from moz.l10n.paths import L10nDiscoverPaths
from moz.l10n.paths.discover import MissingSourceDirectoryError

BOUNDS = (
    "trees of 16 shapes (source and locale directories side by side, apart, nested, outside of the root; several candidates for either; templates; relative roots) with up to 3 locale directories of symbolic names of all four forms and either separator, "
    "two source files with up to 2 (thorough: 3) symbolic characters in the names of the file and of its directory each, all ten extensions; looked up paths with up to 3 (thorough: 4) symbolic characters at any place"
)
ASSUMPTIONS = [
    "no two directories of the same base are for the same locale",
    "a relative path is below the reference root or the base, as are paths of relative roots",
]

NAME = "ab.+({}"
DIR = "a.{$}e"


def locdir(x, name, form, letters="dfr"):
    """name of a locale directory, and its locale"""
    if form in ("ca-valencia", "ja-JP-mac"):
        return form, form
    lang = x.str(name, 3 if form[:1] == "3" else 2, letters)
    f = form.lstrip("3")
    if f == "":
        return lang, lang
    out = [lang]
    if "S" in f:
        out.append("L" + x.str(name + "s", 3, "atn"))
    if "R" in f:
        out.append(x.str(name + "r", 2, "ABT"))
    return ("_" if "_" in f else "-").join(out), "-".join(out)


# shape: (source directory, base, arguments, other files)
def shape(kind, src, ext):
    f = "/z.ftl"
    return {
        # source directory, base, root, ref_root, other files and directories
        "beside": ("p/" + src, "p", "p", None, []),
        "apart": ("p/a/" + src, "p/l", "p", None, []),
        "within": ("p/a/" + src, "p", "p", None, []),
        "above": ("p/" + src, "p/l", "p", None, []),
        "ref": ("p/a/" + src, "p/l", "p", "a", []),
        "ref-abs": ("p/a/" + src, "p/l", "p", "/", []),
        "ref-outside": ("s/a/" + src, "p", "p", "../s", []),
        "ref-plain": ("p/a", "p/l", "p", "a", []),
        "ref-plain-outside": ("s/a", "p", "p", "../s/a", []),
        # locale directories that are not below the root
        "ref-locales": ("s/" + src, "p", "p", "../s", [("s/l/xa/z.ftl", ""), ("s/l/xb/z.ftl", ""), ("s/l/xc/z.ftl", ""), ("s/l/xd/z.ftl", "")]),
        # locale directories in the source directory
        "inner": ("p/" + src, "p", "p", None, [("p/" + src + "/xa/z.ftl", ""), ("p/" + src + "/xb/z.ftl", ""), ("p/" + src + "/xc/z.ftl", ""), ("p/" + src + "/xd/z.ftl", "")]),
        # fewer locale directories in another place
        "fewer": ("p/" + src, "p/m", "p", None, [("p/l/xa/z.ftl", "")]),
        # more locale directories, with nothing in them
        "empty": ("p/" + src, "p/m", "p", None, [("p/l/xa", None), ("p/l/xb", None), ("p/l/xc", None), ("p/l/xd", None)]),
        # a source directory with nothing in it
        "hidden": ("p/a/" + src, "p/m", "p", None, [("p/b/" + src, None), ("p/c/" + src + "/README", ""), ("p/d/" + src + "/.x.ftl", ""), ("p/.e/" + src + "/z.ftl", "")]),
        # templates come first
        "templates": ("p/b/" + src, "p/m", "p", None, [("p/a/" + src + "/z.po", ""), ("p/b/" + src + "/t/t.pot", "")]),
        "deep": ("p/a/b/" + src, "p/c/d/e", "p", None, []),
    }[kind]


SHAPES = ["beside", "apart", "within", "above", "ref", "ref-abs", "ref-outside", "ref-plain", "ref-plain-outside", "ref-locales", "inner", "fewer", "empty", "hidden", "templates", "deep"]
EXT = [".ftl", ".po", ".pot", ".properties", ".ini", ".inc", ".dtd", ".json", ".xlf", ".xliff", ".xml"]


def setup(x, kind, src, forms, ext, nn, nd, rel=False, force=False, order=0, **kw):
    s, base, root, ref_root, other = shape(kind, src, ext)
    n = x.str("n", nn, NAME)
    d = x.str("d", nd, DIR)
    names = ["z" + n + ext, "q" + d + "/y" + n + ext]
    if kind == "templates":
        names.append("t/t.pot")
    if kind == "inner":
        names += ["xa/z.ftl", "xb/z.ftl", "xc/z.ftl", "xd/z.ftl"]
    files = [(s + "/" + f, "") for f in names[: 1 if force else 2]]
    hidden = [(s + "/.z" + n + ext, ""), (s + "/.q" + d + "/y" + n + ext, "")]
    locs = [locdir(x, f"l{i}", f, letters=l) for i, (f, l) in enumerate(zip(forms, ("dfr", "ghi", "jkl")))]
    tgt = [(base + "/" + dn + "/z.ftl", "") for dn, _ in locs]
    all = files + hidden + tgt + other
    if order:
        all = all[::-1]
    fs = x.fs(all)
    if rel:
        r, rr = root, ref_root
    else:
        r, rr = fs.path(root), fs.path("p/a") if ref_root == "/" else ref_root
    if rel == "dot":
        # the root is the current directory
        r = "."
    if force:
        kw["force_paths"] = [(s + "/" + f if rel else fs.path(s + "/" + f)) for f in names] + [] if rel else [fs.path(s + "/" + f) for f in names] + [fs.path(base + "/unrelated/x"), fs.path("zz")]
    p = L10nDiscoverPaths(r, rr, **kw)
    return fs, p, s, base, names, locs


def source_root(x, kind, src, forms, ext, nn, source=None, order=0):
    """The source and the base directory are found"""
    kw = {} if source is None else {"source_locale": source}
    fs, p, s, base, names, locs = setup(x, kind, src, forms, ext, nn, 1, order=order, **kw)
    x.check_eq(p.ref_root, fs.path(s), "source directory")
    x.check_eq(p.base, fs.path(base), "base directory")
    x.check_eq(p.locales, sorted(lc for _, lc in locs), "locales")
    x.check(len(p.all_locales) == len(locs), "all locales")
    x.check(len(p.ref_paths) == len(names), "number of references")


def check_all(x, fs, p, s, base, names, locs, rel=False):
    R = fs.path(s)
    refs = p.ref_paths
    x.check(len(refs) == len(names), "each reference is listed once")
    all = p.all()
    x.check(len(all) == len(names), "as many targets as references")
    lcs = sorted(lc for _, lc in locs)
    for name in names:
        ref = R + "/" + name
        x.check(x.any([x.eq(r, ref) for r in refs]), "each reference is listed")
        tname = name[:-1] if name[-4:] == ".pot" else name
        tgt = fs.path(base) + "/{locale}/" + tname
        x.check((ref, tgt) in all, "each reference with its target")
        x.check_eq(all[(ref, tgt)], lcs, "locales of all targets")
        t, ls = p.target(ref)
        x.check_eq(t, tgt, "target of a reference")
        x.check_eq(sorted(ls), lcs, "locales of the target")
        x.check_eq(p.target(name), (t, ls), "a reference relative to the root is the same path")
        for dn, lc in locs:
            t, ls = p.target(ref, locale=lc)
            path = fs.path(base) + "/" + dn + "/" + tname
            x.check_eq(t, path, "target of a reference for a locale")
            x.check_eq(list(ls), [lc], "locale of the target")
            x.check_eq(p.format_target_path(tgt, lc), path, "formatted target")
            back = p.find_reference(path)
            x.check(back is not None, "a reference is found for each target")
            x.check_eq(back[0], ref, "the target maps back to its reference")
            x.check_eq(back[1], {"locale": lc}, "the target maps back to its locale")
            x.check_eq(p.find_reference(dn + "/" + tname), back, "a path relative to the base is the same path")


def roundtrip(x, kind, src, forms, ext, nn, nd, force=False, order=0):
    """The listed references, their targets, and the way back"""
    fs, p, s, base, names, locs = setup(x, kind, src, forms, ext, nn, nd, force=force, order=order)
    x.obs("refs", len(p.ref_paths))
    check_all(x, fs, p, s, base, names, locs)


def relative(x, kind, src, forms, ext, nn):
    """Relative roots"""
    fs, p, s, base, names, locs = setup(x, kind, src, forms, ext, nn, 1, rel=True)
    x.check_eq(p.ref_root, s, "source directory")
    x.check_eq(p.base, base, "base directory")
    x.check_eq(len(p.ref_paths), len(names), "number of references")
    lcs = sorted(lc for _, lc in locs)
    x.check_eq(p.locales, lcs, "locales")
    for name in names:
        tname = name[:-1] if name[-4:] == ".pot" else name
        x.check(s + "/" + name in p.ref_paths, "each reference is listed")
        x.check((s + "/" + name, base + "/{locale}/" + tname) in p.all(), "each reference with its target")
        for dn, lc in locs:
            t, ls = p.target(name, locale=lc)
            x.check_eq(t, base + "/" + dn + "/" + tname, "target of a reference for a locale")
            x.check_eq(p.find_reference(dn + "/" + tname), (s + "/" + name, {"locale": lc}), "found")


def dot(x, ref_root, ext, nn):
    """The current directory as the root"""
    n = x.str("n", nn, NAME)
    src = "" if ref_root else "en/"
    name = "z" + n + ext
    fs = x.fs([(src + name, ""), (src + "q/" + name, ""), ("l/de/" + name, ""), ("l/fr/" + name, "")])
    p = L10nDiscoverPaths(".", ref_root)
    norm = lambda s: s[2:] if s[:2] == "./" else s
    refs = [norm(r) for r in p.ref_paths]
    x.check_eq(norm(p.ref_root), "." if ref_root else "en", "source directory")
    for r in (src + name, src + "q/" + name):
        x.check(r in refs, "each reference is listed")
    x.check(len(refs) == (4 if ref_root else 2), "number of references")
    if ref_root:
        return
    x.check_eq(norm(p.base), "l", "base directory")
    tname = name[:-1] if ext == ".pot" else name
    t, ls = p.target(name, locale="de")
    x.check_eq(t, "l/de/" + tname, "target")
    back = p.find_reference("de/" + tname)
    x.check(back is not None, "found")
    x.check_eq((norm(back[0]), back[1]), ("en/" + name, {"locale": "de"}), "reference of the target")


def find(x, ext, form, path, k):
    """A reference is found only for its own targets"""
    fs, p, s, base, names, locs = setup(x, "beside", "en-US", [form, "R"], ext, 0, 0)
    q = x.str("s", k, "dar/.-_TA")
    dn, lc = locs[0]
    path = path.replace("S", q).replace("LL", dn).replace("EE", ext[:-1] if ext == ".pot" else ext)
    t = fs.path("p") + "/" + path
    back = p.find_reference(t)
    x.obs("found", back is not None)
    x.check_eq(p.find_reference(path if path[:1] != "/" else "." + path), back, "the same below the base")
    if back is None:
        return
    ref, vars = back
    x.check(x.any([x.eq(ref, r) for r in p.ref_paths]), "a listed reference is found")
    x.check_eq(list(vars), ["locale"], "a locale is found")
    comps = [c for c in t.split("/") if c != "" and c != "."]
    x.assume(".." not in comps)
    tgt, _ = p.target(ref)
    got = "/" + "/".join(comps)
    i = tgt.index("{locale}")
    rest = tgt[i + 8 :]
    x.check_eq(got[:i], tgt[:i], "below the base")
    x.check_eq(got[i:].replace("_", "-"), (vars["locale"] + rest).replace("_", "-"), "the found reference has this target")


def other_locale(x, ext, forms, n):
    """There are targets for the found locales only"""
    fs, p, s, base, names, locs = setup(x, "beside", "en-US", forms, ext, 0, 0)
    lc = x.str("lc", n, "dr-A_")
    ref = fs.path(s + "/" + names[0])
    t, ls = p.target(ref, locale=lc)
    is_lc = x.any([x.eq(lc, l) for _, l in locs])
    x.obs("target", t is not None)
    if is_lc:
        x.check(t is not None, "target for a found locale")
    else:
        x.check(t is None and len(ls) == 0, "no target for another locale")


def not_refs(x, ext, n):
    """No targets for paths that are no references, unless asked for"""
    fs, p, s, base, names, locs = setup(x, "beside", "en-US", ["", "R"], ext, 0, 0)
    q = x.str("s", n, "zqy/.f")
    ref = fs.path(s + "/" + q)
    comps = [c for c in ref.split("/") if c != "" and c != "."]
    x.assume(".." not in comps)
    ref_ = "/" + "/".join(comps)
    t, ls = p.target(ref)
    is_ref = x.any([x.eq(ref_, fs.path(s + "/" + f)) for f in names])
    x.obs("target", t is not None)
    if is_ref:
        x.check(t is not None, "target of a reference")
    else:
        x.check(t is None and len(ls) == 0, "no target")
    t, ls = p.target(ref, ref_required=False)
    x.check_eq(t, fs.path(base) + "/{locale}" + ref_[len(fs.path(s)) :], "target of a path that may be missing")
    t, ls = p.target(ref, ref_required=False, locale=locs[1][1])
    x.check_eq(t, fs.path(base) + "/" + locs[1][0] + ref_[len(fs.path(s)) :], "target of a path that may be missing, for a locale")


def separator(x, forms, lc):
    """The directory of a new locale uses the separator of most others"""
    fs, p, s, base, names, locs = setup(x, "beside", "en-US", forms, ".ftl", 0, 0)
    us = sum("_" in f for f in forms)
    da = sum("_" not in f and f not in ("", "3") for f in forms)
    sep = "_" if us > da else "-"
    x.check_eq(p.locale_dir_sep, sep, "separator")
    tgt, _ = p.target(names[0])
    want = lc if sep == "-" else lc.replace("-", "_")
    x.check_eq(p.format_target_path(tgt, lc), fs.path(base) + "/" + want + "/" + names[0], "target for a new locale")
    x.check_eq(p.find_reference(want + "/" + names[0]), (fs.path(s) + "/" + names[0], {"locale": lc}), "found")


def nothing(x, kind, nn):
    """No source directory, or no locales"""
    n = x.str("n", nn, NAME)
    if kind == "no-source":
        fs = x.fs([("p/de/z" + n + ".ftl", ""), ("p/en/z" + n, "")])
        try:
            L10nDiscoverPaths(fs.path("p"))
        except MissingSourceDirectoryError:
            return
        x.fail("no source directory")
    if kind == "no-root":
        fs = x.fs([("p", "")])
        try:
            L10nDiscoverPaths(fs.path("p"))
        except ValueError:
            return
        x.fail("no directory")
    fs = x.fs([("p/en/z" + n + ".ftl", "")])
    p = L10nDiscoverPaths(fs.path("p"))
    x.check(p.base is None and p.locales is None and len(p.all_locales) == 0, "no locales")
    for fn in (lambda: p.all(), lambda: p.target("z" + n + ".ftl"), lambda: p.find_reference("de/z.ftl")):
        try:
            fn()
        except ValueError:
            continue
        x.fail("a base is required")
    p.base = fs.path("o")
    x.check_eq(p.target("z" + n + ".ftl", locale="de-AT"), (fs.path("o/de-AT/z" + n + ".ftl"), {"de-AT"}), "target below the base that is set")
    x.check_eq(p.find_reference("de_AT/z" + n + ".ftl"), (fs.path("p/en/z" + n + ".ftl"), {"locale": "de-AT"}), "found")


def priority(x, first, second, source, want, nn):
    """The first of the source locales is the source"""
    n = x.str("n", nn, NAME)
    fs = x.fs([("p/a/" + first + "/z" + n + ".ftl", ""), ("p/b/" + second + "/z" + n + ".ftl", ""), ("p/l/de/z.ftl", "")])
    kw = {} if source is None else {"source_locale": source}
    p = L10nDiscoverPaths(fs.path("p"), **kw)
    x.check_eq(p.ref_root, fs.path("p/" + want), "source directory")
    x.check_eq(p.ref_paths, [fs.path("p/" + want + "/z" + n + ".ftl")], "references")


FIND = ["S/zEE", "LLSzEE", "LL/zSEE", "LL/zEES", "LL/Sq/yEE", "LL/qSyEE", "LL/q/ySEE", "S/q/yEE", "SLL/zEE", "LLS/zEE"]


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda name, fn, **params: out.append(dict(name=name, fn=fn, params=params))
    F3 = [["", "-R", "_SR"], ["-R", "3", "-S"], ["_R", "_S", "-SR"], ["ca-valencia", "ja-JP-mac", ""]]
    for kind in SHAPES:
        exts = [".po"] if kind == "templates" else EXT
        for e in exts if t else exts[:3]:
            for nn in (0, 1, 2, 3)[: 3 + t]:
                add(f"{kind}{e}-{nn}", "roundtrip", kind=kind, src="en-US", forms=F3[nn % 4], ext=e, nn=nn, nd=0 if nn > 1 else 1)
        for e in exts[3:]:
            add(f"{kind}{e}", "roundtrip", kind=kind, src="en", forms=["-R"], ext=e, nn=1, nd=1)
        add(f"{kind}-dir", "roundtrip", kind=kind, src="en-US", forms=["", "_R"], ext=exts[0], nn=0, nd=2 + t)
        add(f"{kind}-order", "roundtrip", kind=kind, src="en-US", forms=["", "_R"], ext=exts[0], nn=1, nd=1, order=1)
        if kind != "templates":
            add(f"{kind}-force", "roundtrip", kind=kind, src="en-US", forms=["", "_R"], ext=".pot", nn=1, nd=1, force=True)
        for i, f in enumerate(F3):
            add(f"{kind}-forms-{i}", "roundtrip", kind=kind, src="en-US", forms=f, ext=exts[0], nn=0, nd=0)
        for src in ("en-US", "en_US", "en-us", "en_us", "en"):
            add(f"{kind}-source-{src}", "source_root", kind=kind, src=src, forms=["", "-R"], ext=exts[0], nn=1)
        add(f"{kind}-source-given", "source_root", kind=kind, src="sr_latn", forms=["", "-R"], ext=exts[0], nn=1, source="sr-Latn")
        add(f"{kind}-source-given2", "source_root", kind=kind, src="sr_Latn", forms=["", "-R"], ext=exts[0], nn=1, source=["aa", "sr-Latn", "bb"], order=1)
        if kind not in ("ref-abs",):
            for e in exts[:3]:
                add(f"{kind}-relative{e}", "relative", kind=kind, src="en-US", forms=["", "_R"], ext=e, nn=1)
    for e in (".ftl", ".pot"):
        for rr in (None, "."):
            add(f"dot{e}-{rr}", "dot", ref_root=rr, ext=e, nn=1 + t)
        for form in ("", "-R"):
            for i, path in enumerate(FIND):
                for k in range(1, 4 + t):
                    if k > 3 and form:
                        continue
                    add(f"find{e}{form}-{i}-{k}", "find", ext=e, form=form, path=path, k=k)
        for n in range(0, 6):
            add(f"other{e}-{n}", "other_locale", ext=e, forms=["", "_R"], n=n)
    for n in range(1, 6 + t):
        add(f"not-refs-{n}", "not_refs", ext=".ftl", n=n)
    for i, forms in enumerate([["_R", "-R"], ["_R", "_R", "-R"], ["-R", "_S", "-SR"], ["_R", "", ""], ["-R", "_S", "_SR"], [""], ["_S", "ja-JP-mac"]]):
        for lc in ("xx", "xx-YY", "xx-Yyyy", "xx-Yyyy-ZZ"):
            add(f"separator-{i}-{lc}", "separator", forms=forms, lc=lc)
    for kind in ("no-source", "no-root", "no-locales"):
        add(kind, "nothing", kind=kind, nn=1 + t)
    for i, (a, b, source, want) in enumerate(
        [
            ("en-US", "en", None, "a/en-US"),
            ("en", "en-US", None, "b/en-US"),
            ("en", "en_us", None, "b/en_us"),
            ("de", "en", ["de", "en"], "a/de"),
            ("de", "en", ["en", "de"], "b/en"),
            ("de", "pt-BR", ["pt-BR", "de"], "b/pt-BR"),
            ("fr", "en", "fr", "a/fr"),
        ]
    ):
        add(f"priority-{i}", "priority", first=a, second=b, source=source, want=want, nn=1)
    return out
