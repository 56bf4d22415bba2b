"""Directory walks honor ignore files."""
from moz.l10n.util import walk_files

BOUNDS = (
    "a tree of 3 levels with 5 files and 3 directories, of which up to 4 have symbolic names of up to 2 (thorough: 3) characters (letters, a dot, a non-ASCII letter); ignore files of up to 3 lines: "
    "one or two lines of up to 3 (thorough: 4) symbolic characters from a b . * ? ! / # \\ and space, or lines of the stated templates with symbolic names"
)
ASSUMPTIONS = [
    "the rules of the ignore file are those for which the gitignorant library agrees with git: no slash within a pattern, no [ ] and no escapes other than a leading \\!",
    "dirs are disjoint, and not ignored",
]

NAME = "ab.\xe9"


def glob_match(pat, s):
    """pat has * and ? as its only special characters; s is a name"""
    if not pat:
        return not s
    c = pat[0]
    if c == "*":
        return any(glob_match(pat[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if c == "?":
        return glob_match(pat[1:], s[1:])
    return c == s[0] and glob_match(pat[1:], s[1:])


def parse(line):
    """(pattern, negative, anchored, directories only), or None"""
    line = line.rstrip(" \n\r")
    if not line or line[0] == "#":
        return None
    neg = False
    if line[0] == "!":
        neg = True
        line = line[1:]
    elif line[:2] == "\\!":
        line = line[1:]
    dir_only = line[-1:] == "/"
    if dir_only:
        line = line[:-1]
    anchored = line[:1] == "/"
    if anchored:
        line = line[1:]
    return line, neg, anchored, dir_only


def ignored(rules, comps, is_dir):
    """As git does: the last rule that matches decides, for each directory on the way"""
    for n in range(1, len(comps) + 1):
        d = is_dir or n < len(comps)
        res = False
        for pat, neg, anchored, dir_only in rules:
            if dir_only and not d:
                continue
            if anchored and n > 1:
                continue
            if glob_match(pat, comps[n - 1]):
                res = not neg
        if res:
            return True
    return False


HIDDEN = (".*", False, False, False)


def tree(x, f, d, g, e):
    return [
        (f, ""),
        ("z.ftl", ""),
        (d + "/" + g, ""),
        (d + "/z.ftl", ""),
        (d + "/" + e + "/" + f, ""),
        ("y/" + e, ""),
    ]


def name(x, key, n):
    s = x.str(key, n, NAME)
    x.assume(s not in (".", ".."))
    return s


def walked(x, lines, sizes, ignorepath=".l10n-ignore", at=None, dirs=None, order=0, sep="\n", end="\n"):
    f, d, g, e = (name(x, k, n) if n else k for k, n in zip("fdge", sizes))
    x.assume(d not in (f, "y", "z.ftl", ".l10n-ignore"))
    x.assume(f not in ("y", "z.ftl", ".l10n-ignore"))
    x.assume(e not in (g, "z.ftl") and g != "z.ftl")
    files = tree(x, f, d, g, e)
    rules = [HIDDEN]
    for line in lines:
        r = parse(line)
        if r is not None:
            # rules that gitignorant takes otherwise than git
            pat = r[0]
            x.assume("/" not in pat and "\\" not in pat and " " not in pat)
            x.assume(len(pat) > 0)
            x.assume("**" not in pat)
            rules.append(r)
    text = sep.join(lines) + end
    if at:
        files.append((at, text))
    # these have no effect
    files.append((d + "/.l10n-ignore", "*\n"))
    files.append(("y/.gitignore", "*\n"))
    fs = x.fs([("r/" + p if p[:3] != "../" else p[3:], t) for p, t in (files[::-1] if order else files)])
    kw = {}
    if ignorepath == "abs":
        ignorepath = fs.path("r/" + at)
    if ignorepath != ".l10n-ignore":
        kw["ignorepath"] = ignorepath
    if not ignorepath or not at:
        rules = [HIDDEN]
    for d_ in dirs or ():
        x.assume(not ignored(rules, d_.split("/"), True))
    got = list(walk_files(fs.path("r"), dirs, **kw))
    x.obs("n", len(got))
    n = 0
    for path, _ in files:
        if path[:3] == "../":
            continue
        comps = path.split("/")
        full = fs.path("r/" + path)
        times = sum(1 if g == full else 0 for g in got)
        want = not ignored(rules, comps, False)
        if dirs is not None and not any(comps[0] == d or comps[:2] == d.split("/") for d in dirs):
            want = False
        if want:
            x.check(times == 1, "each file that is not ignored is found once")
            n += 1
        else:
            x.check(times == 0, "no ignored file is found")
    x.check(len(got) == n, "nothing else is found")


def symbolic(x, ks, sizes, **kw):
    """Lines of any characters"""
    lines = [x.str(f"l{i}", k, "ab.*?!/# \\") for i, k in enumerate(ks)]
    walked(x, lines, sizes, at=".l10n-ignore", **kw)


T = {
    "name": ["S"],
    "root": ["/S"],
    "dir": ["S/"],
    "root-dir": ["/S/"],
    "prefix": ["S*"],
    "suffix": ["*S"],
    "root-prefix": ["/S*"],
    "dir-suffix": ["*S/"],
    "one": ["?S"],
    "again": ["*.ftl", "!S"],
    "never": ["!S", "*.ftl", "/S"],
    "again-dir": ["*/", "!S/"],
    "again-all": ["*", "!*/", "!S"],
    "hidden": ["!.*"],
    "hidden-name": ["!.S"],
    "hidden-dir": ["!.S/"],
    "comment": ["#S", "S"],
    "comment-only": ["#S"],
    "blank": ["", "  ", "S", ""],
    "bang": ["\\!S", "S"],
    "spaces": ["S   "],
    "all": ["*"],
    "two": ["S*", "!*S"],
    "three": ["S", "!S", "S"],
}


def template(x, key, n, sizes, **kw):
    """Lines with names"""
    s = x.str("s", n, NAME)
    walked(x, [l.replace("S", s) for l in T[key]], sizes, **{"at": ".l10n-ignore", **kw})


def no_dir(x, n):
    s = x.str("s", n, NAME)
    fs = x.fs([("r/f", "")])
    try:
        list(walk_files(fs.path("r/f" if n == 0 else "r/" + s + "/q")))
    except ValueError:
        return
    x.fail("not a directory")


def cases(tier):
    t = 1 if tier == "thorough" else 0
    out = []
    add = lambda name, fn, **params: out.append(dict(name=name, fn=fn, params=params))
    for k in range(0, 4 + t):
        add(f"line-{k}", "symbolic", ks=[k], sizes=[1, 1, 0, 0] if k < 3 else [0, 0, 0, 0])
        if k:
            add(f"line-{k}-names", "symbolic", ks=[k], sizes=[2, 0, 0, 0] if k < 3 else [1, 0, 0, 0])
            add(f"line-{k}-inner", "symbolic", ks=[k], sizes=[0, 0, 1, 1] if k < 3 else [0, 0, 1, 0])
    for a in range(1, 3):
        for b in range(1, 3):
            add(f"lines-{a}{b}", "symbolic", ks=[a, b], sizes=[1, 0, 0, 0] if a + b < 4 else [0, 0, 0, 0])
    add("lines-crlf", "symbolic", ks=[1, 1], sizes=[1, 0, 0, 0], sep="\r\n", end="")
    for key in T:
        for n in (0, 1, 2, 3)[: 3 + t]:
            if n == 0 and any("S" in l and not l.replace("S", "").strip("/!#*?. ").strip() for l in T[key]):
                continue
            add(f"{key}-{n}", "template", key=key, n=n, sizes=[1, 1, 1, 0] if n < 2 + t else [2, 0, 0, 0])
        add(f"{key}-inner", "template", key=key, n=1, sizes=[0, 0, 1, 1])
        add(f"{key}-order", "template", key=key, n=1, sizes=[1, 0, 1, 0], order=1)
        add(f"{key}-end", "template", key=key, n=1, sizes=[1, 0, 1, 0], end="")
        if key not in ("all", "again-all", "again-dir"):
            add(f"{key}-dirs-1", "template", key=key, n=1, sizes=[0, 0, 1, 1], dirs=["y"])
            add(f"{key}-dirs-2", "template", key=key, n=1, sizes=[1, 0, 0, 0], dirs=["d/e", "y"])
            add(f"{key}-dirs-3", "template", key=key, n=1, sizes=[1, 0, 1, 1], dirs=["d", "missing"])
        add(f"{key}-other", "template", key=key, n=1, sizes=[1, 1, 0, 0], at="y/ign", ignorepath="y/ign")
        add(f"{key}-outside", "template", key=key, n=1, sizes=[1, 1, 0, 0], at="../ign", ignorepath="../ign")
        add(f"{key}-abs", "template", key=key, n=1, sizes=[1, 1, 0, 0], at="y/ign", ignorepath="abs")
    for ip in (None, "", "missing", "y", ".l10n-ignore/x"):
        add(f"no-file-{ip}", "template", key="name", n=1, sizes=[1, 1, 1, 1], ignorepath=ip, at=None)
        add(f"unused-{ip}", "template", key="all", n=1, sizes=[1, 1, 1, 1], ignorepath=ip, at="z.ign" if ip else ".l10n-ignore") if ip in (None, "") else None
    for n in range(0, 3):
        add(f"no-dir-{n}", "no_dir", n=n)
    return out
