from moz.l10n.paths.android_locale import get_android_locale, parse_android_locale

BOUNDS = {
    "quick": "all locales of a 2-3 letter language, optional 4-letter script, optional region of 2 letters or 3 digits and optional 5-character variant, with every letter symbolic; "
    "all strings of up to 9 characters over every Unicode scalar value as qualifiers",
    "thorough": "as quick with qualifiers of up to 12 characters",
}
ASSUMPTIONS = ["language codes are the current ones (he, id, yi rather than iw, in, ji)"]
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
LEGACY = {"he": "iw", "id": "in", "yi": "ji"}


def mk_lang(x, n):
    lang = x.str("lang", n, LOWER)
    for old in ("iw", "in", "ji"):
        x.assume(lang != old)
    return lang


def tags(x, script, region, variant):
    rest = []
    if script:
        rest.append(x.str("s", 1, UPPER) + x.str("cript", 3, LOWER))
    if region == 2:
        rest.append(x.str("region", 2, UPPER))
    elif region == 3:
        rest.append(x.str("region", 3, "0123456789"))
    if variant:
        rest.append(x.str("variant", 5, LOWER + "0123456789"))
    return rest


def invert(x, n, script, region, variant):
    lang = mk_lang(x, n)
    rest = tags(x, script, region, variant)
    loc = lang
    for r in rest:
        loc = loc + "-" + r
    q = get_android_locale(loc)
    x.obs("qualifier", q)
    x.check_eq(parse_android_locale(q), loc, "the locale comes back")
    # the documented forms
    al = lang
    for cur, old in LEGACY.items():
        if lang == cur:
            al = old
    if not rest:
        x.check_eq(q, al, "language only")
    elif not script and not variant and region == 2:
        x.check_eq(q, al + "-r" + rest[0], "language and region")
    else:
        want = "b+" + al
        for r in rest:
            want = want + "+" + r
        x.check_eq(q, want, "BCP 47 form")


def injective(x, n, m, region):
    """Different locales have different qualifiers"""
    a = mk_lang(x, n) + ("-" + x.str("ra", 2, UPPER) if region else "")
    b = x.str("b", m, LOWER) + ("-" + x.str("rb", 2, UPPER) if region else "")
    for old in ("iw", "in", "ji"):
        x.assume(not b.startswith(old) or m > 2)
    if get_android_locale(a) == get_android_locale(b):
        x.check_eq(a, b, "same qualifier, same locale")


def is_subtag(x, s):
    return len(s) > 0 and x.eq(x.only(s, LOWER + UPPER + "0123456789"), True)


def qualifier(x, n, pre):
    """What is read from any qualifier"""
    q = pre + x.str("q", n)
    loc = parse_android_locale(q)
    x.obs("locale", loc)
    if loc is None:
        # must not be one of the documented forms
        x.check(not (len(q) in (2, 3) and x.eq(x.only(q, LOWER), True)), "a language is a qualifier")
        return
    if q.startswith("b+"):
        parts = q[2:].split("+")
        for p in parts:
            x.check(is_subtag(x, p), "only alphanumeric subtags are accepted")
        x.check(len(parts[0]) >= 2, "language length")
    else:
        parts = q.split("-r")
        x.check(len(parts) <= 2, "language and region")
        x.check(len(parts[0]) in (2, 3) and x.eq(x.only(parts[0], LOWER), True), "language")
        if len(parts) == 2:
            x.check(len(parts[1]) == 2 and x.eq(x.only(parts[1], UPPER), True), "region")
    want = parts[0]
    for cur, old in LEGACY.items():
        if want == old:
            want = cur
    for p in parts[1:]:
        want = want + "-" + p
    x.check_eq(loc, want, "the locale of the qualifier")
    if len(parts[0]) < 4 and x.eq(x.only(parts[0], LOWER), True):
        x.check_eq(parse_android_locale(get_android_locale(loc)), loc, "stable for two and three letter languages")


def cases(tier):
    t = tier == "thorough"
    out = []
    for n in (2, 3):
        for script in (False, True):
            for region in (0, 2, 3):
                for variant in (False, True):
                    out.append(dict(name=f"invert-{n}-{script}-{region}-{variant}", fn="invert", params=dict(n=n, script=script, region=region, variant=variant)))
    for n, m in ((2, 2), (3, 2), (3, 3), (2, 3)):
        for region in (False, True):
            out.append(dict(name=f"injective-{n}-{m}-{region}", fn="injective", params=dict(n=n, m=m, region=region)))
    for n in range(0, 13 if t else 10):
        out.append(dict(name=f"qualifier-{n}", fn="qualifier", params=dict(n=n, pre="")))
    for n in range(0, 13 if t else 10):
        out.append(dict(name=f"bcp-{n}", fn="qualifier", params=dict(n=n, pre="b+")))
    return out
