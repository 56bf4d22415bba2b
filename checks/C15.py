from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

BOUNDS = {
    "quick": "patterns of up to 5 parts, each text of 0-2 characters (any scalar value), an expression or markup with one or two variable references; "
    "3 declarations a, b, c with any argument and option references among a, b, c and an undeclared z; up to 2 selectors and 2 variants",
    "thorough": "as quick with 6 parts and 4 declarations",
}
ASSUMPTIONS = ["declarations may refer to each other in any way, also in cycles"]

NAMES = ["a", "b", "c", "d"]


def flat(pattern):
    """the text and placeholders, as runs of characters"""
    out = []
    for p in pattern:
        if isinstance(p, str):
            if out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + p)
            elif p != "":
                out.append(("t", p))
        else:
            out.append(("p", p))
    return out


def refs(v):
    out = []
    if isinstance(v, Expression) and isinstance(v.arg, VariableRef):
        out.append(v.arg.name)
    for o in v.options.values():
        if isinstance(o, VariableRef):
            out.append(o.name)
    return out


def reachable(roots, decls):
    """independent of the code under test: least fixpoint by repeated passes"""
    have = [n for n in decls if n in roots]
    for _ in decls:
        for n in decls:
            if n not in have:
                for h in have:
                    if n in refs(decls[h]):
                        have.append(n)
                        break
    return [n for n in decls if n in have]


def check(x, msg, patterns, roots, decls):
    want = [flat(p) for p in patterns]
    keep = reachable(roots, decls)
    dec = {n: decls[n] for n in keep}
    got = msg.normalize()
    x.check(got is msg, "returns the message itself")
    after = [msg.pattern] if isinstance(msg, PatternMessage) else list(msg.variants.values())
    x.check(len(after) == len(want), "variants kept")
    for p, w in zip(after, want):
        x.check(len(p) == len(w), "number of parts")
        for el, (kind, v) in zip(p, w):
            x.check(isinstance(el, str) == (kind == "t"), "kind of part")
            x.check_eq(el, v, "part")
    x.check_eq(list(msg.declarations), keep, "declarations kept, in order")
    x.check_eq(msg.declarations, dec, "declarations unchanged")
    again = [list(p) for p in after]
    msg.normalize()
    x.check_eq([msg.pattern] if isinstance(msg, PatternMessage) else list(msg.variants.values()), again, "idempotent")
    x.check_eq(list(msg.declarations), keep, "idempotent declarations")


def mk_part(x, tag, kind):
    if kind < 3:
        return x.str(tag, kind)
    if kind == 3:
        return Expression(VariableRef("v"))
    return Markup("open", "b")


def texts(x, k):
    """Joining of adjacent texts and dropping of empty ones"""
    pat = [mk_part(x, f"t{i}", x.choice(f"k{i}", 5)) for i in range(k)]
    check(x, PatternMessage(list(pat)), [pat], [], {})


def mk_decls(x, k, opts):
    rf = NAMES[:k] + ["z"]
    d = {}
    for n in NAMES[:k]:
        a = x.choice("arg_" + n, len(rf))
        o = x.choice("opt_" + n, len(rf)) if opts else len(rf) - 1
        d[n] = Expression(VariableRef(rf[a]) if rf[a] != "z" else "lit", "f", {"o": "1", "p": VariableRef(rf[o])} if rf[o] != "z" else {})
    return d


def decls(x, k, opts, ref=None, how=None):
    """Which declarations are kept"""
    d = mk_decls(x, k, opts)
    rf = NAMES[:k] + ["z"]
    r = rf[x.choice("ref", len(rf)) if ref is None else ref]
    if how is None:
        how = x.choice("how", 3)
    if how == 0:
        ph = Expression(VariableRef(r))
    elif how == 1:
        ph = Expression("lit", "f", {"o": "q", "p": VariableRef(r)})
    else:
        ph = Markup("standalone", "m", {"p": VariableRef(r)})
    check(x, PatternMessage(["x", ph], dict(d)), [["x", ph]], [r], d)


def decls_select(x, k):
    d = mk_decls(x, k, False)
    rf = NAMES[:k] + ["z"]
    s = rf[x.choice("sel", len(rf))]
    s2 = rf[x.choice("sel2", len(rf))]
    r = rf[x.choice("ref", len(rf))]
    p1 = [x.str("t", 1), "", Expression(VariableRef(r), "f")]
    p2 = [x.str("u", 1), x.str("w", 1)]
    msg = SelectMessage(dict(d), (VariableRef(s), VariableRef(s2)), {("k", CatchallKey()): list(p2), (CatchallKey(), CatchallKey()): list(p1)})
    check(x, msg, [p2, p1], [s, s2, r], d)


def names(x, n, m):
    """symbolic names"""
    a = x.str("a", n)
    b = x.str("b", n)
    r = x.str("r", n)
    d = {a: Expression(VariableRef(b), "f"), b: Expression("1")}
    ph = Expression(None, "f", {"o": VariableRef(r)})
    check(x, PatternMessage([ph], dict(d)), [[ph]], [r], d)


def cases(tier):
    t = tier == "thorough"
    out = []
    for k in range(0, 7 if t else 6):
        out.append(dict(name=f"texts-{k}", fn="texts", params=dict(k=k)))
    out.append(dict(name="decls-2-opts", fn="decls", params=dict(k=2, opts=True)))
    out.append(dict(name="decls-3", fn="decls", params=dict(k=3, opts=False)))
    for ref in range(4):
        for how in (0, 1, 2) if t else (0,):
            out.append(dict(name=f"decls-3-opts-{ref}-{how}", fn="decls", params=dict(k=3, opts=True, ref=ref, how=how)))
    out.append(dict(name="decls_select-2", fn="decls_select", params=dict(k=2)))
    out.append(dict(name="decls_select-3", fn="decls_select", params=dict(k=3)))
    if t:
        out.append(dict(name="decls-4", fn="decls", params=dict(k=4, opts=False)))
        out.append(dict(name="decls_select-4", fn="decls_select", params=dict(k=4)))
    for n in (1, 2):
        out.append(dict(name=f"names-{n}", fn="names", params=dict(n=n, m=0)))
    return out
