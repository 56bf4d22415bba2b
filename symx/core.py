"""
Terms, path state and path exploration.

A path is explored by running the harness from the start under a prefix of branch
decisions.  Every symbolic branch asks Engine.decide(); its feasibility is decided by
interval-set propagation over single characters and by z3 for everything else, and every
assertion is decided by z3 against the full path condition.
"""
from __future__ import annotations

import random
import time

import z3

from . import charset as C

z3.set_param("model.completion", True)


class PathAbort(BaseException):
    """Ends the current path (assumption false, or budget)."""


class Infeasible(PathAbort):
    pass


class Inconclusive(PathAbort):
    pass


class StepLimit(PathAbort):
    pass


# ---------------------------------------------------------------- variables


class Var:
    __slots__ = ("i", "name", "z", "init")

    def __init__(self, i, name, init):
        self.i = i
        self.name = name
        self.init = init
        self.z = z3.Int(f"v{i}")

    def __repr__(self):
        return f"<{self.name}>"


class Off:
    """char value var+k"""

    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v = v
        self.k = k


class ZCh:
    """char with a general integer expression"""

    __slots__ = ("z", "vs", "ev", "dom", "digit")

    def __init__(self, z, vs, ev, dom=None, digit=None):
        self.z = z
        self.vs = vs
        self.ev = ev
        self.dom = dom  # a CharSet it is known to be in
        self.digit = digit  # (base, SymInt): the digit value it spells


class MapCh:
    """char obtained from a variable by piecewise constant offsets: regions [(CharSet, offset)] partition its values"""

    __slots__ = ("v", "regs", "_z")

    def __init__(self, v, regs):
        self.v = v
        self.regs = regs
        self._z = None

    @property
    def vs(self):
        return (self.v,)

    @property
    def z(self):
        if self._z is None:
            regs = sorted(self.regs, key=lambda r: len(r[0].iv))
            e = self.v.z + regs[-1][1] if regs[-1][1] else self.v.z
            for cs, k in regs[:-1]:
                e = z3.If(z_in(self.v.z, self.v.i, cs), self.v.z + k, e)
            self._z = e
        return self._z

    def ev(self, m):
        c = m[self.v.i]
        for cs, k in self.regs:
            if c in cs:
                return c + k
        raise AssertionError

    def pre(self, cs):
        out = C.EMPTY
        for d, k in self.regs:
            out = out | (d & cs.shift(-k))
        return out


def map_char(c, changed):
    """Apply to char c the mapping given by changed [(CharSet, offset)] (identity elsewhere); no fork."""
    if isinstance(c, int):
        for cs, k in changed:
            if c in cs:
                return c + k
        return c
    allch = C.EMPTY
    for cs, _ in changed:
        allch = allch | cs
    regs2 = [(~allch, 0)] + list(changed)
    if isinstance(c, Var):
        d = ENGINE.dom[c.i]
        regs = [(d & cs, k) for cs, k in regs2 if d & cs]
    elif isinstance(c, Off):
        d = ENGINE.dom[c.v.i]
        regs = [(d & cs.shift(-c.k), k + c.k) for cs, k in regs2 if d & cs.shift(-c.k)]
    elif isinstance(c, MapCh):
        d = ENGINE.dom[c.v.i]
        regs = []
        for d1, k1 in c.regs:
            for cs, k in regs2:
                r = d & d1 & cs.shift(-k1)
                if r:
                    regs.append((r, k1 + k))
    else:
        return None
    v = c if isinstance(c, Var) else c.v
    byk = {}
    for cs, k in regs:
        byk[k] = byk[k] | cs if k in byk else cs
    if len(byk) == 1:
        (k,) = byk
        return v if k == 0 else Off(v, k)
    return MapCh(v, [(cs, k) for k, cs in byk.items()])


def ch_z(c):
    if isinstance(c, int):
        return z3.IntVal(c)
    if isinstance(c, Var):
        return c.z
    if isinstance(c, Off):
        return c.v.z + c.k
    return c.z


def ch_vars(c):
    if isinstance(c, int):
        return ()
    if isinstance(c, Var):
        return (c,)
    if isinstance(c, Off):
        return (c.v,)
    return c.vs


def ch_ev(c, m):
    if isinstance(c, int):
        return c
    if isinstance(c, Var):
        return m[c.i]
    if isinstance(c, Off):
        return m[c.v.i] + c.k
    return c.ev(m)


# ---------------------------------------------------------------- terms


class Term:
    __slots__ = ()


class Atom(Term):
    __slots__ = ("v", "cs")

    def __init__(self, v, cs):
        self.v = v
        self.cs = cs

    def ev(self, m):
        return m[self.v.i] in self.cs

    def vars(self):
        return (self.v,)

    def z(self):
        return z_in(self.v.z, self.v.i, self.cs)


class ZT(Term):
    __slots__ = ("e", "vs", "f")

    def __init__(self, e, vs, f):
        self.e = e
        self.vs = vs
        self.f = f

    def ev(self, m):
        return bool(self.f(m))

    def vars(self):
        return self.vs

    def z(self):
        return self.e


class And(Term):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    def ev(self, m):
        return all(c.ev(m) for c in self.cs)

    def vars(self):
        return tuple({v.i: v for c in self.cs for v in c.vars()}.values())

    def z(self):
        return z3.And([c.z() for c in self.cs])


class Or(Term):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    def ev(self, m):
        return any(c.ev(m) for c in self.cs)

    def vars(self):
        return tuple({v.i: v for c in self.cs for v in c.vars()}.values())

    def z(self):
        return z3.Or([c.z() for c in self.cs])


_zin = {}


def z_in(z, key, cs):
    k = (key, cs)
    r = _zin.get(k)
    if r is None:
        if not cs:
            r = z3.BoolVal(False)
        else:
            inv = ~cs
            if len(cs.iv) <= len(inv.iv) + 1:
                r = z3.Or([z == a if a == b else z3.And(z >= a, z <= b) for a, b in cs.iv])
            else:
                r = z3.And([z >= 0, z <= C.MAX] + [z != a if a == b else z3.Or(z < a, z > b) for a, b in inv.iv])
        if len(_zin) > 100000:
            _zin.clear()
        _zin[k] = r
    return r


def t_and(ts):
    atoms = {}
    out = []
    stack = list(ts)
    stack.reverse()
    while stack:
        t = stack.pop()
        if t is True:
            continue
        if t is False:
            return False
        if isinstance(t, And):
            stack.extend(reversed(t.cs))
        elif isinstance(t, Atom):
            p = atoms.get(t.v.i)
            if p is None:
                atoms[t.v.i] = t
            else:
                cs = p.cs & t.cs
                if not cs:
                    return False
                atoms[t.v.i] = Atom(t.v, cs)
        else:
            out.append(t)
    out = list(atoms.values()) + out
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return And(tuple(out))


def t_or(ts):
    atoms = {}
    out = []
    stack = list(ts)
    stack.reverse()
    while stack:
        t = stack.pop()
        if t is False:
            continue
        if t is True:
            return True
        if isinstance(t, Or):
            stack.extend(reversed(t.cs))
        elif isinstance(t, Atom):
            p = atoms.get(t.v.i)
            if p is None:
                atoms[t.v.i] = t
            else:
                atoms[t.v.i] = Atom(t.v, p.cs | t.cs)
        else:
            out.append(t)
    out = list(atoms.values()) + out
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Or(tuple(out))


def t_not(t):
    if isinstance(t, bool):
        return not t
    if isinstance(t, Atom):
        return Atom(t.v, ~t.cs)
    if isinstance(t, And):
        return t_or([t_not(c) for c in t.cs])
    if isinstance(t, Or):
        return t_and([t_not(c) for c in t.cs])
    return ZT(z3.Not(t.e), t.vs, lambda m, f=t.f: not f(m))


def ch_in(c, cs):
    """Term: character c is in cs"""
    if isinstance(c, int):
        return c in cs
    if isinstance(c, Off):
        return ch_in(c.v, cs.shift(-c.k))
    if isinstance(c, Var):
        d = ENGINE.dom[c.i]
        r = d & cs
        if not r:
            return False
        if r is d:
            return True
        return Atom(c, cs)
    if isinstance(c, MapCh):
        return ch_in(c.v, c.pre(cs))
    if c.dom is not None:
        r = c.dom & cs
        if not r:
            return False
        if r is c.dom:
            return True
    return ZT(z_in(c.z, c.z.get_id(), cs), c.vs, lambda m: c.ev(m) in cs)


def ch_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return ch_in(b, C.one(a))
    if isinstance(b, int):
        return ch_in(a, C.one(b))
    if a is b:
        return True
    if isinstance(a, Var) and isinstance(b, Var):
        da, db = ENGINE.dom[a.i], ENGINE.dom[b.i]
        if not (da & db):
            return False
        if len(da.iv) == 1 and da.iv[0][0] == da.iv[0][1]:
            return ch_in(b, da)
        if len(db.iv) == 1 and db.iv[0][0] == db.iv[0][1]:
            return ch_in(a, db)
    if isinstance(a, Off) and isinstance(b, Off) and a.v is b.v:
        return a.k == b.k
    vs = tuple({v.i: v for v in ch_vars(a) + ch_vars(b)}.values())
    return ZT(ch_z(a) == ch_z(b), vs, lambda m: ch_ev(a, m) == ch_ev(b, m))


# ---------------------------------------------------------------- path state


def _simplify(t, dom):
    """-> bool or Term, under dom"""
    if isinstance(t, Atom):
        d = dom[t.v.i]
        r = d & t.cs
        if not r:
            return False
        if r is d:
            return True
        return t
    if isinstance(t, Or):
        out = []
        for c in t.cs:
            s = _simplify(c, dom)
            if s is True:
                return True
            if s is not False:
                out.append(s)
        return t_or(out)
    if isinstance(t, And):
        out = []
        for c in t.cs:
            s = _simplify(c, dom)
            if s is False:
                return False
            if s is not True:
                out.append(s)
        return t_and(out)
    # ZT
    free = None
    for v in t.vs:
        iv = dom[v.i].iv
        if len(iv) != 1 or iv[0][0] != iv[0][1]:
            if free is not None:
                return t
            free = v
    m = {v.i: dom[v.i].first() for v in t.vs}
    if free is None:
        return t.ev(m)
    d = dom[free.i]
    if d.size() <= 260:
        good = []
        for c in d:
            m[free.i] = c
            if t.ev(m):
                good.append((c, c))
        if not good:
            return False
        cs = C.mk(good)
        if cs is d:
            return True
        return Atom(free, cs)
    return t


def try_add(dom, pend, t):
    """Conjoin t. Returns (dom, pend) or None on conflict found by propagation."""
    dom = dict(dom)
    pend = list(pend)
    stack = [t]
    while True:
        changed = set()
        while stack:
            t = stack.pop()
            if t is True:
                continue
            if t is False:
                return None
            if isinstance(t, Atom):
                d = dom[t.v.i]
                r = d & t.cs
                if not r:
                    return None
                if r is not d:
                    dom[t.v.i] = r
                    changed.add(t.v.i)
            elif isinstance(t, And):
                stack.extend(t.cs)
            else:
                s = _simplify(t, dom)
                if s is True:
                    continue
                if s is False:
                    return None
                if isinstance(s, (Atom, And)):
                    stack.append(s)
                else:
                    pend.append(s)
        if not changed or not pend:
            return dom, pend
        np = []
        for p in pend:
            if any(v.i in changed for v in p.vars()):
                s = _simplify(p, dom)
                if s is False:
                    return None
                if s is True:
                    continue
                if isinstance(s, (Atom, And)):
                    stack.append(s)
                else:
                    np.append(s)
            else:
                np.append(p)
        pend = np
        if not stack:
            return dom, pend


class Stats:
    FIELDS = (
        "paths aborted inconclusive steplimit decisions z3_queries z3_unknown asserts asserts_folded asserts_z3 "
        "branch_z3 branch_dom verdicts concretised unsupported"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.z3_time = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["z3_time"] = round(self.z3_time, 3)
        return d


_solver = None
_uses = 0


def solver():
    """One z3 process-wide solver, renewed now and then"""
    global _solver, _uses
    _uses += 1
    if _solver is None or _uses % 2000 == 0:
        _solver = z3.SimpleSolver()
        _solver.set("timeout", Engine.Z3_TIMEOUT)
    return _solver


class Engine:
    MAX_DECISIONS = 20000
    Z3_TIMEOUT = 20000

    def __init__(self):
        self.stats = Stats()
        self.active = False
        self.dom = {}

    # -------- one path

    def start(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.dom = {}
        self.vars = []
        self.pend = []
        self.model = dict(model) if model else {}
        self.work = []  # new (prefix, model)
        self.inputs = {}
        self.notes = []
        self.violations = []
        self.obs = []
        self.labels = set()
        self.raw = []  # branch and assumption terms as taken, before propagation
        self.asserted = []
        self.live = len(prefix) == 0
        self.active = True

    def new_var(self, name, cs):
        v = Var(len(self.vars), name, cs)
        self.vars.append(v)
        self.dom[v.i] = cs
        if v.i not in self.model:
            self.model[v.i] = cs.first()
        return v

    def replaying(self):
        return self.pos < len(self.prefix)

    def _patch(self, dom, model):
        m = dict(model)
        for i, d in dom.items():
            if m[i] not in d:
                m[i] = d.first()
        return m

    def solve(self, dom, pend, extra=None):
        """z3: model of dom & pend (& extra), or None; raises Inconclusive."""
        s = solver()
        s.push()
        try:
            return self._solve(s, dom, pend, extra)
        finally:
            s.pop()

    def _solve(self, s, dom, pend, extra):
        terms = list(pend)
        if extra is not None:
            terms.append(extra)
        used = {}
        for t in terms:
            for v in t.vars():
                used[v.i] = v
            s.add(t.z())
        for i, v in used.items():
            s.add(z_in(v.z, i, dom[i]))
        t0 = time.perf_counter()
        r = s.check()
        self.stats.z3_time += time.perf_counter() - t0
        self.stats.z3_queries += 1
        if r == z3.unsat:
            return None
        if r != z3.sat:
            self.stats.z3_unknown += 1
            raise Inconclusive("z3: " + s.reason_unknown())
        zm = s.model()
        m = {}
        for i, d in dom.items():
            if i in used:
                m[i] = zm.eval(used[i].z, model_completion=True).as_long()
            else:
                m[i] = self.model.get(i) if self.model.get(i) in d else d.first()
        return m

    def feasible(self, t):
        """model of path & t, or None"""
        r = try_add(self.dom, self.pend, t)
        if r is None:
            self.stats.branch_dom += 1
            return None
        dom, pend = r
        m = self._patch(dom, self.model)
        if all(p.ev(m) for p in pend):
            self.stats.branch_dom += 1
            return m
        self.stats.branch_z3 += 1
        return self.solve(dom, pend)

    def _commit(self, t):
        r = try_add(self.dom, self.pend, t)
        if r is None:
            raise Infeasible("commit")
        self.dom, self.pend = r

    def decide(self, t):
        if t is True or t is False:
            return t
        t = _simplify(t, self.dom)
        if t is True or t is False:
            return t
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert isinstance(d, bool), "nondeterministic replay"
            self.pos += 1
            self.decisions.append(d)
            t = t if d else t_not(t)
            self.raw.append(t)
            self._commit(t)
            return d
        self.stats.decisions += 1
        if len(self.decisions) > self.MAX_DECISIONS:
            raise StepLimit("decisions")
        d = t.ev(self.model)
        nt = t_not(t)
        other = nt if d else t
        m2 = self.feasible(other)
        if m2 is not None:
            self.work.append((tuple(self.decisions) + (not d,), m2))
        self.decisions.append(d)
        self.pos += 1
        self.prefix = self.decisions  # keep pos == len
        t = t if d else nt
        self.raw.append(t)
        self._commit(t)
        return d

    def choose_value(self, ev):
        """A value picked from the current model, the same on replay."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert isinstance(d, tuple), "nondeterministic replay"
            self.pos += 1
            self.decisions.append(d)
            return d[0]
        v = ev(self.model)
        self.decisions.append((v,))
        self.pos += 1
        self.prefix = self.decisions
        return v

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise Infeasible("assume")
            return
        self.raw.append(t)
        t = _simplify(t, self.dom)
        if t is True:
            return
        if t is False:
            raise Infeasible("assume")
        if self.pos < len(self.prefix):
            self._commit(t)
            return
        if not t.ev(self.model):
            m = self.feasible(t)
            if m is None:
                raise Infeasible("assume")
            self.model = m
        self._commit(t)

    def check(self, t, label):
        """Decide path => t.  Records a counterexample model if not."""
        self.labels.add(label)
        if not isinstance(t, bool):
            self.asserted.append((label, t))
        if self.pos < len(self.prefix):
            # already decided by the run that forked this prefix
            if self.prefix[self.pos] == "violated":
                self.pos += 1
                self.decisions.append("violated")
                self.assume(t)
            return
        self.stats.asserts += 1
        if not isinstance(t, bool):
            t = _simplify(t, self.dom)
        if t is True:
            self.stats.asserts_folded += 1
            return
        if t is False:
            self.violations.append((label, dict(self.model)))
            raise PathAbort("violated")
        nt = t_not(t)
        self.stats.asserts_z3 += 1
        if not t.ev(self.model):
            m = dict(self.model)
        else:
            m = self.solve(self.dom, self.pend, nt)
        if m is not None:
            self.violations.append((label, m))
            # continue under the assertion, to look for further ones
            self.assume(t)
            self.decisions.append("violated")
            self.pos += 1
            self.prefix = self.decisions

    def verdict(self):
        """
        At the end of a path: z3 decides, from the branch terms as taken (not from the propagated
        domains), that the path is feasible and that no value on it falsifies an assertion.
        """
        for t in self.raw:
            if not t.ev(self.model):
                raise AssertionError("the path's model does not satisfy its branch terms")
        t0 = time.perf_counter()
        s = solver()
        s.push()
        try:
            for v in self.vars:
                s.add(z_in(v.z, v.i, v.init))
            for t in self.raw:
                s.add(t.z())
            s.add(z3.Not(z3.And([t.z() for _, t in self.asserted] + [z3.BoolVal(True)])))
            r = s.check()
            zm = s.model() if r == z3.sat else None
        finally:
            s.pop()
        self.stats.z3_queries += 1
        self.stats.verdicts += 1
        self.stats.z3_time += time.perf_counter() - t0
        if r == z3.unsat:
            return
        if r != z3.sat:
            self.stats.z3_unknown += 1
            raise Inconclusive("z3: " + s.reason_unknown())
        m = {v.i: zm.eval(v.z, model_completion=True).as_long() for v in self.vars}
        label = next((lb for lb, t in self.asserted if not t.ev(m)), "assertion")
        self.violations.append((label, m))

    def end_model(self, rnd=None):
        """A model of the complete path condition, from z3 when it is not a product of domains."""
        if rnd is not None:
            m = dict(self.model)
            used = {v.i for p in self.pend for v in p.vars()}
            for i, d in self.dom.items():
                if i not in used:
                    m[i] = d.pick(rnd)
            return m
        return dict(self.model)


ENGINE = Engine()
