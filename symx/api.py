"""The harness API in symbolic mode (see replay.py for the concrete twin)."""
from __future__ import annotations

import importlib
import sys

from . import charset as C
from . import rt
from .core import ENGINE, Infeasible, PathAbort, t_and, t_not, t_or
from .strs import SymInt, SymStr, mkbool, mkstr, term, toint

ALPHABETS = {
    "scalar": C.SCALAR,
    "nonnul": C.NONNUL,
    "any": C.ALL,
    "ascii": C.mk([(0, 127)]),
    "print": C.mk([(32, 126)]),
    "text": C.mk([(9, 10), (32, 126)]),
}


def alphabet(a):
    if isinstance(a, C.CharSet):
        return a
    if a in ALPHABETS:
        return ALPHABETS[a]
    if a.startswith("re:"):
        return C.from_regex(a[3:])
    if a.startswith("scalar-"):
        return C.SCALAR - C.chars(a[7:])
    return C.chars(a)


class FS:
    root = "/vfs/r"

    def __init__(self, files):
        self.m = importlib.import_module("checks.shim_fs")
        self.m.reset(self.root)
        for path, data in files:
            self.add(path, data)

    def add(self, path, data):
        path = self.path(path)
        if data is None:
            self.m.add_dir(path)
        else:
            self.m.add_file(path, data)

    def path(self, rel):
        return self.root + "/" + rel

    def rel(self, path):
        """a path without the root, if it is below it"""
        if path is None or len(path) <= len(self.root) or path[: len(self.root) + 1] != self.root + "/":
            return path
        return path[len(self.root) + 1 :]

    def read(self, rel):
        """text of a file, or None"""
        if self.m.kind(self.path(rel)) != "file":
            return None
        return self.m.node(self.path(rel), "file").data

    def tree(self, rel=""):
        """{path: text, or None for a directory}"""
        if self.m.kind(self.path(rel)) != "dir":
            return rt.SymDict()
        return rt.SymDict(self.m.tree(self.path(rel)))

    def written(self):
        """whether any file was opened for writing, or created"""
        return len(self.m.STATE.writes) > 0


class Sym:
    concrete = False

    def __init__(self, known):
        self._known = known
        fs = sys.modules.get("checks.shim_fs")
        if fs is not None:
            fs.STATE.root = None

    def fs(self, files):
        """
        A new file tree, with directories in the order of creation; the working directory is its root.
        files: [(path relative to the root, contents, or None for a directory)]
        """
        return FS(files)

    def str(self, name, n, alpha="scalar"):
        cs = alphabet(alpha)
        out = []
        for i in range(n):
            v = ENGINE.new_var(f"{name}[{i}]", cs)
            out.append(v)
        s = mkstr(out)
        ENGINE.inputs[name] = s
        return s

    def choice(self, name, n):
        if isinstance(n, (list, tuple)):
            return n[self.choice(name, len(n))]
        v = ENGINE.new_var(name, C.mk([(0, n - 1)]))
        s = toint(v)
        ENGINE.inputs[name] = s
        return s.__index__() if n > 1 else 0

    def int(self, name, lo, hi):
        """symbolic, not forked"""
        assert 0 <= lo <= hi <= C.MAX
        v = ENGINE.new_var(name, C.mk([(lo, hi)]))
        s = toint(v)
        ENGINE.inputs[name] = s
        return s

    def flag(self, name):
        return self.choice(name, 2) == 1

    def assume(self, cond):
        ENGINE.assume(term(cond))

    def known(self, kid, cond):
        """Exclude the inputs of a listed known finding"""
        if kid in self._known:
            ENGINE.assume(t_not(term(cond)))

    def check(self, cond, label):
        ENGINE.check(term(cond), label)

    def check_eq(self, a, b, label):
        ENGINE.check(rt.deep_eq(a, b), label)

    def eq(self, a, b):
        return mkbool(rt.deep_eq(a, b))

    def all(self, conds):
        return mkbool(t_and([term(c) for c in conds]))

    def any(self, conds):
        return mkbool(t_or([term(c) for c in conds]))

    def implies(self, a, b):
        return mkbool(t_or([t_not(term(a)), term(b)]))

    def inset(self, ch, alpha):
        """ch (length 1) is in an alphabet; no fork"""
        from .core import ch_in
        from .strs import chs

        (c,) = chs(ch)
        return mkbool(ch_in(c, alphabet(alpha)))

    def only(self, s, alpha):
        """all chars of s in the alphabet; no fork"""
        from .core import ch_in
        from .strs import chs

        cs = alphabet(alpha)
        return mkbool(t_and([ch_in(c, cs) for c in chs(s)]))

    def none(self, s, alpha):
        from .core import ch_in
        from .strs import chs

        cs = ~alphabet(alpha)
        return mkbool(t_and([ch_in(c, cs) for c in chs(s)]))

    def obs(self, name, v):
        ENGINE.obs.append((name, v))

    def fail(self, label):
        ENGINE.check(False, label)
        raise PathAbort("failed")

    def reject(self):
        raise Infeasible("reject")
