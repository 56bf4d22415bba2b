"""
Runs a harness on concrete inputs against the real, uninstrumented code of /repo.
stdin: JSON {"module":..., "cases":[[name, params]...], "known":[...], "runs":[{"case":i,"inputs":{..}}]}
stdout: JSON list of {"status": ok|violated|exception|timeout|skip, "label":..., "obs":[...], "tb":...}
"""
import dataclasses
import enum
import importlib
import json
import logging
import os
import re
import shutil
import signal
import sys
import tempfile
import traceback

logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.abspath(__file__))


class Violated(BaseException):
    pass


class Skip(BaseException):
    pass


class TO(BaseException):
    pass


def match_alpha(s, a):
    if a.startswith("re:"):
        return all(re.fullmatch(a[3:], c, re.DOTALL) for c in s)
    named = {
        "scalar": lambda c: not 0xD800 <= ord(c) <= 0xDFFF,
        "nonnul": lambda c: c != "\0" and not 0xD800 <= ord(c) <= 0xDFFF,
        "any": lambda c: True,
        "ascii": lambda c: ord(c) < 128,
        "print": lambda c: 32 <= ord(c) < 127,
        "text": lambda c: c in "\t\n" or 32 <= ord(c) < 127,
    }
    if a in named:
        return all(map(named[a], s))
    if a.startswith("scalar-"):
        return all(c not in a[7:] and named["scalar"](c) for c in s)
    return all(c in a for c in s)


# ---------------------------------------------------------------- files

SCRATCH = [None]
WRITES = []
ORDER = {}
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_GUARD = [False]


def _inside(path):
    if isinstance(path, int) or path is None:
        return True
    path = os.path.abspath(os.fsdecode(path))
    return path == os.devnull or (SCRATCH[0] is not None and (path + "/").startswith(SCRATCH[0] + "/"))


def audit(event, args):
    """The code under test may write only in the scratch directory, and starts no processes."""
    if not _GUARD[0]:
        return
    if event == "open":
        path, mode, flags = args
        if flags & _WRITE:
            if not _inside(path):
                raise PermissionError(f"write outside of the scratch directory: {path}")
            if not isinstance(path, int):
                WRITES.append(path)
    elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.rename", "os.link", "os.symlink"):
        for path in args[: 2 if event in ("os.rename", "os.link", "os.symlink") else 1]:
            if not _inside(path):
                raise PermissionError(f"{event} outside of the scratch directory: {path}")
        WRITES.append(args[0])
    elif event in ("os.system", "os.exec", "os.fork", "os.kill", "os.posix_spawn", "subprocess.Popen", "os.killpg"):
        raise PermissionError(event)


class Scan:
    """os.scandir() in the order in which the harness created the entries"""

    def __init__(self, path="."):
        with _scandir(path) as it:
            es = list(it)
        order = [] if isinstance(path, int) else ORDER.get(os.path.abspath(path), [])
        es.sort(key=lambda e: (order.index(e.name), "") if e.name in order else (len(order), e.name))
        self.it = iter(es)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


_scandir = os.scandir


class FS:
    def __init__(self, files):
        guard, _GUARD[0] = _GUARD[0], False
        cleanup()
        SCRATCH[0] = tempfile.mkdtemp(prefix="vpfs-")
        self.root = SCRATCH[0] + "/r"
        os.mkdir(self.root)
        os.chdir(self.root)
        ORDER.clear()
        for path, data in files:
            self.add(path, data)
        WRITES.clear()
        _GUARD[0] = guard

    def add(self, path, data):
        guard, _GUARD[0] = _GUARD[0], False
        path = self.path(path)
        parts = os.path.relpath(path, SCRATCH[0]).split("/")
        d = SCRATCH[0]
        for p in parts:
            o = ORDER.setdefault(d, [])
            if p not in o:
                o.append(p)
            d += "/" + p
        if data is None:
            os.makedirs(path, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "xb") as f:
                f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
        _GUARD[0] = guard

    def path(self, rel):
        return self.root + "/" + rel

    def rel(self, path):
        if path is None or not path.startswith(self.root + "/"):
            return path
        return path[len(self.root) + 1 :]

    def read(self, rel):
        if not os.path.isfile(self.path(rel)):
            return None
        with open(self.path(rel), "rb") as f:
            data = f.read()
        try:
            return data.decode("utf-8")
        except UnicodeDecodeError:
            return data

    def tree(self, rel=""):
        out = {}

        def rec(d, prefix):
            for e in Scan(d):
                out[prefix + e.name] = None if e.is_dir() else self.read(os.path.relpath(e.path, self.root))
                if e.is_dir():
                    rec(e.path, prefix + e.name + "/")

        if os.path.isdir(self.path(rel)):
            rec(self.path(rel), "")
        return out

    def written(self):
        return len(WRITES) > 0


def cleanup():
    if SCRATCH[0] is not None:
        os.chdir("/")
        shutil.rmtree(SCRATCH[0], ignore_errors=True)
        SCRATCH[0] = None


class Conc:
    concrete = True

    def fs(self, files):
        return FS(files)

    def __init__(self, inputs, known):
        self.i = inputs
        self._known = known
        self._obs = []

    def str(self, name, n, alpha="scalar"):
        if name in self.i:
            return self.i[name]
        # not reached where the inputs come from: any value in the range
        for c in map(chr, [*range(97, 123), *range(32, 0x3000), *range(32)]):
            if match_alpha(c, alpha):
                return c * n
        return (alpha[0] if alpha else "a") * n

    def choice(self, name, n):
        if isinstance(n, (list, tuple)):
            return n[self.choice(name, len(n))]
        return self.i.get(name, 0)

    def int(self, name, lo, hi):
        return self.i.get(name, lo)

    def flag(self, name):
        return self.choice(name, 2) == 1

    def assume(self, cond):
        if not cond:
            raise Skip()

    def known(self, kid, cond):
        if kid in self._known and cond:
            raise Skip()

    def check(self, cond, label):
        if not cond:
            raise Violated(label)

    def check_eq(self, a, b, label):
        if not a == b:
            raise Violated(label)

    def eq(self, a, b):
        return a == b

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def inset(self, ch, alpha):
        assert len(ch) == 1
        return match_alpha(ch, alpha)

    def only(self, s, alpha):
        return match_alpha(s, alpha)

    def none(self, s, alpha):
        return not any(match_alpha(c, alpha) for c in s)

    def obs(self, name, v):
        self._obs.append([name, canon(v)])

    def fail(self, label):
        raise Violated(label)

    def reject(self):
        raise Skip()


def canon(x):
    if isinstance(x, enum.Enum):
        return ["enum", x.name]
    if isinstance(x, float):
        return ["float", repr(x)]
    if isinstance(x, (str, int, type(None), bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return ["dict", [[canon(k), canon(v)] for k, v in x.items()]]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((canon(y) for y in x), key=repr)]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [type(x).__name__, [[f.name, canon(getattr(x, f.name))] for f in dataclasses.fields(x)]]
    if isinstance(x, BaseException):
        return ["exc", type(x).__name__]
    return ["obj", type(x).__name__]


def run_one(fn, params, inputs, known, timeout):
    x = Conc(inputs, known)

    def onalarm(*_):
        raise TO()

    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    r = {}
    try:
        _GUARD[0] = True
        fn(x, **params)
        r["status"] = "ok"
    except Violated as e:
        r.update(status="violated", label=e.args[0])
    except Skip:
        r["status"] = "skip"
    except TO:
        r.update(status="timeout", label="nontermination")
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
            raise
        r.update(
            status="exception",
            label=f"unexpected {type(e).__name__}",
            tb="".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _GUARD[0] = False
        cleanup()
    r["obs"] = x._obs
    return r


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(os.environ.get("VP_REPO", "/repo"), "python"))
    sys.path.insert(1, os.path.dirname(HERE))
    if len(sys.argv) > 1:
        # a replay file written by a check
        job = json.load(open(sys.argv[1]))
        show = True
    else:
        job = json.load(sys.stdin)
        show = False
    sys.addaudithook(audit)
    os.scandir = Scan
    mod = importlib.import_module(job["module"])
    out = []
    real_out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        for run in job["runs"]:
            fn = getattr(mod, run["fn"])
            out.append(run_one(fn, run["params"], run["inputs"], set(job.get("known", [])), job.get("timeout", 10)))
    finally:
        sys.stdout = real_out
    json.dump(out, sys.stdout, indent=1 if show else None)
    if show:
        print()
        sys.exit(0 if all(r["status"] in ("ok", "skip") for r in out) else 1)


if __name__ == "__main__":
    main()
