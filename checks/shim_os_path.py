"""A model of os.path (POSIX) over the file tree of checks.shim_fs; the string functions follow Lib/posixpath.py."""
from checks import shim_fs

sep = "/"
altsep = None
curdir = "."
pardir = ".."
extsep = "."
pathsep = ":"
supports_unicode_filenames = False


def fspath(path):
    if isinstance(path, (str, bytes)):
        return path
    f = getattr(type(path), "__fspath__", None)
    if f is None:
        raise TypeError("expected str, bytes or os.PathLike object")
    return f(path)


def normcase(s):
    return fspath(s)


def isabs(s):
    return fspath(s).startswith("/")


def join(a, *p):
    path = fspath(a)
    for b in map(fspath, p):
        if b.startswith("/"):
            path = b
        elif not path or path.endswith("/"):
            path += b
        else:
            path += "/" + b
    return path


def split(p):
    p = fspath(p)
    i = p.rfind("/") + 1
    head, tail = p[:i], p[i:]
    if head and head != "/" * len(head):
        head = head.rstrip("/")
    return head, tail


def splitext(p):
    p = fspath(p)
    sep_index = p.rfind("/")
    dot_index = p.rfind(".")
    if dot_index > sep_index:
        filename_index = sep_index + 1
        while filename_index < dot_index:
            if p[filename_index : filename_index + 1] != ".":
                return p[:dot_index], p[dot_index:]
            filename_index += 1
    return p, p[:0]


def basename(p):
    p = fspath(p)
    return p[p.rfind("/") + 1 :]


def dirname(p):
    return split(p)[0]


def normpath(path):
    path = fspath(path)
    if not path:
        return "."
    initial = path.startswith("/")
    if initial and path.startswith("//") and not path.startswith("///"):
        initial = 2
    new = []
    for comp in path.split("/"):
        if not comp or comp == ".":
            continue
        if comp != ".." or (not initial and not new) or (new and new[-1] == ".."):
            new.append(comp)
        elif new:
            new.pop()
    path = "/".join(new)
    if initial:
        path = "/" * int(initial) + path
    return path or "."


def abspath(path):
    path = fspath(path)
    if not path.startswith("/"):
        path = join(shim_fs.getcwd(), path)
    return normpath(path)


def realpath(path, *, strict=False):
    return abspath(path)


def relpath(path, start=None):
    path = fspath(path)
    if not path:
        raise ValueError("no path specified")
    start = "." if start is None else fspath(start)
    start_list = [x for x in abspath(start).split("/") if x]
    path_list = [x for x in abspath(path).split("/") if x]
    i = 0
    while i < len(start_list) and i < len(path_list) and start_list[i] == path_list[i]:
        i += 1
    rel_list = [".."] * (len(start_list) - i) + path_list[i:]
    return "/".join(rel_list) if rel_list else "."


def commonprefix(m):
    if not m:
        return ""
    m = list(m)
    s = m[0]
    for t in m[1:]:
        i = 0
        while i < len(s) and i < len(t) and s[i] == t[i]:
            i += 1
        s = s[:i]
    return s


def commonpath(paths):
    paths = [fspath(p) for p in paths]
    if not paths:
        raise ValueError("commonpath() arg is an empty sequence")
    absolute = [p.startswith("/") for p in paths]
    if any(absolute) and not all(absolute):
        raise ValueError("Can't mix absolute and relative paths")
    split_paths = [[c for c in path.split("/") if c and c != "."] for path in paths]
    common = split_paths[0]
    for s in split_paths[1:]:
        i = 0
        while i < len(common) and i < len(s) and common[i] == s[i]:
            i += 1
        common = common[:i]
    return ("/" if absolute[0] else "") + "/".join(common)


def isdir(s):
    return shim_fs.kind(s) == "dir"


def isfile(path):
    return shim_fs.kind(path) == "file"


def exists(path):
    return shim_fs.kind(path) is not None


lexists = exists


def islink(path):
    return False


def ismount(path):
    return False


def samefile(a, b):
    return abspath(a) == abspath(b)


def expanduser(path):
    if path.startswith("~"):
        raise NotImplementedError("expanduser")
    return path


def getsize(path):
    return len(shim_fs.node(path, want="file").data)
