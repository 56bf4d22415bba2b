"""A model of glob.glob(), following Lib/glob.py"""
import re
from fnmatch import translate

from checks import shim_fs
from checks.shim_os_path import join, lexists, isdir, split

magic_check = re.compile("([*?[])")


def has_magic(s):
    return magic_check.search(s) is not None


def escape(pathname):
    return magic_check.sub(r"[\1]", pathname)


def _hidden(p):
    return p.startswith(".")


def _entries(dirname, dironly):
    try:
        d = shim_fs.node(dirname or ".", "dir")
    except OSError:
        return []
    return [k for k, n in d.entries.items() if not dironly or isinstance(n, shim_fs.Dir)]


def _filter(names, pattern):
    # fnmatch.filter, with a pattern that may be symbolic where it has no wildcards
    if all(c in "*?" or not has_magic(c) for c in pattern):
        rx = "".join("(?s:.*)" if c == "*" else "(?s:.)" if c == "?" else re.escape(c) for c in pattern)
    else:
        rx = translate(pattern)
    rx = re.compile(rx)
    return [n for n in names if rx.fullmatch(n)]


def _glob1(dirname, pattern, dironly, include_hidden=False):
    names = _entries(dirname, dironly)
    if include_hidden or not _hidden(pattern):
        names = [x for x in names if include_hidden or not _hidden(x)]
    return _filter(names, pattern)


def _glob0(dirname, basename, dironly, include_hidden=False):
    if basename:
        if lexists(join(dirname, basename)):
            return [basename]
    elif isdir(dirname):
        return [basename]
    return []


def _rlistdir(dirname, dironly, include_hidden=False):
    for x in _entries(dirname, dironly):
        if include_hidden or not _hidden(x):
            yield x
            path = join(dirname, x) if dirname else x
            for y in _rlistdir(path, dironly, include_hidden):
                yield join(x, y)


def _glob2(dirname, pattern, dironly, include_hidden=False):
    if not dirname or isdir(dirname):
        yield pattern[:0]
    yield from _rlistdir(dirname, dironly, include_hidden)


def _iglob(pathname, recursive, dironly, include_hidden=False):
    dirname, basename = split(pathname)
    if not has_magic(pathname):
        if basename:
            if lexists(pathname):
                yield pathname
        elif isdir(dirname):
            yield pathname
        return
    if not dirname:
        if recursive and basename == "**":
            yield from _glob2(dirname, basename, dironly, include_hidden)
        else:
            yield from _glob1(dirname, basename, dironly, include_hidden)
        return
    if dirname != pathname and has_magic(dirname):
        dirs = _iglob(dirname, recursive, True, include_hidden)
    else:
        dirs = [dirname]
    if has_magic(basename):
        fn = _glob2 if recursive and basename == "**" else _glob1
    else:
        fn = _glob0
    for d in dirs:
        for name in fn(d, basename, dironly, include_hidden):
            yield join(d, name)


def iglob(pathname, *, root_dir=None, dir_fd=None, recursive=False, include_hidden=False):
    assert root_dir is None and dir_fd is None
    it = list(_iglob(pathname, recursive, False, include_hidden))
    if not pathname or recursive and pathname[:2] == "**":
        if it and not it[0]:
            it = it[1:]
    return iter(it)


def glob(pathname, *, root_dir=None, dir_fd=None, recursive=False, include_hidden=False):
    return list(iglob(pathname, root_dir=root_dir, dir_fd=dir_fd, recursive=recursive, include_hidden=include_hidden))
