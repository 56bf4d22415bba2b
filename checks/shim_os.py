"""The part of os that is about files, over checks.shim_fs"""
import errno as _errno

from checks import shim_fs, shim_os_path

path = shim_os_path
sep = "/"
altsep = None
fspath = shim_os_path.fspath


def getcwd():
    return shim_fs.getcwd()


def listdir(path="."):
    return list(shim_fs.node(path, "dir").entries)


class DirEntry:
    def __init__(self, parent, name, node):
        self.name = name
        self.path = shim_os_path.join(parent, name)
        self._n = node

    def is_dir(self, *, follow_symlinks=True):
        return isinstance(self._n, shim_fs.Dir)

    def is_file(self, *, follow_symlinks=True):
        return not isinstance(self._n, shim_fs.Dir)

    def is_symlink(self):
        return False


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def scandir(path="."):
    return _Scan(DirEntry(path, k, n) for k, n in shim_fs.node(path, "dir").entries.items())


def walk(top, topdown=True, onerror=None, followlinks=False):
    try:
        entries = list(shim_fs.node(top, "dir").entries.items())
    except OSError as error:
        if onerror is not None:
            onerror(error)
        return
    dirs = [k for k, n in entries if isinstance(n, shim_fs.Dir)]
    files = [k for k, n in entries if not isinstance(n, shim_fs.Dir)]
    if topdown:
        yield top, dirs, files
        for d in dirs:
            yield from walk(shim_os_path.join(top, d), topdown, onerror, followlinks)
    else:
        for d in list(dirs):
            yield from walk(shim_os_path.join(top, d), topdown, onerror, followlinks)
        yield top, dirs, files


def mkdir(path, mode=0o777):
    d, name = shim_fs._parent(path)
    if name in d.entries:
        raise shim_fs._missing(path, _errno.EEXIST)
    shim_fs.STATE.writes.append(path)
    d.entries[name] = shim_fs.Dir()


def makedirs(name, mode=0o777, exist_ok=False):
    if not name:
        raise shim_fs._missing(name)
    k = shim_fs.kind(name)
    if k == "dir" and exist_ok:
        return
    if k is not None:
        raise shim_fs._missing(name, _errno.EEXIST)
    shim_fs.STATE.writes.append(name)
    shim_fs.add_dir(name)


def remove(path):
    d, name = shim_fs._parent(path)
    if name not in d.entries:
        raise shim_fs._missing(path)
    if isinstance(d.entries[name], shim_fs.Dir):
        raise shim_fs._missing(path, _errno.EISDIR)
    shim_fs.STATE.writes.append(path)
    del d.entries[name]


unlink = remove


def replace(src, dst):
    n = shim_fs.node(src, "file")
    d, name = shim_fs._parent(dst)
    remove(src)
    shim_fs.STATE.writes.append(dst)
    d.entries[name] = n


rename = replace
