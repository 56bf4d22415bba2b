"""
An in-memory file tree behind open(), os, os.path, glob and shutil, for symbolic execution.
Names and contents may be symbolic. Directory listings come in the order of creation; there
are no links and no permissions.
"""
import errno as _errno


class Dir:
    def __init__(self):
        self.entries = {}


class File:
    def __init__(self, data):
        # text is that of the UTF-8 contents; bytes are for what is not UTF-8
        self.data = data


class State:
    root = None
    cwd = "/"
    # paths opened for writing, in order
    writes = []


STATE = State()


def reset(cwd):
    STATE.root = Dir()
    STATE.cwd = cwd
    STATE.writes = []
    add_dir(cwd)


def getcwd():
    return STATE.cwd


def _missing(path, what=_errno.ENOENT):
    cls = {_errno.ENOENT: FileNotFoundError, _errno.EISDIR: IsADirectoryError, _errno.ENOTDIR: NotADirectoryError, _errno.EEXIST: FileExistsError}[what]
    e = cls(what, "no such file or directory" if what == _errno.ENOENT else "error")
    e.filename = path
    return e


def _parts(path):
    if isinstance(path, bytes):
        raise NotImplementedError("bytes path")
    if not isinstance(path, str):
        f = getattr(type(path), "__fspath__", None)
        if f is None:
            raise TypeError("expected str, bytes or os.PathLike object")
        path = f(path)
    if "\0" in path:
        raise ValueError("embedded null byte")
    if not path.startswith("/"):
        path = STATE.cwd + "/" + path if path else ""
    return [p for p in path.split("/") if p and p != "."]


def _lookup(path):
    """node, or None; ".." is resolved through the tree"""
    if not path or STATE.root is None:
        return None
    stack = [STATE.root]
    for p in _parts(path):
        if p == "..":
            if not isinstance(stack[-1], Dir):
                return None
            if len(stack) > 1:
                stack.pop()
            continue
        d = stack[-1]
        if not isinstance(d, Dir) or p not in d.entries:
            return None
        stack.append(d.entries[p])
    if path.endswith("/") and not isinstance(stack[-1], Dir):
        return None
    return stack[-1]


def kind(path):
    try:
        n = _lookup(path)
    except ValueError:
        return None
    return None if n is None else "dir" if isinstance(n, Dir) else "file"


def node(path, want):
    n = _lookup(path)
    if n is None:
        raise _missing(path)
    if want == "file" and isinstance(n, Dir):
        raise _missing(path, _errno.EISDIR)
    if want == "dir" and not isinstance(n, Dir):
        raise _missing(path, _errno.ENOTDIR)
    return n


def _parent(path):
    """directory node and last name"""
    ps = _parts(path)
    if not ps:
        raise _missing(path, _errno.EISDIR)
    d = _lookup("/" + "/".join(ps[:-1]))
    if d is None:
        raise _missing(path)
    if not isinstance(d, Dir):
        raise _missing(path, _errno.ENOTDIR)
    return d, ps[-1]


def add_dir(path):
    d = STATE.root
    for p in _parts(path):
        if p not in d.entries:
            d.entries[p] = Dir()
        d = d.entries[p]
        if not isinstance(d, Dir):
            raise _missing(path, _errno.ENOTDIR)
    return d


def add_file(path, data):
    i = path.rfind("/")
    d = add_dir(path[:i])
    name = path[i + 1 :]
    assert name not in d.entries
    d.entries[name] = File(data)


def tree(path):
    """[(relative path, contents or None for a directory)], in order of creation"""
    out = []

    def rec(d, prefix):
        for name, n in d.entries.items():
            if isinstance(n, Dir):
                out.append((prefix + name, None))
                rec(n, prefix + name + "/")
            else:
                out.append((prefix + name, n.data))

    rec(node(path, "dir"), "")
    return out


class Handle:
    def __init__(self, path, node, mode, binary, encoding, errors, newline):
        self.name = path
        self.mode = mode
        self._n = node
        self._binary = binary
        self._encoding = encoding or "utf-8"
        self._errors = errors
        self._newline = newline
        self._read_ok = "r" in mode or "+" in mode
        self._write_ok = any(c in mode for c in "wax+")
        self._pos = 0
        self.closed = False
        if "a" in mode:
            self._pos = len(self._raw())

    def _raw(self):
        """contents, as text where they are the bytes of one"""
        return self._n.data

    def _text(self):
        d = self._n.data
        enc = self._encoding.lower().replace("_", "-")
        if isinstance(d, bytes):
            d = d.decode(self._encoding, self._errors or "strict")
        elif enc not in ("utf-8", "utf8"):
            # other encodings are modelled for what they have in common with UTF-8
            d = d.encode("utf-8").decode(self._encoding, self._errors or "strict")
        if self._newline is None and "\r" in d:
            d = d.replace("\r\n", "\n").replace("\r", "\n")
        return d

    def _content(self):
        if self._binary:
            d = self._n.data
            return d
        return self._text()

    def _out(self, s):
        if self._binary:
            return s if isinstance(s, bytes) else s.encode("utf-8")
        return s

    def _check(self, ok):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not ok:
            import io

            raise io.UnsupportedOperation("not readable or writable")

    def readable(self):
        return self._read_ok

    def writable(self):
        return self._write_ok

    def read(self, size=-1):
        self._check(self._read_ok)
        d = self._content()
        start = self._pos
        if size is None or size < 0:
            self._pos = len(d)
        else:
            if self._binary:
                raise NotImplementedError("read(size) of bytes")
            self._pos = min(len(d), start + size)
        return self._out(d[start : self._pos])

    def readline(self, size=-1):
        self._check(self._read_ok)
        d = self._content()
        start = self._pos
        nl = b"\n" if isinstance(d, bytes) else "\n"
        end = d.find(nl, start)
        self._pos = len(d) if end == -1 else end + 1
        return self._out(d[start : self._pos])

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def write(self, s):
        self._check(self._write_ok)
        if self._binary:
            if not isinstance(s, (bytes, bytearray)):
                raise TypeError("a bytes-like object is required")
            s = s.decode("utf-8")
        elif not isinstance(s, str):
            raise TypeError("write() argument must be str")
        d = self._raw()
        if "a" in self.mode:
            self._pos = len(d)
        if self._pos > len(d):
            raise NotImplementedError("hole in a file")
        if self._pos == len(d):
            self._n.data = d + s
        elif self._pos == 0:
            # what stays after the new contents until truncate()
            if isinstance(d, bytes):
                raise NotImplementedError("overwriting bytes")
            self._n.data = s + d[len(s) :]
        else:
            raise NotImplementedError("write within a file")
        self._pos += len(s)
        return len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def seek(self, pos, whence=0):
        if whence == 0:
            self._pos = pos
        elif whence == 2 and pos == 0:
            self._pos = len(self._raw())
        else:
            raise NotImplementedError("seek")
        return self._pos

    def tell(self):
        return self._pos

    def truncate(self, size=None):
        self._check(self._write_ok)
        if size is None:
            size = self._pos
        self._n.data = self._raw()[:size]
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    binary = "b" in mode
    kinds = [c for c in mode if c in "rwax"]
    if not kinds and "+" in mode and not binary:
        raise ValueError("Must have exactly one of create/read/write/append mode and at most one plus")
    if len(kinds) > 1 or any(c not in "rwaxbt+" for c in mode):
        raise ValueError("invalid mode")
    if not kinds:
        # as "+rb" without its letter; open() refuses it
        raise ValueError("Must have exactly one of create/read/write/append mode and at most one plus")
    k = kinds[0]
    if k == "r":
        n = node(file, "file")
        if "+" in mode:
            STATE.writes.append(file)
    else:
        STATE.writes.append(file)
        d, name = _parent(file)
        if file.endswith("/"):
            raise _missing(file, _errno.EISDIR)
        if name in d.entries:
            n = d.entries[name]
            if isinstance(n, Dir):
                raise _missing(file, _errno.EISDIR)
            if k == "x":
                raise _missing(file, _errno.EEXIST)
            if k == "w":
                n.data = ""
        else:
            n = d.entries[name] = File("")
    return Handle(file, n, mode, binary, encoding, errors, newline)
