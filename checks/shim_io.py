"""A model of io.StringIO (newline="\\n"), io.BytesIO and io.open(); the rest of the io module is the real one."""
from checks.shim_fs import open  # noqa: F401



class StringIO:
    def __init__(self, initial_value="", newline="\n"):
        assert newline == "\n"
        self._text = initial_value or ""
        self._pos = 0

    def readline(self, size=-1):
        if size is not None and size >= 0:
            raise NotImplementedError
        start = self._pos
        end = self._text.find("\n", start)
        self._pos = len(self._text) if end == -1 else end + 1
        return self._text[start : self._pos]

    def read(self, size=-1):
        start = self._pos
        if size is None or size < 0:
            self._pos = len(self._text)
        else:
            self._pos = min(len(self._text), start + size)
        return self._text[start : self._pos]

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if line == "":
            raise StopIteration
        return line

    def write(self, text):
        assert self._pos == len(self._text)
        self._text = self._text + text
        self._pos = len(self._text)
        return len(text)

    def getvalue(self):
        return self._text

    def seek(self, pos):
        self._pos = pos

    def tell(self):
        return self._pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


class BytesIO:
    def __init__(self, initial_bytes=b""):
        self._data = initial_bytes
        self._done = False

    def read(self, size=-1):
        if size is not None and size >= 0:
            raise NotImplementedError
        if self._done:
            return b""
        self._done = True
        return self._data

    def getvalue(self):
        return self._data

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass
