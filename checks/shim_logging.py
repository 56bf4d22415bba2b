"""Logging, without any output: its texts are outside the claims."""
DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50


class Logger:
    level = WARNING

    def debug(self, *args, **kwargs):
        pass

    info = warning = error = critical = exception = log = debug

    def setLevel(self, level):
        self.level = level

    def getEffectiveLevel(self):
        return self.level

    def isEnabledFor(self, level):
        return False


_root = Logger()


def getLogger(name=None):
    return _root


def basicConfig(**kwargs):
    pass


def debug(*args, **kwargs):
    pass


info = warning = error = critical = exception = debug
