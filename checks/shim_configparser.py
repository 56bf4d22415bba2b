"""The errors of configparser without their messages, which would need concrete texts."""


class Error(Exception):
    def __init__(self, msg=""):
        Exception.__init__(self)


class ParsingError(Error):
    def __init__(self, source):
        Error.__init__(self)
        self.errors = []

    def append(self, lineno, line):
        self.errors.append((lineno, line))


class MissingSectionHeaderError(ParsingError):
    def __init__(self, filename, lineno, line):
        ParsingError.__init__(self, filename)
