"""Objects with a truth of their own, for the utilities."""
import collections.abc
import oracle
from pandalone import utils


class EmptyButTrue(object):
    def __bool__(self):
        return True

    def __len__(self):
        return 0


class FullButFalse(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 2


class Empty(object):
    def __len__(self):
        return 0


class Full(object):
    def __len__(self):
        return 2


class Plain(object):
    """Nothing tells of its truth: true."""


class Zero(Plain):
    def __bool__(self):
        return False

    def __str__(self):
        return "yes"


KINDS = {"empty but true": EmptyButTrue, "full but false": FullButFalse, "empty": Empty, "full": Full, "plain": Plain, "false but named yes": Zero}


def obj(kind):
    return utils.obj2bool(KINDS[kind]())


def text(kind):
    return utils.str2bool(KINDS[kind]())


class Recorder(object):
    """A logger keeping its records as they'd be emitted."""

    def __init__(self):
        self.records = []

    def __getattr__(self, attr):
        return oracle.unmodelled("of loggers", attr)

    def _log(self, level, msg, args=(), *more, **kwds):
        self.log(level, msg, *args)

    def getEffectiveLevel(self):
        return 0

    def debug(self, msg, *args, **kwds):
        self.log(10, msg, *args)

    def info(self, msg, *args, **kwds):
        self.log(20, msg, *args)

    def warning(self, msg, *args, **kwds):
        self.log(30, msg, *args)

    def error(self, msg, *args, **kwds):
        self.log(40, msg, *args)

    def critical(self, msg, *args, **kwds):
        self.log(50, msg, *args)

    def log(self, level, msg, *args, **kwds):
        self.records.append((level, msg % args if args else msg))

    def isEnabledFor(self, level):
        return True


def log_writes(level, msgs):
    logger = Recorder()
    writer = utils.LoggerWriter(logger, level)
    for m in msgs:
        writer.write(m)
        writer.flush()
    return logger.records


def listed(o):
    return utils.as_list(o)


class Own(collections.abc.Sequence):
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return ("x", "y")[i]

    def __iter__(self):
        return iter(("x", "y"))


def listed_range():
    return utils.as_list(range(3))


def listed_norange():
    return utils.as_list(range(0))


def listed_bytes():
    return utils.as_list(b"ab")


def listed_nobytes():
    return utils.as_list(b"")


def listed_own():
    return utils.as_list(Own())
