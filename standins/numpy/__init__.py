"""Minimal stand-in for the part of numpy used by openquake.commonlib
(numpy itself does not exist for Jython)."""
from numpy import testing       # noqa


def zeros(shape, dtype=float):
    if isinstance(shape, int):
        return [0.0] * shape
    return [zeros(shape[1:]) for _ in range(shape[0])]


def array(x, dtype=None):
    return list(x)


class RandomState(object):
    pass
