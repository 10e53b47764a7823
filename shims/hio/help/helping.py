from collections.abc import Iterable, Sequence


def isign(i):
    return 1 if i > 0 else -1 if i < 0 else 0


def sceil(r):
    return int(r) + isign(r - int(r))


def isNonStringIterable(o):
    return not isinstance(o, (str, bytes)) and isinstance(o, Iterable)


def isNonStringSequence(o):
    return not isinstance(o, (str, bytes)) and isinstance(o, Sequence)


def just(n, it, default=None):
    it = iter(it)
    for _ in range(n):
        yield next(it, default)
