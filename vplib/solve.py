"""Calling the heuristics of /repo through their public registry."""
import contextlib
import io

_CACHE = {}

NO_MIN_K = ("sn", "pn", "ty", "lr3o")


def algorithm(abbr):
    """the (abbr, name, description, call) entry of the registry"""
    if abbr not in _CACHE:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            from verypy import get_algorithms
            found = get_algorithms([abbr])
        if len(found) != 1:
            raise RuntimeError("algorithm %r is not available" % abbr)
        _CACHE[abbr] = found[0]
    return _CACHE[abbr]


def preload(abbrs):
    for a in abbrs:
        try:
            algorithm(a)
        except Exception:  # noqa - the cases of this algorithm report it
            pass


def solve(ctx, abbr, args, single, minimize_K):
    points, D, d, C, L, st, wtt = args
    return ctx.call(algorithm(abbr)[3], points, D, d, C, L, st, wtt, single, minimize_K)
