"""Helpers shared by the property modules, child side (yade is importable)."""
import math, random


class Fail(Exception):
    """The property does not hold for this case."""


class Reject(Exception):
    """The case is outside the property's domain."""


def fail(fmt, *a):
    raise Fail(fmt % a if a else fmt)


def check(cond, fmt, *a):
    if not cond:
        raise Fail(fmt % a if a else fmt)


def close(a, b, tol):
    """|a-b| <= tol, with NaN/inf never close unless identical infinities."""
    if a == b:
        return True
    d = abs(a - b)
    return d <= tol


def vclose(u, v, tol):
    return all(close(float(x), float(y), tol) for x, y in zip(u, v))


def vec(v):
    return [float(x) for x in v]
