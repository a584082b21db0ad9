"""Encoding of values for the trace specification: names as injective ASCII,
naturals as little-endian base-10000 digits, percentages times 10^9."""
import math

BASE = 10000


def name(x):
    if x is None:
        return "\\N"
    if not isinstance(x, str):
        x = str(x)
    return x.encode("unicode_escape").decode("ascii").replace('"', "\\x22")


def file(x):
    """the name of a file, which is not the same as none"""
    return name(x) or "\\e"


def big(n):
    out = []
    while n:
        n, r = divmod(n, BASE)
        out.append(r)
    return out


def odd(x):
    """a value that is no natural number: something no expectation equals"""
    return [7] * (41 + (hash(repr(x)) % 5))


def nat(x):
    if x is None or isinstance(x, (float, str, bytes)):
        return odd(x)
    try:
        v = int(x)
        if v >= 0 and v == x:
            return big(v)
    except Exception:
        pass
    return odd(x)


def pct(x):
    try:
        f = float(x)
        if isinstance(x, str) or not math.isfinite(f) or f < 0:
            return odd(x)
        from fractions import Fraction
        n = round(Fraction(f) * 10 ** 9)
        return big(max(n, 100 * 10 ** 9 + 1) if f > 100 else n)
    except Exception:
        return odd(x)


def num(x):
    if x is None:
        return "none"
    try:
        return "n:" + repr(float(x))
    except Exception:
        return "x:" + name(repr(x))


def text(x):
    return "none" if x is None else "s:" + name(str(x))
