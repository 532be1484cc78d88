"""Instants of a rate, by exact arithmetic (an instant is its exact time cut to whole nanoseconds towards zero)."""
from fractions import Fraction

NS = 1000000000


def at(count, rate):
    v = Fraction(abs(count) * NS) / rate
    v = v.numerator // v.denominator
    return -v if count < 0 else v


def first_not_before(ns, rate):
    """the smallest count whose instant is not before ns"""
    k = int(Fraction(ns, NS) * rate) - 3
    while at(k, rate) < ns:
        k += 1
    return k


def nearest(ns, rate):
    """counts whose instants are nearest to ns (two where it is within 2 ns or so of half way, where instants cut to nanoseconds leave it open)"""
    x = Fraction(ns, NS) * rate
    k = x.numerator // x.denominator
    best = min(abs(at(c, rate) - ns) for c in (k - 1, k, k + 1, k + 2))
    return [c for c in (k - 1, k, k + 1, k + 2) if abs(at(c, rate) - ns) <= best + 3]
