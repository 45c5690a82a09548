"""Independent statement of the documented sounding formulas; None is missing."""

import math

G = 9.80616
RD = 287.04


def vapor(d):
    return None if d is None else 6.112 * math.exp(17.67 * d / (d + 243.5))


def mixing(d, p):
    if d is None or p is None:
        return None
    e = vapor(d) * (1.001 + 0.0034 * (p - 100) / 900)
    if e > p / 2:
        return None
    return 621.97 * e / (p - e)


def virtual(t, d, p):
    if t is None or p is None:
        return None
    w = mixing(d, p)
    if w is None:
        return t + 273.15
    w /= 1000
    return (t + 273.15) * (1 + w / 0.62197) / (1 + w)


def scale(tb, tt, db, dt, pb, pt):
    if None in (tb, tt, pb, pt):
        return None
    return RD / G * (virtual(tb, db, pb) + virtual(tt, dt, pt)) / 2


def height(zb, pb, pt, s):
    if None in (zb, pb, pt, s) or pb <= 0 or pt <= 0:
        return None
    return zb + s * math.log(pb / pt)


def loglin(p, p1, p2, a, b):
    if a is None or b is None:
        return None
    return a + (b - a) * math.log(p / p1) / math.log(p2 / p1)


def turn(a, b):
    """Signed shortest turn from direction a to b in (-180, 180]."""
    d = (b - a) % 360
    return d - 360 if d > 180 else d


def circ(p, p1, p2, a, b):
    if a is None or b is None:
        return None
    return (a + turn(a, b) * math.log(p / p1) / math.log(p2 / p1)) % 360
