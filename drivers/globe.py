"""Positions on the sphere as the specification sees them (C30-C34)."""
import math
from fractions import Fraction
from .num import big

UNIT = 10 ** 12


def fx(v):
    """Fixed-point form of a number; absurd values become an absurd number."""
    try:
        f = Fraction(v)
        n = f.numerator * UNIT
        d = f.denominator
        q = (2 * n + d) // (2 * d)
        return big(q) if abs(q) < 10 ** 60 else big(10 ** 60)
    except (OverflowError, ValueError, TypeError):
        return big(10 ** 60)


def sc(deg):
    """Sine and cosine of an angle in degrees, quarter turns exactly."""
    q = deg % 360 if abs(deg) > 360 else deg
    for k, v in ((0, (0, 1)), (90, (1, 0)), (180, (0, -1)), (270, (-1, 0)), (-90, (-1, 0)), (-180, (0, -1)),
                 (-270, (1, 0)), (360, (0, 1)), (-360, (0, 1))):
        if q == k:
            return v
    return math.sin(math.radians(q)), math.cos(math.radians(q))


def place(p):
    """p = (lon, lat) in degrees, or None if it is no position."""
    try:
        lon, lat = p
        if not (math.isfinite(lon) and math.isfinite(lat)) or abs(lat) > 90.0000001:
            raise ValueError
        so, co = sc(lon)
        sl, cl = sc(lat)
    except (TypeError, ValueError):
        return {"so": fx(9), "co": fx(9), "sl": fx(9), "cl": fx(9)}
    return {"so": fx(so), "co": fx(co), "sl": fx(sl), "cl": fx(cl)}


def vec(p):
    (so, co), (sl, cl) = sc(p[0]), sc(p[1])
    return cl * co, cl * so, sl


def real(r):
    """Observation of a number."""
    if r["k"] == "ok":
        v = r["v"]
        if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v):
            return {"k": "exc", "v": "not a number: %r" % (v,)}, 0
        return {"k": "ok", "v": ""}, v
    return {"k": r["k"], "v": str(r["v"])}, 0


def pair(r):
    """Observation of a pair of numbers."""
    if r["k"] == "ok":
        try:
            a, b = r["v"]
            if all(isinstance(x, (int, float)) and math.isfinite(x) for x in (a, b)):
                return {"k": "ok", "v": ""}, (a, b)
        except (TypeError, ValueError):
            pass
        return {"k": "exc", "v": "not a pair of numbers: %r" % (r["v"],)}, (0, 0)
    return {"k": r["k"], "v": str(r["v"])}, (0, 0)


def some_lon(rnd):
    return rnd.choice((rnd.uniform(-180, 180), rnd.uniform(-180, 180), rnd.choice((0, 90, -90, 180, -180, 45, -135, 120)),
                       float(rnd.randint(-180, 180))))


def some_lat(rnd):
    return rnd.choice((rnd.uniform(-90, 90), rnd.uniform(-90, 90), rnd.choice((0, 90, -90, 45, -45, 30)),
                       rnd.randint(-90, 90)))


def apart(u, v):
    """Angle between two positions (used to select inputs only)."""
    a, b = vec(u), vec(v)
    return 2 * math.atan2(math.dist(a, b), math.dist(a, [-x for x in b]))
