"""Projections as the specification sees them (C30, C31, C32)."""
import math
from vt.core import call
from .globe import fx, sc, place, real, pair, some_lon, some_lat, apart

KINDS = ("Mercator", "EMercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic",
         "AzimuthalEquidistant", "AzimuthalEqualArea", "ConicEqualArea")
AZIMUTHAL = KINDS[5:8]
CONFORMAL = ("Mercator", "EMercator", "TransMercator", "ObliqMercator", "Stereographic")
SCALED = CONFORMAL[:4]


def some_origin(rnd, kind):
    if kind == "ConicEqualArea":
        while True:
            p = [rnd.choice((20, 60, 29.5, 45.5, -20, -33, 10, 89, -5, 0, rnd.uniform(-85, 85))) for _ in range(2)]
            if rnd.random() < 0.25:         # close to each other, or to the other's opposite
                p[1] = max(-89, min(89, p[0] * rnd.choice((1, 1, 1, -1)) + rnd.choice((0, 1, -0.5, 2.5, 0.01, 8, -8))))
            if abs(math.sin(math.radians(p[0])) + math.sin(math.radians(p[1]))) > 0.1:
                return tuple(p)
    return rnd.choice(((0, 0), (some_lon(rnd), some_lat(rnd)), (some_lon(rnd), some_lat(rnd)), (some_lon(rnd), rnd.choice((90, -90)))))


def some_model(rnd, pr, kind):
    """Earth model: constructor argument, radius, eccentricity."""
    if kind == "EMercator":
        m = rnd.choice((None, pr.WGS84, pr.GRS80, pr.Ellipsoid(10.0, 8.0, 0.6, 0.2), pr.Ellipsoid(1, 1, 0, 0)))
        e = pr.WGS84 if m is None else m
        return m, e[0], e[2]
    m = rnd.choice((None, 1, 6371000, 6378137.0, 10.5))
    return m, (pr.WGS84.a + pr.WGS84.b) / 2 if m is None else m, 0


def make(pr, kind, origin, model):
    cls = getattr(pr, kind)
    return cls(origin) if model is None else cls(origin, model)


def oblique_sine(o, p):
    (s0, c0), (s, c), (sd, _) = sc(o[1]), sc(p[1]), sc(p[0] - o[0])
    return s0 * s - c0 * c * sd


def usable(kind, o, p, margin):
    """Away from where the map tears or ends."""
    if kind in AZIMUTHAL:
        return apart(o, p) < math.pi - margin
    if kind == "ObliqMercator":
        return abs(oblique_sine(o, p)) < 1 - margin * margin / 2
    return True


def obs(r):
    """Outcome only; the numbers are logged separately."""
    return {"k": r["k"], "v": "" if r["k"] == "ok" else str(r["v"])}


def trip(prj, kind, o, p, desc=None):
    f = call(prj.geo2rect, *p)
    fwd, xy = pair(f)
    inv, q = {"k": "exc", "v": "not tried"}, (0, 0)
    if fwd["k"] == "ok":
        inv, q = pair(call(prj.rect2geo, *xy))
    return {"op": "trip", "kind": kind, "o": place(o if kind != "ConicEqualArea" else (0, 0)), "p": place(p), "q": place(q),
            "turn": kind in KINDS[:2], "inrange": abs(q[0]) <= 180 + 1e-9 and abs(q[1]) <= 90 + 1e-9,
            "fwd": fwd, "inv": inv, "in": [kind, o, desc, p]}


def partials(prj, lon, lat, r, h=1e-4):
    """Derivatives of the map by longitude and latitude (fourth order)."""
    d = math.degrees(h)

    def diff(f):
        a, b, c, e = f(-2), f(-1), f(1), f(2)
        return [(a[i] - 8 * b[i] + 8 * c[i] - e[i]) / (12 * h * r) for i in (0, 1)]

    def go():
        return (diff(lambda k: prj.geo2rect(lon + k * d, lat)), diff(lambda k: prj.geo2rect(lon, lat + k * d)))
    x = call(go)
    if x["k"] != "ok":
        return obs(x), ((0, 0), (0, 0))
    if not all(math.isfinite(v) for q in x["v"] for v in q):
        return {"k": "exc", "v": "not finite"}, ((0, 0), (0, 0))
    return obs(x), x["v"]


def local(prj, kind, op, p, r, e, desc, **kw):
    res, (dl, dp) = partials(prj, p[0], p[1], r)
    sl, cl = sc(p[1])
    ev = {"op": op, "kind": kind, "res": res, "xl": fx(dl[0]), "yl": fx(dl[1]), "xp": fx(dp[0]), "yp": fx(dp[1]),
          "sl": fx(sl), "cl": fx(cl), "e2": fx(e * e), "w": fx(math.sqrt(1 - e * e * sl * sl)), "hask": False, "k": fx(0),
          "kres": {"k": "ok", "v": ""}, "in": [kind, desc, p]}
    if kind in SCALED or kind == "ConicEqualArea":
        kres, k = real(call(prj.scale, *p))
        ev.update(hask=True, k=fx(k), kres=kres)
    ev.update(kw)
    return ev


def azimuth(prj, kind, o, p, r):
    res, (x, y) = pair(call(prj.geo2rect, *p))
    x, y = x / r, y / r
    d = math.hypot(x, y)
    return {"op": "azimuth", "kind": kind, "o": place(o), "p": place(p), "res": res, "x": fx(x), "y": fx(y), "dist": fx(d),
            "sp": fx(math.sin(d)) if math.isfinite(d) else fx(9), "cp": fx(math.cos(d)) if math.isfinite(d) else fx(9),
            "in": [kind, o, p]}


def deg(p):
    return math.degrees(math.atan2(p[0], p[1]))


CFG = "SPECIFICATION Spec\nCONSTANT Lons0=%d\nINVARIANTS OnSphere Quadrant Latitude Stereo Chord Trans %s\nCHECK_DEADLOCK FALSE\n"


def exact_cases(chk):
    for lon0, lat0, dlon, lat, abc in chk.export("MC_Maps", CFG % (chk.pick(1, 2), "Export")):
        o = (deg(lon0), deg(lat0))
        yield o, (o[0] + deg(dlon), deg(lat)), [x / 125 for x in abc]
