"""C33: distances, bearings, destinations, midpoints, centroids."""
import math
from vt.core import call, coral
from .globe import fx, sc, place, vec, real, pair, some_lon, some_lat, apart

CFG = ("SPECIFICATION Spec\nINVARIANTS Frame Arrives Pythagoras ChordLaw Halves OnSphere %s\nCHECK_DEADLOCK FALSE\n")


def dist_event(co, u, v, R, same):
    res, d = real(call(co.haversine, *u, *v, R))
    back, rd = real(call(co.haversine, *v, *u, R))
    a = d / R
    return {"op": "dist", "u": place(u), "v": place(v), "res": res, "back": back, "d": fx(a), "rd": fx(rd / R),
            "ch": fx(2 * math.sin(a / 2)), "same": same, "positive": a > 0, "in": [u, v, R]}


def bearing_event(co, u, v):
    res, b = real(call(co.bearing, *u, *v))
    sb, cb = sc(b)
    return {"op": "bearing", "u": place(u), "v": place(v), "res": res, "sb": fx(sb), "cb": fx(cb), "in": [u, v]}


def goes_event(co, u, b, d, R):
    if R is None:
        res, w = pair(call(co.destination, *u, b, d))
        r0, R = real(call(co.radiusat, u[1]))
        if r0["k"] != "ok":
            res, R = r0, 1.0
    else:
        res, w = pair(call(co.destination, *u, b, d, R))
    (sb, cb), a = sc(b), d / R
    return {"op": "goes", "u": place(u), "res": res, "w": place(w), "sb": fx(sb), "cb": fx(cb), "sd": fx(math.sin(a)),
            "cd": fx(math.cos(a)), "inrange": abs(w[0]) <= 180 + 1e-9 and abs(w[1]) <= 90, "in": [u, b, d, R]}


def arrives_event(co, u, v, R):
    def go():
        return co.destination(*u, co.bearing(*u, *v), co.haversine(*u, *v, R), R)
    res, w = pair(call(go))
    return {"op": "arrives", "v": place(v), "w": place(w), "res": res, "in": [u, v, R]}


def middle_event(co, u, v):
    res, m = pair(call(co.midpoint, *u, *v))
    d = [0, 0, 0]
    if res["k"] == "ok":
        for i, (p, q) in enumerate(((u, v), (u, m), (m, v))):
            r, d[i] = real(call(co.haversine, *p, *q, 1))
            if r["k"] != "ok":
                res = r
    return {"op": "middle", "u": place(u), "v": place(v), "m": place(m), "res": res,
            "d": fx(d[0]), "d1": fx(d[1]), "d2": fx(d[2]), "in": [u, v]}


def along_event(co, u, b, a1, a2):
    def go():
        R = 1000.0
        w1 = co.destination(*u, b, a1 * R, R)
        w2 = co.destination(*u, b, (a1 + a2) * R, R)
        return [co.haversine(*u, *w1, R) / R, co.haversine(*w1, *w2, R) / R, co.haversine(*u, *w2, R) / R]
    r = call(go)
    ok = r["k"] == "ok" and all(isinstance(x, float) and math.isfinite(x) for x in r["v"])
    d = r["v"] if ok else (0, 0, 9)
    return {"op": "along", "res": {"k": "ok" if ok else "exc", "v": ""}, "d1": fx(d[0]), "d2": fx(d[1]), "d": fx(d[2]),
            "in": [u, b, a1, a2]}


def centroid_event(co, region):
    res, c = pair(call(co.geocentroid, [list(p) for p in region]))
    ks = []
    if res["k"] == "ok":
        cv = vec(c)
        for p in region:
            k = []
            for q in p:
                t = 1 + sum(a * b for a, b in zip(cv, vec(q)))
                k.append(fx(math.sqrt(2 / t)) if t > 1e-6 else fx(99))
            ks.append(k)
    return c, {"op": "centroid", "region": [[place(q) for q in p] for p in region], "c": place(c), "k": ks, "res": res,
               "in": region}


def some_region(co, rnd):
    """Polygons around a centre, given by continuous longitudes."""
    lon, lat = rnd.choice((some_lon(rnd), 175, -178)), rnd.uniform(-60, 60)
    region = []
    for k in range(rnd.choice((1, 1, 2))):
        n = rnd.randint(3, 6)
        size = rnd.uniform(4, 12)
        dx, dy = (0, 0) if k == 0 else (rnd.uniform(-18, 18), rnd.uniform(-12, 12))
        angles = sorted(rnd.uniform(0, 2 * math.pi) for _ in range(n))
        if max(b - a for a, b in zip(angles, angles[1:] + [angles[0] + 2 * math.pi])) > 2.8:
            angles = [2 * math.pi * i / n for i in range(n)]
        c = math.cos(math.radians(lat))
        region.append([(lon + dx + size * math.cos(t) / c, max(-85, min(85, lat + dy + size * math.sin(t)))) for t in angles])
    if len(region) == 2 and rnd.random() < 0.3:     # a hole
        mid = [sum(p[i] for p in region[0]) / len(region[0]) for i in (0, 1)]
        region[1] = [(mid[0] + (x - mid[0]) / 3, mid[1] + (y - mid[1]) / 3) for x, y in region[0]][::-1]
    return region


def run(chk):
    rnd = chk.rnd
    co = coral("coord")
    pr = coral("proj")
    cases = chk.export("MC_Sphere", CFG % "Export")
    rnd.shuffle(cases)
    deg = lambda p: math.degrees(math.atan2(p[0], p[1]))
    ev = []
    for lon, lat, b, d, w in cases[:chk.pick(1200, 12096)]:
        R = rnd.choice((1, 1000.0, 6371000))
        u = (deg(lon), deg(lat))
        a = math.radians(deg(d)) % (2 * math.pi)
        res, got = pair(call(co.destination, *u, deg(b), a * R, R))
        ev.append({"op": "exactly", "res": res, "w": place(got), "want": [fx(x / 625) for x in w], "in": [u, deg(b), a * R, R]})
        chk.replayed += 1
        if d[1] >= 0 and rnd.random() < 0.4:
            v = (deg(b), deg(d))
            ev.append(dist_event(co, u, v, R, u == v))
            ev.append(arrives_event(co, u, v, R))
    for i in range(chk.pick(350, 6000)):
        u = (some_lon(rnd), some_lat(rnd))
        k = rnd.random()
        same = False
        if k < 0.1:
            v, same = (u[0] + rnd.choice((0, 360)), u[1]), True
        elif k < 0.25:
            v = (u[0] + rnd.choice((180, -180)), -u[1])
        elif k < 0.35:
            h = rnd.choice((1e-6, 1e-4, 1e-2))
            v = (u[0] + rnd.choice((h, -h, 0)), max(-90, min(90, u[1] + rnd.choice((h, -h)))))
            if v == u:
                continue
        elif k < 0.45:
            v = (u[0] + rnd.choice((0, 0, 1e-3, -1e-5)), some_lat(rnd))
        elif k < 0.5:
            v = (some_lon(rnd), max(-90, min(90, u[1] + rnd.choice((0, 1e-3, -1e-5)))))
        else:
            v = (some_lon(rnd), some_lat(rnd))
        gap = apart(u, v)
        same = same or gap < 1e-15
        if not same and gap < 1e-9:
            continue
        R = rnd.choice((1, 1000.0, 6371000, 6378137.0))
        ev.append(dist_event(co, u, v, R, same))
        ev.append(arrives_event(co, u, v, R))
        ev.append(bearing_event(co, u, v))
        if gap < 3.1:
            ev.append(middle_event(co, u, v))
        if i % 4 == 0:
            ev.append(goes_event(co, u, rnd.choice((rnd.uniform(-180, 360), 0, 90, -90, 180)),
                                 rnd.choice((rnd.uniform(0, 3.14), rnd.uniform(0, 0.01), 0, math.pi / 2, rnd.uniform(-3, 0), rnd.uniform(3, 9))) * R, R))
            ev.append(goes_event(co, u, rnd.uniform(-180, 360), rnd.choice((0, 1e4, rnd.uniform(0, 2e7))), None))
            a1 = rnd.uniform(0, 2)
            ev.append(along_event(co, u, rnd.uniform(-180, 180), a1, rnd.uniform(0, math.pi - a1)))
            res, d = real(call(co.haversine, *u, *v))
            mres, mean = real(call(co.radiusat, (u[1] + v[1]) / 2))
            ev.append({"op": "earth", "res": res if mres["k"] == "ok" else mres, "d": fx(d / pr.WGS84.a), "ang": fx(gap),
                       "polar": fx(pr.WGS84.b / pr.WGS84.a), "mean": fx(mean / pr.WGS84.a),
                       "in": [u, v]})
            el = rnd.choice((None, pr.WGS84, pr.GRS80, pr.Ellipsoid(10.0, 8.0, 0.6, 0.2)))
            res, r = real(call(co.radiusat, u[1], *([el] if el else [])))
            a, b = (el or pr.WGS84)[:2]
            sl, cl = sc(u[1])
            ev.append({"op": "radius", "res": res, "rho": fx(r / a), "q": fx(b / a), "sl": fx(sl), "cl": fx(cl), "in": [u[1], a, b]})
    for i in range(chk.pick(150, 3000)):       # to a pole, where rounding leads beyond it
        u = (some_lon(rnd), rnd.choice((some_lat(rnd), rnd.uniform(-90, 90), 90, -90)))
        R = rnd.choice((1, 1000.0, 6371000))
        north = rnd.random() < 0.5
        turn = rnd.choice((0, 0, 360))
        b, d = (turn, math.radians(90 - u[1])) if north else (180 - turn, math.radians(90 + u[1]))
        ev.append(goes_event(co, u, b, d * R, R))
        ev.append(arrives_event(co, u, (rnd.choice((u[0], some_lon(rnd))), 90 if north else -90), R))
    for i in range(chk.pick(80, 1500)):
        region = some_region(co, rnd) if i else [[(-3, -3), (3, -3), (3, 3), (-3, 3)]]
        if i == 1:
            region = [[(0, 80), (90, 80), (180, 80), (-90, 80)]]
        c, e = centroid_event(co, region)
        ev.append(e)
        how = rnd.choice(("turn", "reverse", "move"))
        if how == "turn":
            other = [p[k:] + p[:k] for p in region for k in (rnd.randrange(len(p)),)]
        elif how == "reverse":
            other = [p[::-1] for p in region]
        else:
            other = [[(x + 40, y) for x, y in p] for p in region]
        res, c2 = pair(call(co.geocentroid, other))
        ev.append({"op": "same", "res": res, "c": place((c[0] + (40 if how == "move" else 0), c[1])), "c2": place(c2),
                   "in": [how, region]})
    chk.judge("T_Sphere", [ev[i:i + 6] for i in range(0, len(ev), 6)])
