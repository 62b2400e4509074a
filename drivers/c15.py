"""C15: generic geometry of shapes."""
import io
from vt.core import coral, call
from .shp import TYPES, POINTS, LINES, MULTI, encode


def flat(rnd):
    """A closed ring around nothing."""
    x, y, dx, dy = (rnd.randint(-20, 20) for _ in range(4))
    ks = [0] + [rnd.randint(-5, 5) for _ in range(rnd.choice((2, 3, 4)))] + [0]
    return [(x + k * dx, y + k * dy) for k in ks]


def ring(rnd, cw, kind=None):
    """A closed ring with integer points and this orientation."""
    while True:
        x, y = rnd.randint(-50, 50), rnd.randint(-50, 50)
        if kind == "square":
            pts = [(x, y), (x, y + 3), (x + 3, y + 3), (x + 3, y)]
        else:
            pts = [(x + rnd.randint(-9, 9), y + rnd.randint(-9, 9)) for _ in range(rnd.choice((3, 3, 4, 5, 8)))]
            if rnd.random() < 0.03:
                pts = [(x + rnd.randint(-99, 99), y + rnd.randint(-99, 99)) for _ in range(rnd.choice((40, 70, 300)))]
        pts.append(pts[0])
        a = sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(pts, pts[1:]))
        if a:
            return pts if (a < 0) == cw else pts[::-1]


def nest(x, sc):
    if isinstance(x, (list, tuple)) or hasattr(x, "tolist"):
        return [nest(v, sc) for v in x]
    x = x / sc if isinstance(x, (int, float)) else None
    return int(x) if isinstance(x, (int, float)) and int(x) == x else 99999


def view(sh, sc):
    r = call(lambda: sh.__geo_interface__)
    if r["k"] != "ok":
        return {"k": r["k"], "v": str(r["v"])}
    try:
        return {"k": "ok", "v": {"type": str(r["v"]["type"]), "coords": nest(r["v"]["coordinates"], sc)}}
    except Exception as e:
        return {"k": "exc", "v": "no geometry: %s" % type(e).__name__}


def shapes(sf, t, lists):
    """Shapes of one type with these parts at these scales, as read from a file."""
    shp, shx = encode(t, [(t, [[(p[0] * sc, p[1] * sc, 0, 0) for p in part] for part in parts]) for parts, sc in lists])
    return sf.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx)).shapes()


def event(t, parts, sc, sh):
    cls = "point" if t in POINTS else "multipoint" if t in MULTI else "line" if t in LINES else "polygon"
    if cls == "multipoint":
        parts = [[p for part in parts for p in part]]
    return {"op": "view", "cls": cls, "parts": [[list(p) for p in part] for part in parts], "res": view(sh, sc), "in": [t, sc]}


def run(chk):
    sf = coral("shapefile")
    rnd = chk.rnd
    ev = []
    jobs = {t: [] for t in TYPES if t != 31}
    for rings, want in chk.export("MC_Rings", "SPECIFICATION Spec\nCONSTANT MaxRings=%d\nINVARIANTS Grouped Complete Holes Export\n"
                                  "CHECK_DEADLOCK FALSE\n" % chk.pick(7, 10)):
        jobs[rnd.choice((5, 15, 25))].append(([ring(rnd, cw, "square") for cw in rings], 1))
        chk.replayed += 1
    for i in range(chk.pick(700, 9000)):
        t = rnd.choice(sorted(jobs) + [5, 5, 15, 25])
        n = rnd.choice((1, 1, 2, 3, 4, 7))
        if t in POINTS:
            parts = [[(rnd.randint(-99, 99), rnd.randint(-99, 99))]]
        elif t in LINES or t in MULTI:
            parts = [[(rnd.randint(-99, 99), rnd.randint(-99, 99)) for _ in range(rnd.choice((2, 2, 3, 6)))] for _ in range(n)]
        else:
            parts = [ring(rnd, rnd.random() < 0.5) for _ in range(n)]
            if rnd.random() < 0.2:
                parts[rnd.randrange(n)] = flat(rnd)
            if rnd.random() < 0.2 and len(parts) > 1:
                parts[-1] = parts[0]
        jobs[t].append((parts, rnd.choice((1, 1, 1, 2 ** -30, 2.0 ** 30, 0.125))))
    for t in sorted(jobs):
        r = call(shapes, sf, t, jobs[t], secs=60)
        if r["k"] != "ok" or len(r["v"]) != len(jobs[t]):
            chk.violation("shapes-readable", {"type": t, "got": str(r)[:300]})
            continue
        ev += [event(t, parts, sc, sh) for (parts, sc), sh in zip(jobs[t], r["v"])]
    rnd.shuffle(ev)
    chk.judge("T_Geo", [ev[i:i + 25] for i in range(0, len(ev), 25)])
