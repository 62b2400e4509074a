"""Shared by C05 and C06."""
from vt.core import call, coral, ji, BAD


def observe(coord, pts, scale, closed, k, how=0, wrap=None):
    def go():
        src = {0: lambda: list(pts), 1: lambda: (p for p in pts), 2: lambda: tuple(pts),
               3: lambda: iter([list(p) for p in pts])}[how]()
        if closed:
            it = coord.simplify(src, scale, True, k) if how % 2 else \
                coord.simplify(src, scale, closed=True, k=k)
        elif how == 2 and k == 8:
            it = coord.simplify(src, scale)
        else:
            it = coord.simplify(src, scale, closed=False, k=k)
        out = []
        for p in it:
            out.append(p)
            if len(out) > 4 * len(pts) + 20:
                raise RuntimeError("too many points")
        return out
    r = call(go)
    if r["k"] == "ok":
        try:
            r["v"] = [[ji(x), ji(y)] for x, y in r["v"]]
        except Exception:
            r["v"] = [[BAD, BAD]]
    else:
        r["v"] = str(r["v"])
    return {"k": r["k"], "v": r["v"]}


def walk(rnd, n, w, h, slit):
    """A random lattice path, with retraced slits and straight runs if wanted."""
    x, y = rnd.randint(0, w), rnd.randint(0, h)
    pts = [(x, y)]
    while len(pts) < n:
        k = rnd.random()
        if slit and k < 0.30 and len(pts) > 1:          # retrace some steps
            m = rnd.randint(1, min(len(pts) - 1, 6))
            for i in range(len(pts) - 2, len(pts) - 2 - m, -1):
                pts.append(pts[i])
        elif k < 0.5 and len(pts) > 1 and pts[-1] != pts[-2]:   # go on straight
            x, y = 2 * pts[-1][0] - pts[-2][0], 2 * pts[-1][1] - pts[-2][1]
            if not (-200 <= x <= 200 and -200 <= y <= 200):
                x, y = rnd.randint(0, w), rnd.randint(0, h)
            pts.append((x, y))
        elif k < 0.6:
            pts.append(pts[-1])
        elif k < 0.66 and len(pts) > 4:
            pts.append(rnd.choice(pts))
        else:
            pts.append((rnd.randint(0, w), rnd.randint(0, h)))
    return pts[:n]


def excursion(rnd, a, turn):
    """Points to go to from a and back, with about this many turning points."""
    w = [a]
    tries = 0
    while len(w) < turn + 2 and tries < 50:
        tries += 1
        c = (rnd.randint(0, 9), rnd.randint(0, 9))
        if c == w[-1]:
            continue
        if len(w) > 1:
            (ax, ay), (bx, by) = w[-2], w[-1]
            if (bx - ax) * (c[1] - by) == (by - ay) * (c[0] - bx):
                continue
        w.append(c)
    return w[1:]


def jitter(rnd, pts):
    """Real inputs that round to about these points: numerators over m, scale."""
    den = rnd.choice((1, 1, 2, 4, 8))
    scl = rnd.choice((1, 1, 2, 3, 5, 10, 50, 49, 98, 107))
    m = den * scl
    out = []
    for x, y in pts:
        q = []
        for v in (x, y):
            off = rnd.choice((0, 0, 1, -1, m // 2, -(m // 2), rnd.randint(-m, m)))
            q.append(v * m + off if m > 1 else v)
        out.append(tuple(q))
    return out, m, den, scl


def real(rnd, num, den):
    return num // den if num % den == 0 and rnd.random() < 0.6 else num / den


def rounded_event(coord, rnd, op, pts, k):
    X, m, den, scl = jitter(rnd, pts)
    if rnd.random() < 0.3:       # both signs
        X = [(-x, y) for x, y in X]
    ins = [(real(rnd, x, den), real(rnd, y, den)) for x, y in X]
    scale = scl if rnd.random() < 0.7 else float(scl)
    if rnd.random() < 0.15:      # a fractional scale
        scale, m2 = scl / 2, m
        X = [(2 * x, 2 * y) for x, y in X]
        m = m2
    return {"op": op, "pts": [list(p) for p in X], "m": m, "k": k,
            "res": observe(coord, ins, scale, op == "ring", k, rnd.randint(0, 3))}
