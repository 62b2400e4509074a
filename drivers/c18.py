"""C18: filled polygons."""
import random
from . import ras


def fill(polys, v, empty=False):
    def draw(c):
        scans = c.scanpolygon([]) if empty else None
        for p in polys:
            scans = c.scanpolygon([tuple(q) for q in p], scans)
        c.fillpolygons(scans, v)
    return draw


def ink(kind, bg, fg, rnd):
    """What to paint with, and the value of a pixel painted so once: with an
    opacity, a pixel painted twice looks different."""
    v = ras.val(kind, fg)
    if kind == "bw" or rnd.random() < 0.5:
        return bg, v, fg
    bg, fg = rnd.choice((([0], [200]), ([250], [10]))) if kind == "gray" else ([0, 250, 9], [200, 40, 255])
    v = (tuple(fg) if kind == "color" else (fg[0],)) + (rnd.choice((0.25, 0.5, 0.625)),)

    def once(c):
        c[0, 0] = v
    r = ras.painted(kind, 1, 1, bg, once)
    return bg, v, r["v"][0][2] if r["k"] == "ok" and r["v"] else fg


def fevent(kind, w, h, bg, fg, polys, rnd):
    bg, v, fg = ink(kind, bg, fg, rnd)
    return {"op": "fill", "w": w, "h": h, "fg": fg, "polys": polys,
            "res": ras.painted(kind, w, h, bg, fill(polys, v, rnd.random() < 0.1))}


def tevent(kind, w, h, bg, fg, tiles, whole, rnd):
    bg, v, fg = ink(kind, bg, fg, rnd)

    def each(c):
        for t in tiles:
            fill([t], v)(c)
    return {"op": "tiling", "polys": tiles, "tiles": [ras.painted(kind, w, h, bg, fill([t], v)) for t in tiles],
            "fg": fg, "res": ras.painted(kind, w, h, bg, fill(whole, v) if rnd.random() < 0.6 else each)}


def side(p):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1]))


def star(rnd, cx, cy, r, n):
    import math
    ang = sorted(rnd.uniform(0, 2 * math.pi) for _ in range(n))
    out = []
    for t in ang:
        q = [round(cx + rnd.uniform(0.2, 1) * r * math.cos(t)), round(cy + rnd.uniform(0.2, 1) * r * math.sin(t))]
        if not out or out[-1] != q:
            out.append(q)
    return out


def mesh(rnd, w, h, lo, nx, ny):
    """A jittered grid of vertices cut into triangles and quadrilaterals."""
    xs = sorted(rnd.sample(range(lo, w - lo), nx + 1))
    ys = sorted(rnd.sample(range(lo, h - lo), ny + 1))
    v = [[[x, y] for x in xs] for y in ys]
    for j in range(1, ny):
        for i in range(1, nx):
            # inner vertices move within the rectangle of their neighbours' lines
            v[j][i] = [rnd.randint(xs[i - 1] + 1, xs[i + 1] - 1), ys[j]] if rnd.random() < 0.5 \
                else [xs[i], rnd.randint(ys[j - 1] + 1, ys[j + 1] - 1)]
    tiles = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = v[j][i], v[j][i + 1], v[j + 1][i + 1], v[j + 1][i]
            quads = [[a, b, c], [a, c, d]] if rnd.random() < 0.5 else [[a, b, d], [b, c, d]]
            if any(side(t) <= 0 for t in quads):
                return None
            tiles += quads
    rim = v[0][:-1] + [r[-1] for r in v[:-1]] + v[-1][:0:-1] + [r[0] for r in v[:0:-1]]
    return tiles, [rim]


def run(chk):
    rnd = chk.rnd
    chk.model_check("MC_Fill", "SPECIFICATION Spec\nCONSTANTS N=%d\nINVARIANTS Disjoint Union\n"
                    "CHECK_DEADLOCK FALSE\n" % chk.pick(3, 4))
    cases = chk.export("MC_Fill", "SPECIFICATION Spec\nCONSTANTS N=3\nINVARIANTS Export\nCHECK_DEADLOCK FALSE\n")
    rnd.shuffle(cases)
    ev = []
    for n, (a, b, c, d) in enumerate(cases[:chk.pick(1200, len(cases))]):
        kind = ras.KINDS[n % 3]
        bg, fg = ras.two(kind, rnd)
        k, ox, oy = rnd.choice((1, 1, 1, 2, 3)), rnd.choice((0, 0, -2, 3)), rnd.choice((0, 0, -2, 3))
        a, b, c, d = ([p[0] * k + ox, p[1] * k + oy] for p in (a, b, c, d))
        tiles = [[a, b, c], [b, a, d]]
        ev.append(tevent(kind, 11, 10, bg, fg, tiles, tiles, rnd))
        if n % 2:
            ev.append(fevent(kind, 11, 10, bg, fg, tiles, rnd))
        chk.replayed += 1
    for i in range(chk.pick(250, 3000)):
        kind = rnd.choice(ras.KINDS)
        w, h = rnd.choice(((24, 18), (40, 9), (7, 30)))
        bg, fg = ras.two(kind, rnd)
        polys = []
        if rnd.random() < 0.25:         # far larger than the canvas
            cx, cy, r = rnd.randint(0, w), rnd.randint(0, h), rnd.choice((300, 3000))
            dx, dy, f = rnd.randint(-r, r), rnd.randint(-r, r), rnd.uniform(0.3, 1)
            p = [[cx + dx, cy + dy], [round(cx - f * dx), round(cy - f * dy)],
                 [cx + rnd.randint(-r, r), cy + rnd.randint(-r, r)]]
            if side(p) < 0:
                p.reverse()
            ev.append(fevent(kind, w, h, bg, fg, [p], rnd))
            continue
        for j in range(rnd.choice((1, 1, 2, 3))):
            p = star(rnd, rnd.randint(-4, w + 4), rnd.randint(-4, h + 4), rnd.choice((4, 9, 20)), rnd.choice((3, 4, 6, 11)))
            if rnd.random() < 0.25:        # a hole
                p = p[::-1]
            if rnd.random() < 0.2:
                p.append(p[0])
            polys.append(p)
        ev.append(fevent(kind, w, h, bg, fg, polys, rnd))
    n = 0
    while n < chk.pick(120, 1500):
        w, h = rnd.choice(((30, 24), (18, 40)))
        m = mesh(rnd, w, h, rnd.choice((0, 0, -3, -8)), rnd.randint(1, 4), rnd.randint(1, 4))
        if not m:
            continue
        tiles, rim = m
        if rnd.random() < 0.4:
            rim = tiles
        kind = rnd.choice(ras.KINDS)
        bg, fg = ras.two(kind, rnd)
        if rnd.random() < 0.25:         # far larger than the canvas
            k, x, y = rnd.randint(3, 70), rnd.randrange(w), rnd.randrange(h)
            tiles = [[[(q[0] - x) * k + x, (q[1] - y) * k + y] for q in p] for p in tiles]
            rim = [[[(q[0] - x) * k + x, (q[1] - y) * k + y] for q in p] for p in rim]
        ev.append(tevent(kind, w, h, bg, fg, tiles, rim, rnd))
        n += 1
    chk.judge("T_Pixels", [ev[i:i + 10] for i in range(0, len(ev), 10)])
