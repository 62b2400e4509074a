"""C19: anti-aliased lines."""
from . import ras


def aa(kind, w, h, bg, fg, a, b):
    v = ras.val(kind, fg)
    return {"op": "aa", "a": a, "b": b, "bg": bg, "fg": fg,
            "res": ras.drawn(kind, w, h, bg, lambda c: c.aaline(tuple(a), tuple(b), v)),
            "rev": ras.drawn(kind, w, h, bg, lambda c: c.aaline(tuple(b), tuple(a), v))}


def aaf(kind, w, h, bg, fg, a, b, q):
    """Ends in q-ths of a pixel."""
    p, r = [tuple(v / q for v in x) for x in (a, b)]
    return dict(aa(kind, w, h, bg, fg, p, r), op="aaf", a=a, b=b, q=q)


def run(chk):
    rnd = chk.rnd
    n = chk.pick(4, 5)
    edges = chk.export("MC_Line", "SPECIFICATION Spec\nCONSTANTS N=%d\nINVARIANTS Near Line Shares Symmetric Export\n"
                       "CHECK_DEADLOCK FALSE\n" % n)
    ev = []
    for i, (a, b, S) in enumerate(edges):
        kind = ("gray", "color")[i % 2]
        bg, fg = ras.two(kind, rnd) if i % 4 > 1 else ([255], [0]) if kind == "gray" else ([0, 255, 10], [255, 0, 200])
        ev.append(aa(kind, n + 1, n + 1, bg, fg, a, b))
        chk.replayed += 1
    for i in range(chk.pick(250, 3000)):
        kind = rnd.choice(("gray", "color"))
        w, h = rnd.choice(((20, 15), (40, 3), (4, 30), (13, 13), (20, 15), (40, 3), (4, 30), (13, 13), (400, 4), (3, 600), (160, 20)))
        pt = lambda: [rnd.choice((0, w - 1, rnd.randrange(w))), rnd.choice((0, h - 1, rnd.randrange(h)))]
        bg, fg = ras.two(kind, rnd)
        ev.append(aa(kind, w, h, bg, fg, pt(), pt()))
    for i in range(chk.pick(120, 1500)):        # partly or wholly out of the canvas
        kind = rnd.choice(("gray", "color"))
        w, h = rnd.choice(((12, 9), (9, 2), (1, 14), (16, 16)))
        away = lambda n: rnd.choice((-1, n, n + 1, -n, 2 * n, rnd.randint(-20, n + 20), rnd.randrange(n)))
        pt = lambda: [away(w), away(h)]
        ev.append(aa(kind, w, h, *ras.two(kind, rnd), pt(), pt()))
    cfg = "SPECIFICATION Spec\nCONSTANTS N=%d Q=%d Frac=%s\nINVARIANTS Share Total Mirror Export\nCHECK_DEADLOCK FALSE\n"
    pairs = chk.export("MC_AaLine", cfg % (3, 4, "{0, 1, 2, 3}"))
    rnd.shuffle(pairs)
    for i, (a, b) in enumerate(pairs[:chk.pick(500, 10000)]):
        kind = ("gray", "color")[i % 2]
        # as it is, or moved towards or across a border
        sx, sy = rnd.choice((0, 0, -4, -8, 8, 12)), rnd.choice((0, 0, -4, -8, 8, 12))
        ev.append(aaf(kind, 6, 6, *ras.two(kind, rnd), [a[0] + sx, a[1] + sy], [b[0] + sx, b[1] + sy], 4))
        chk.replayed += 1
    for i in range(chk.pick(150, 2000)):
        kind, q = rnd.choice(("gray", "color")), rnd.choice((2, 8, 16))
        w, h = rnd.choice(((12, 9), (16, 5), (5, 14)))
        far = rnd.choice((0, 0, 1, 3, 20))
        pt = lambda: [rnd.randint(-far * q, (w - 1 + far) * q), rnd.randint(-far * q, (h - 1 + far) * q)]
        a, b = pt(), pt()
        if i % 5 == 0:                          # shorter than a step
            b = [v + rnd.randint(-q, q) for v in a]
        if a != b:
            ev.append(aaf(kind, w, h, *ras.two(kind, rnd), a, b, q))
    for i in range(chk.pick(120, 1200)):
        kind = rnd.choice(("gray", "color"))
        w, h = 14, 11
        bg, fg = ras.two(kind, rnd)
        pts = [(rnd.randrange(w), rnd.randrange(h)) for _ in range(rnd.choice((1, 2, 3, 5)))]
        v = ras.val(kind, fg)
        how = rnd.choice(((), (True,), (None,)))

        def ref(c):
            for p, q in zip(pts, pts[1:] + pts[:1]):
                c.aaline(p, q, v)
        ev.append({"op": "aastroke", "pts": pts,
                   "res": ras.drawn(kind, w, h, bg, lambda c: c.strokepolygon(list(pts), v, *how)),
                   "ref": ras.drawn(kind, w, h, bg, ref)})
    chk.judge("T_Pixels", [ev[i:i + 10] for i in range(0, len(ev), 10)])
