"""C01: tight boxes, measures, translation and scaling."""
from vt.core import call, coral, ji, jq, BAD
from .boxes import *


def supply(pts, how):
    if how == 0:
        return list(pts)
    if how == 1:
        return tuple(pts)
    if how == 2:
        return (p for p in pts)
    if how == 3:
        return iter([list(p) for p in pts])
    return zip([p[0] for p in pts], [p[1] for p in pts])


def run(chk):
    bbox = coral("bbox")
    rnd = chk.rnd
    for lo, hi, n in chk.pick(((1, 1, 4), (0, 3, 3)), ((1, 1, 5), (0, 3, 4))):
        cfg = ("SPECIFICATION Spec\nCONSTANTS Neg=%d Hi=%d MaxLen=%d\n"
               "INVARIANTS Covers Smallest OrderFree Export\nCHECK_DEADLOCK FALSE\n" % (lo, hi, n))
        for pts, box in chk.export("MC_BoxTight", cfg):
            how = chk.replayed % 5
            r = call(bbox.BBox, supply([tuple(p) for p in pts], how))
            if r["k"] != "ok" or co(r["v"], 1) != box:
                chk.violation("tight-box", {"points": pts, "supplied": how, "want": box,
                                            "got": r if r["k"] != "ok" else co(r["v"], 1)})
            chk.replayed += 1
    ev = []
    for i in range(chk.pick(400, 4000)):
        n = rnd.choice((1, 2, 3, 5, 20, 200))
        lim = rnd.choice((2, 8, 1000, 8 * 10 ** 7))
        pts = [(rnd.randint(-lim, lim), rnd.randint(-lim, lim)) for _ in range(n)]
        if rnd.random() < 0.3:
            pts.sort(key=lambda p: p[rnd.randint(0, 1)], reverse=rnd.random() < 0.5)
        if rnd.random() < 0.2:
            pts = [(p[0], pts[0][1]) for p in pts]
        u = unit(rnd)
        r = call(bbox.BBox, supply([(raw(x, rnd, u), raw(y, rnd, u)) for x, y in pts], rnd.randint(0, 4)))
        ev.append({"op": "tight", "box": 0, "pts": pts, "res": co(val(r), 8 / u)})
    for i in range(chk.pick(400, 4000)):
        bx = rbox(rnd, rnd.choice((3, 8, 80, 120)))
        if i % 10 == 0:
            a, b, c = rnd.choice(((3, 4, 5), (5, 12, 13), (8, 15, 17)))
            bx = [bx[0], bx[1], bx[0] + 8 * a, bx[1] + 8 * b]
        u = unit(rnd)
        b = mk(bbox, bx, rnd, u)
        c = call(b.center)
        try:
            cx, cy = c["v"]
        except Exception:
            cx = cy = None
        ev.append({"op": "measure", "box": bx, "w": ji(val(call(b.width)), 8 / u), "h": ji(val(call(b.height)), 8 / u),
                   "area": ji(val(call(b.area)), 64 / u / u), "cx": ji(cx, 16 / u), "cy": ji(cy, 16 / u),
                   "hyp": max(-40000, min(40000, jq(val(call(b.hypot)), 80 / u))), "after": co(b, 8 / u)})
        d = [rnd.randint(-800, 800) * rnd.choice((1, 8)), rnd.randint(-800, 800) * rnd.choice((1, 1, 0))]
        if i % 8 == 0:
            d = [0, 0]
        dx, dy = raw(d[0], rnd, u), raw(d[1], rnd, u)
        ev.append({"op": "translate", "box": bx, "d": d, "res": co(val(call(b.translate, dx, dy)), 8 / u),
                   "fresh": all(val(call(f)) is not b for f in (lambda: b.translate(dx, dy), lambda: b + (dx, dy), lambda: b - (dx, dy))),
                   "plus": co(val(call(lambda: b + (dx, dy))), 8 / u), "minus": co(val(call(lambda: b - [dx, dy])), 8 / u),
                   "after": co(b, 8 / u)})
        F = rnd.choice((1, 2, 3, 4, 4, 5, 6, 8, 12, 16, 40)) * rnd.choice((1, 1, 1, -1))
        f = F // 4 if F % 4 == 0 and rnd.random() < 0.6 else F / 4
        ev.append({"op": "scale", "box": bx, "F": F, "res": co(val(call(b.scale, f)), 64 / u),
                   "fresh": all(val(call(g)) is not b for g in (lambda: b.scale(f), lambda: b * f, lambda: b / f)),
                   "times": co(val(call(lambda: b * f)), 64 / u), "after": co(b, 8 / u)})
        r = val(call(lambda: b / f))
        try:
            q = [jq(v, 64 * F / u) for v in (r.x0, r.y0, r.x1, r.y1)]
        except Exception:
            q = [BAD] * 4
        q = [v if v != BAD else 2000000000 for v in q]
        ev.append({"op": "divide", "box": bx, "F": F, "res": q, "after": co(b, 8 / u)})
    chk.judge("T_Box", chunks(ev))
    chk.assumptions.append("coordinates are dyadic rationals, for which float arithmetic is exact")
