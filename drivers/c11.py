"""C11: shapes through shapefiles."""
from vt.core import coral
from . import bulk
from .shp import *

HOW = ("path", "shp path", "shp shx dbf", "shp", "shp shx")


def run(chk):
    sf = coral("shapefile")
    rnd = chk.rnd
    ev = []
    for t, hist in model(chk, chk.pick(4, 5)):
        if 0 in hist[:-1] or rnd.random() > chk.pick(0.3, 0.5):
            continue
        s = Session(chk, sf, t)
        s.field("id", "N", 5, 0)
        for k in hist:
            if k == 1:
                s.add(0, [], [])
            elif k == 2:
                s.add(*one(rnd, t, (3,)))
            elif k == 3:
                s.add(*one(rnd, t, (2, 2)))
            if k:
                s.record([k], "in order")
        s.save("path", False)
        s.read_shapes("path", rnd.choice(("all", "iter", "each")))
        ev.append(s.ev)
        chk.replayed += 1
    for i in range(chk.pick(260, 3500)):
        t = TYPES[i % len(TYPES)]
        s = Session(chk, sf, t, declared=t in POINTS or rnd.random() < 0.6)
        s.field("id", "N", 5, 0)
        n = rnd.choice((0, 1, 1, 2, 3, 5, 9)) if s.ev[0]["type"] else rnd.choice((1, 2, 3))
        nulls = rnd.random() < 0.4
        last = None
        for k in range(n):
            if nulls and rnd.random() < 0.3 and (k < n - 1 or s.ev[0]["type"]):
                s.add(0, [], [])
            elif last and rnd.random() < 0.15:
                s.add(*last)
            else:
                last = shape(rnd, t, rnd.random() < 0.01)
                s.add(*last)
            s.record([k], "in order")
        for j in range(rnd.choice((1, 1, 2))):
            if s.save(rnd.choice(("path", "objects", "single", "same objects")), False):
                how = rnd.choice(HOW)
                s.read_shapes(how, rnd.choice(("all", "iter", "each", "pairs") if how in HOW[:3] else ("all", "iter", "each")))
            if j == 0 and rnd.random() < 0.5:
                s.add(*shape(rnd, t))
                s.record([99], "in order")
        ev.append(s.ev)
    for i in range(chk.pick(60, 800)):          # files of other programs
        t = TYPES[i % len(TYPES)]
        s = Session(chk, sf, t)
        shapes = []
        for k in range(rnd.randint(1, 6)):
            st, parts, ptypes = (0, [], []) if rnd.random() < 0.2 else shape(rnd, t)
            if st in RINGS:
                parts = [p if p[0] == p[-1] else p + [p[0]] for p in parts]
            shapes.append((st, parts))
            s.ev.append({"op": "add", "res": {"k": "ok", "v": ""}, "same": True, "in": [st, parts],
                         "shape": {"t": st, "parts": [[pad(p) for p in part] for part in parts], "ptypes": [2] * len(parts)}})
        s.base = chk.path("foreign")
        shp, shx = encode(t, shapes, padded=rnd)
        for k, data in (("shp", shp), ("shx", shx), ("dbf", table([("a", "N", 3, 0)], [(b"1",)] * len(shapes)))):
            with open(s.base + "." + k, "wb") as f:
                f.write(data)
        s.ev.append({"op": "saved"})
        s.read_shapes(rnd.choice(HOW), rnd.choice(("all", "iter", "each")))
        ev.append(s.ev)
    chk.judge("T_Shp", ev)
    chk.judge("T_Bulk", bulk.sessions(chk, sf, ("shapes",)))
