"""C13: bytes of saved shapefiles."""
from vt.core import coral
from . import bulk
from .shp import *


def run(chk):
    sf = coral("shapefile")
    rnd = chk.rnd
    ev = []
    for t, hist in model(chk, chk.pick(4, 5)):
        if rnd.random() > chk.pick(0.45, 0.6):
            continue
        s = Session(chk, sf, t)
        s.field("id", "N", 5, 0)
        how = rnd.choice(("path", "objects", "same objects", "single", "generated") + PARTIAL)
        for k in hist:
            if k == 0:
                s.save(how)
            elif k == 1:
                s.add(0, [], [])
            elif k == 2:
                s.add(*one(rnd, t, (3,)))
            else:
                s.add(*one(rnd, t, (2, 2)))
            if k:
                s.record([k], "in order")
        ev.append(s.ev)
        chk.replayed += 1
    for i in range(chk.pick(200, 2500)):
        t = TYPES[i % len(TYPES)]
        s = Session(chk, sf, t, declared=t in POINTS or rnd.random() < 0.7)
        for k in range(rnd.randint(1, 4)):
            ft = rnd.choice("CCNL")
            s.field("f%d" % k, ft, {"L": 1}.get(ft, rnd.choice((5, 8, 20, 254))), rnd.choice((0, 2)) if ft == "N" else 0)
        if not s.ev[0]["type"]:
            s.add(*shape(rnd, t))
        for step in range(rnd.randint(1, 7)):
            r = rnd.random()
            if r < 0.35:
                s.save(rnd.choice(("path", "objects", "same objects", "single", "generated") + PARTIAL))
            elif r < 0.45:
                s.add(0, [], [])
            elif r < 0.75:
                s.add(*shape(rnd, t))
            else:
                s.record([{"C": "text", "N": 12, "L": "T"}[f[1]] for f in s.fields], "in order")
        s.save(rnd.choice(("path", "objects", "same objects")))
        ev.append(s.ev)
    chk.judge("T_Shp", ev)
    chk.judge("T_Bulk", bulk.sessions(chk, sf, ("files",)))
