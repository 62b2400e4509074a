"""C31: inverse projections."""
import math
from vt.core import coral
from . import maps
from .globe import some_lon, some_lat


def run(chk):
    rnd = chk.rnd
    pr = coral("proj")
    ev = []
    cases = list(maps.exact_cases(chk))
    rnd.shuffle(cases)
    for o, p, abc in cases[:chk.pick(400, 7056)]:
        for kind in maps.KINDS[:-1]:
            if maps.usable(kind, o, p, 1e-3):
                ev.append(maps.trip(maps.make(pr, kind, o, 1000.0 if kind != "EMercator" else None), kind, o, p))
                chk.replayed += 1
    for i in range(chk.pick(250, 4000)):
        kind = maps.KINDS[i % len(maps.KINDS)]
        o = maps.some_origin(rnd, kind)
        if kind != "ConicEqualArea" and rnd.random() < 0.1:
            o = (o[0] % 360, o[1])
        m, r, e = maps.some_model(rnd, pr, kind)
        prj = maps.make(pr, kind, o, m)
        pts = [o if kind != "ConicEqualArea" else (0, o[0]), (o[0], -o[1]), (some_lon(rnd), 90), (some_lon(rnd), -90),
               (o[0] + rnd.choice((90, -90)), 0), (o[0] + rnd.uniform(-1e-7, 1e-7), max(-90, min(90, o[1] + rnd.uniform(-1e-7, 1e-7)))),
               (o[0] + rnd.choice((180, 179.5, -179.5)), some_lat(rnd))]
        if kind in maps.AZIMUTHAL:
            h = rnd.uniform(0.03, 0.5)      # close to the antipode
            t = rnd.uniform(0, 6.28)
            lat = -o[1] + h * math.sin(t)
            if abs(lat) < 89:
                pts.append((o[0] + 180 + h * math.cos(t) / math.cos(math.radians(lat)), lat))
        pts += [(some_lon(rnd), some_lat(rnd)) for _ in range(5)]
        for p in pts:
            if kind == "ConicEqualArea" and not -179.99 <= p[0] <= 179.99:
                continue
            if kind != "ConicEqualArea" and rnd.random() < 0.15:
                p = (p[0] + rnd.choice((360, -360)), p[1])     # the same meridian, said otherwise
            if maps.usable(kind, o, p, 0.0005 if kind in maps.AZIMUTHAL[:2] else 0.02):
                ev.append(maps.trip(prj, kind, o, p, m))
    chk.judge("T_Maps", [ev[i:i + 20] for i in range(0, len(ev), 20)])
