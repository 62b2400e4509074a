"""C32: what each projection preserves."""
import math
from vt.core import call, coral
from . import maps
from .globe import fx, pair, some_lon, some_lat, apart, place


def run(chk):
    rnd = chk.rnd
    pr = coral("proj")
    ev = []
    cases = list(maps.exact_cases(chk))
    rnd.shuffle(cases)
    for o, p, abc in cases[:chk.pick(250, 7056)]:
        for kind in maps.AZIMUTHAL:
            if maps.usable(kind, o, p, 0.1):
                ev.append(maps.azimuth(maps.make(pr, kind, o, 1000.0), kind, o, p, 1000.0))
                chk.replayed += 1
    for i in range(chk.pick(360, 6000)):
        kind = maps.KINDS[i % len(maps.KINDS)]
        o = maps.some_origin(rnd, kind)
        m, r, e = maps.some_model(rnd, pr, kind)
        prj = maps.make(pr, kind, o, m)
        for _ in range(5):
            p = (some_lon(rnd), rnd.choice((rnd.uniform(-80, 80), rnd.randint(-80, 80), rnd.uniform(-60, 60))))
            gap = (p[0] - o[0] + 180) % 360 - 180
            if kind in ("Mercator", "EMercator", "EckertIV") and abs(gap) > 175 or kind == "ConicEqualArea" and abs(p[0]) > 175:
                continue
            if kind == "TransMercator":
                if abs(math.cos(math.radians(p[1])) * math.sin(math.radians(gap))) > 0.98:
                    continue
                y = math.degrees(math.atan2(math.tan(math.radians(p[1])), math.cos(math.radians(gap)))) - o[1]
                if abs((y + 180) % 360 - 180) > 175:
                    continue
            if kind == "ObliqMercator":
                (s0, c0) = math.sin(math.radians(o[1])), math.cos(math.radians(o[1]))
                v = math.tan(math.radians(p[1])) * c0 + s0 * math.sin(math.radians(gap))
                if abs(maps.oblique_sine(o, p)) > 0.98 or math.cos(math.radians(gap)) < 0.02 and abs(v) < 0.2 \
                        or math.cos(math.radians(gap)) < 0 and abs(math.atan2(v, math.cos(math.radians(gap)))) > 3.05:
                    continue
            if kind in maps.AZIMUTHAL and not 0.01 < apart(o, p) < 2.8:
                continue
            if kind == "ConicEqualArea":
                n = (math.sin(math.radians(o[0])) + math.sin(math.radians(o[1]))) / 2
                s1 = math.sin(math.radians(o[0]))
                if 1 - s1 * s1 + 2 * n * (s1 - math.sin(math.radians(p[1]))) < 0.05:
                    continue
            desc = [o, m]
            if kind in maps.CONFORMAL:
                ev.append(maps.local(prj, kind, "conformal", p, r, e, desc))
            elif kind != "AzimuthalEquidistant":
                ev.append(maps.local(prj, kind, "equalarea", p, r, e, desc))
            if kind in maps.AZIMUTHAL:
                ev.append(maps.azimuth(prj, kind, o, p, r))
            if kind != "ConicEqualArea":
                t = rnd.choice((-90, 30, 17.25, 200))
                res, (x, y) = pair(call(prj.geo2rect, *p))
                res2, (x2, y2) = pair(call(maps.make(pr, kind, (o[0] + t, o[1]), m).geo2rect, p[0] + t, p[1]))
                ev.append({"op": "shift", "res": res, "res2": res2, "x": fx(x / r), "y": fx(y / r), "x2": fx(x2 / r), "y2": fx(y2 / r),
                           "in": [kind, desc, p, t]})
                # the same meridian, said otherwise
                t = rnd.choice((360, -360, 720, -720))
                res2, (x2, y2) = pair(call(prj.geo2rect, p[0] + t, p[1]))
                ev.append({"op": "shift", "res": res, "res2": res2, "x": fx(x / r), "y": fx(y / r), "x2": fx(x2 / r), "y2": fx(y2 / r),
                           "in": [kind, desc, p, t]})
        if kind == "ConicEqualArea":
            ev.append(maps.local(prj, kind, "grows", (0, rnd.uniform(-60, 60)), r, e, [o, m], true=False))
            for lat in o:
                if abs(lat) < 86:
                    ev.append(maps.local(prj, kind, "parallel", (rnd.uniform(-170, 170), lat), r, e, [o, m]))
        elif kind != "ObliqMercator" and abs(o[1]) < 80:
            ev.append(maps.local(prj, kind, "grows", o, r, e, [o, m], true=kind in maps.AZIMUTHAL))
    chk.judge("T_Maps", [ev[i:i + 12] for i in range(0, len(ev), 12)])
