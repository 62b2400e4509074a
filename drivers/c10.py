"""C10: P files."""
import json
import os
import math
from fractions import Fraction
from vt.core import call, coral, jq, spoil, BAD
from .num import big


def grid_lon(rnd):
    return rnd.randint(0, 65535) * 360 / 65535 - 180


def grid_lat(rnd):
    return rnd.randint(0, 65535) * 180 / 65535 - 90


def points(rnd, n, kind):
    lon0, lat0 = rnd.uniform(-170, 170), rnd.uniform(-80, 80)
    r = rnd.choice((0.0001, 0.01, 1, 9))
    out = []
    for i in range(n):
        if kind == "free":
            p = (max(-180, min(180, lon0 + rnd.uniform(-r, r))), max(-90, min(90, lat0 + rnd.uniform(-r, r))))
        elif kind == "dyadic":      # exactly representable, possibly off the map
            p = (rnd.randint(-600 * 1024, 600 * 1024) / 1024, rnd.randint(-90 * 64, 90 * 64) / 64)
        elif kind == "edge":
            p = (rnd.choice((-180, 180, -180.0, 180.0, 0, rnd.randint(-180, 180), 540, -540, 181, -181, 360, -360)),
                 rnd.choice((-90, 90, 0, rnd.randint(-90, 90))))
        elif kind == "meridian":
            p = (lon0, lat0 + rnd.uniform(-r, r))
        elif kind == "parallel":
            p = (lon0 + rnd.uniform(-r, r), lat0)
        elif kind == "int":
            p = (rnd.randint(-180, 180), rnd.randint(-90, 90))
        elif kind == "world":
            p = (rnd.uniform(-180, 180), rnd.uniform(-90, 90))
        elif kind == "gridline":
            p = (grid_lon(rnd), grid_lat(rnd))
        elif kind == "onegrid":
            p = out[0] if out else (grid_lon(rnd), grid_lat(rnd))
        else:
            p = out[0] if out else (rnd.choice((lon0, 180, -180, 0, 90)), rnd.choice((lat0, 90, -90, 0)))
        out.append(p)
    return out


KINDS = ("free", "free", "dyadic", "edge", "meridian", "parallel", "int", "world", "gridline", "onegrid", "same")


def text(r):
    return r["k"] + ":" + repr(r["v"])[:4000]


def exact_event(size, want, r, box):
    nums = [x for part in want for p in part for x in p] + list(box)
    if r["k"] == "ok":
        nums += [x for part in r["v"] for p in part for x in p]
    d = 1
    for x in nums:
        d = max(d, Fraction(x).denominator)       # all are powers of two
    f = lambda x: big(Fraction(x) * d)
    pts = lambda parts: [[[f(p[0]), f(p[1])] for p in part] for part in parts]
    return {"op": "read", "size": size, "d": big(d), "want": pts(want),
            "box": [f(x) for x in box],
            "res": {"k": "ok", "v": pts(r["v"])} if r["k"] == "ok" else {"k": r["k"], "v": str(r["v"])}}


def shut(part):
    """Without its repeated closing point."""
    on = lambda x: x - 360 * math.ceil((x - 180) / 360) if x > 180 else x + 360 * math.ceil((-180 - x) / 360) if x < -180 else x
    return part[:-1] if len(part) > 1 and on(part[0][0]) == on(part[-1][0]) and part[0][1] == part[-1][1] else part


def converted(chk, pf, fn, size, names, ents):
    """The same entities by way of a shapefile."""
    sf = coral("shapefile")
    rnd = chk.rnd
    base = chk.path("conv")
    kind = rnd.choice((sf.POLYGON, sf.POLYLINE, sf.POLYGONZ, sf.POLYLINEM))
    if kind in (sf.POLYGON, sf.POLYGONZ):       # shapefiles close their rings
        for parts in ents:
            for i, part in enumerate(parts):
                if tuple(part[0]) != tuple(part[-1]):
                    parts[i] = part + [part[0]]

    def go():
        w = sf.Writer(kind)
        w.field("NO", "N", 5, 0)
        w.field("TXT", "C", 9)
        for j, parts in enumerate(ents):
            w.poly([[list(p) for p in part] for part in parts], kind)
            w.record(j, "t%d" % j)
        w.save(base)
    r = call(go)
    if r["k"] != "ok":
        return r
    look = lambda rec: names[rec[0]] if rec[1] == "t%d" % rec[0] else "?"
    return call(pf.sf2pf, base, fn, look) if size == 4 else call(pf.sf2pf, base, fn, look, size)


def unfit(rnd, fits):
    """A name and parts of which one cannot be stored."""
    p = [(1.5, 2.5), (3, 4)]
    bad = rnd.choice(((None, 1), (1, None), (float("nan"), 1), (1, float("nan")), (float("inf"), 0), (0, float("-inf")), (1,), ("a", 1)))
    how = rnd.randint(0, 3)
    if how == 0:
        return rnd.choice(("São", "a\0b", "\0", "b\0")), [p]
    if how == 1:
        return fits, []
    return fits, rnd.choice(([[bad]], [p + [bad]], [p, [bad] + p], [p, p + [bad] + p]))


def large(chk, pf, shape):
    """Files with very many points, entities or parts."""
    rnd = chk.rnd

    def part(n):
        x, y = rnd.uniform(-150, 90), rnd.uniform(-80, 20)
        return [(x + (i * 37 % 1009) / 20, y + (i * 11 % 4001) / 100) for i in range(n)]
    if shape == "long":
        ents = [[part(2)], [part(chk.pick(66000, 140000)), part(3)], [part(130)]]
    elif shape == "many":
        ents = [[part(1 + i % 3)] for i in range(1500)]
    else:
        ents = [[part(1)], [part(1 + i % 3) for i in range(3000)], [part(5)]]
    names = ["n" * (i % 3) * 100 + str(i) for i in range(len(ents))]
    fn, size = chk.path("large.p"), rnd.choice((2, 4))

    def write():
        w = pf.Writer(fn, size)
        for n, e in zip(names, ents):
            w.write(n, e)
        n = len(w.close())
        return n, pf.Reader(fn)
    r = call(write, secs=120)
    ev = [{"op": "wrote", "res": {"k": r["k"], "v": "" if r["k"] == "ok" else str(r["v"])}, "in": [shape, size]}]
    if r["k"] != "ok":
        return ev
    n, rd = r["v"]
    ev.append({"op": "count", "head": [n, len(rd)], "want": [sum(len(p) for e in ents for p in e), len(ents)]})
    ev.append({"op": "same", "what": "names", "given": names, "res": {"k": "ok", "v": list(rd.names)}})
    order = list(range(len(ents)))
    rnd.shuffle(order)
    for j in order[:200]:
        q = call(rd.read, j, secs=60) if rnd.random() < 0.5 else call(rd.get, names[j], secs=60)
        e = {"op": "points", "res": {"k": q["k"], "v": "" if q["k"] == "ok" else str(q["v"])}, "want": [len(p) for p in ents[j]], "lens": [], "worst": [], "tol": 0}
        if q["k"] == "ok":
            e["lens"] = [len(p) for p in q["v"]]
            pts = [(a, b) for p, w in zip(q["v"], ents[j]) for a, b in zip(p, w)]
            xs, ys = [p[0] for s in ents[j] for p in s], [p[1] for s in ents[j] for p in s]
            step = max(max(xs) - min(xs) + 720 / 65535, max(ys) - min(ys) + 360 / 65535) / (256 ** size - 1)
            e["tol"] = int(step / 2 * 1e7) + 1
            e["worst"] = [min(2 ** 30, int(max(max(abs(a[0] - b[0]), abs(a[1] - b[1])) for a, b in pts[i:i + 300]) * 1e7)) for i in range(0, len(pts), 300)]
        ev.append(e)
    call(rd.close)
    os.remove(fn)
    return ev


def run(chk):
    pf = coral("pf")
    coord = coral("coord")
    rnd = chk.rnd
    chk.model_check("MC_Quant", "SPECIFICATION Spec\nCONSTANTS N=%d D=6 U=7\n"
                    "INVARIANTS Encloses Coded HalfStep\nCHECK_DEADLOCK FALSE\n" % chk.pick(4, 7))
    edges = chk.export("MC_PFile", "SPECIFICATION Spec\nCONSTANTS MaxEnt=%d Names={\"a\",\"b c\",\"35\"}\n"
                       "VIEW View\nPROPERTY OwnPoints NoTrace\nACTION_CONSTRAINT Export\nCHECK_DEADLOCK FALSE\n" % chk.pick(2, 3))
    # all reads of one content are replayed on one reader, in a shuffled order, twice
    reads, writes = {}, {}
    for path, e in chk.paths(edges, json.dumps(["w", [], []])):
        if e["s"][0] == "r":
            k = json.dumps(e["s"])
            reads.setdefault(k, []).append(e["op"])
            writes[k] = [p["op"] for p in path]
    for n, (k, ops) in enumerate(sorted(reads.items())):
        size = (1, 2, 4, 8)[n % 4]
        fn = chk.path("m.p")
        w = pf.Writer(fn, size)
        for m, o in enumerate(writes[k]):
            if o[0] == "write":
                i, parts = 0, []
                for cnt, closed in o[2]:
                    ln = cnt - 1 if closed else cnt
                    part = [(10.0 * m - 90 + 0.3 * (i + j), 5.0 * m - 20 - 0.4 * (i + j)) for j in range(ln)]
                    i += ln
                    parts.append(part + part[:1] if closed else part)
                r = call(w.write, o[1], parts)
            else:
                r = call(w.close)
                if r["k"] == "ok" and len(r["v"]) != o[1]:
                    chk.violation("one-error-per-point", {"want": o[1], "got": len(r["v"])})
            if r["k"] != "ok":
                chk.violation("write", {"op": o, "got": r})
        r = call(pf.Reader, fn)
        if r["k"] != "ok":
            chk.violation("open", {"history": writes[k], "got": r})
            continue
        todo = ops * 2
        rnd.shuffle(todo)
        for o in todo:
            g = call(r["v"].read, o[1]) if o[0] == "read" else call(r["v"].get, o[1])
            ok = g["k"] == "ok" and [len(p) for p in g["v"]] == [len(p) for p in o[2]]
            if ok:
                step = 255 if size == 1 else 65535
                for p, q in zip(g["v"], o[2]):
                    for (x, y), (ent, i) in zip(p, q):
                        m = ent - 1
                        ok &= abs(x - (10.0 * m - 90 + 0.3 * (i - 1))) < 6 / step + 1e-9
                        ok &= abs(y - (5.0 * m - 20 - 0.4 * (i - 1))) < 6 / step + 1e-9
            if not ok:
                chk.violation("replay", {"history": writes[k], "op": o, "size": size, "got": g})
            spoil(g)
            chk.replayed += 1
        call(r["v"].close)
    sessions = []
    for i in range(chk.pick(110, 1000)):
        size = rnd.choice((1, 2, 4, 8))
        fn = chk.path("t.p")
        ents, names = [], []
        for j in range(rnd.choice((1, 1, 2, 3, 6))):
            n = rnd.choice(("n%d" % j, "Name %d" % j, str(j), "" if j == 0 else "x" * j))
            if names and rnd.random() < 0.4:   # names within names
                m = rnd.choice(names)
                n = rnd.choice((m[1:], m[:-1], m + "5", "3" + m, m + " " + m))
            if n in names:
                n = "u%d" % j
            names.append(n)
            kind = rnd.choice(KINDS)
            parts = []
            for _ in range(rnd.choice((1, 1, 2, 3))):
                p = points(rnd, rnd.choice((1, 1, 2, 3, 4, 8)), kind)
                if rnd.random() < 0.4:
                    p = p + [p[0]]
                    if rnd.random() < 0.2 and kind in ("dyadic", "edge"):
                        p[-1] = (p[-1][0] + rnd.choice((360, -360)), p[-1][1])
                elif rnd.random() < 0.1 and kind != "gridline":
                    # ends next to where it starts
                    p = p + [(p[0][0] + rnd.choice((1, -1)) * 2 ** -rnd.randint(20, 40), p[0][1])]
                parts.append(p)
            ents.append(parts)
        if rnd.random() < 0.05:
            ents[0][0] = points(rnd, 130, "world")
        refused = []
        if rnd.random() < 0.25:
            errs = converted(chk, pf, fn, size, names, ents)
        else:
            w = pf.Writer(fn, size) if size != 4 or rnd.random() < 0.5 else pf.Writer(fn)
            r = {"k": "ok"}
            for n, parts in zip(names, ents):
                if rnd.random() < 0.15:
                    refused.append(call(w.write, *unfit(rnd, n), secs=3)["k"])
                if r["k"] == "ok":
                    r = call(w.write, n, [tuple(p) if rnd.random() < 0.2 else p for p in parts])
            errs = call(w.close) if r["k"] == "ok" else r
        r = call(pf.Reader, fn) if errs["k"] == "ok" else errs
        head = {"op": "open", "refused": refused, "names": names, "texts": [], "count": -1, "in": repr(ents)[:1500]}
        if r["k"] != "ok":
            head["res"] = {"k": r["k"], "v": str(r)}
            sessions.append([head])
            continue
        rd = r["v"]
        head["res"] = {"k": "ok", "v": list(rd.names)}
        head["count"] = call(len, rd)["v"]
        ses = [head]
        got = [None] * len(ents)
        order = list(range(len(ents)))
        rnd.shuffle(order)
        for j in order:
            g = call(rd.read, j - rnd.choice((0, 0, len(ents)))) if rnd.random() < 0.5 else call(rd.get, names[j])
            got[j] = g
            if g["k"] == "ok" and max(len(p) for p in g["v"]) > 100:
                g2 = {"k": "ok", "v": [p[:60] for p in g["v"]]}
                continue
            try:
                ses.append(exact_event(size, ents[j], g, rd.bboxes[j]))
            except (TypeError, ValueError, OverflowError):
                ses.append({"op": "read", "res": {"k": "junk", "v": ""}})
        head["texts"] = [text(g) for g in got]
        with open(fn, "rb") as f:
            b = list(f.read())
        if len(b) < 500:
            ses.append({"op": "file", "size": size, "bytes": b, "names": [list(n.encode()) for n in names],
                        "parts": [[len(shut(p)) for p in parts] for parts in ents]})
        for _ in range(rnd.choice((0, 4, 8))):
            j = rnd.randint(0, len(ents) - 1)
            if rnd.random() < 0.5:
                g = call(rd.read, j)
                ses.append({"op": "again", "by": "pos", "idx": j, "key": "", "text": text(g)})
            else:
                g = call(rd.get, names[j])
                ses.append({"op": "again", "by": "name", "idx": -1, "key": names[j], "text": text(g)})
            if rnd.random() < 0.5:
                spoil(g)
        call(rd.close)
        # displacement of every stored point, by the library's own distance
        disp = []
        for parts, g in zip(ents, got):
            if g["k"] != "ok":
                continue
            for part, q in zip(parts, g["v"]):
                for (x, y), (u, v) in zip(part, q):
                    while x < -180: x += 360
                    while x > 180: x -= 360
                    disp.append(jq(call(coord.haversine, x, y, u, v)["v"], 1000))
        try:
            es = [jq(e, 1000) for e in errs["v"]]
        except TypeError:
            es = [BAD]
        ses.append({"op": "errs", "errs": es, "disp": disp})
        sessions.append(ses)
    for i in range(12):                         # off the map: whatever is stored, it ends
        w = pf.Writer(chk.path("t.p"), (1, 2, 4, 8)[i % 4])
        far = rnd.choice((1e9, 1e17, 1e300, -1e16, -1e30, 10 ** 40))
        pts = [(rnd.uniform(-1000, 1000), rnd.choice((-1, 1)) * rnd.uniform(90, 600)), (400.0, 91.0 - i), (5, -90.5)]
        if i % 2:
            pts.append(rnd.choice(((far, 1), (1, far), (far, far))))
        r = call(w.write, "a", [pts], secs=3)
        sessions.append([{"op": "ends", "in": pts, "res": {"k": r["k"], "v": ""}}])
        call(w.close)
    for n in ("São Paulo", "漢", "a\u0301", "x\xa0y", "a\0b", "\0", "b\0"):
        fn = chk.path("u.p")
        def trip():
            w = pf.Writer(fn)
            w.write(n, [[(1, 2), (3, 4)]])
            w.close()
            return pf.Reader(fn).names
        r = call(trip)
        sessions.append([{"op": "kept", "name": n, "res": {"k": r["k"], "v": r["v"] if r["k"] == "ok" else []}}])
    chk.judge("T_PFile", sessions)
    chk.judge("T_Bulk", [large(chk, pf, shape) for shape in ("long", "many", "parts")])
    chk.assumptions.append("latitudes within +-90; parts are non-empty; names are ASCII without NUL; floating-point allowance of 360/2^46 degrees")
