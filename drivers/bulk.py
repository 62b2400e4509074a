"""Shapefiles with very many or very large items (C11-C13)."""
import hashlib
import os
import struct
from vt.core import call
from .shp import BOXED, POINTS, MULTI, RINGS, outcome, Closer


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def shown(x):
    """One text for a shape that was read."""
    def nums(v):
        return [float(y) for y in v]
    t = x.shapeType
    o = [t, [nums(p) for p in x.points]]
    if t in BOXED and t not in MULTI:
        o.append(list(x.parts))
    if t in (11, 13, 15, 18, 31):
        o.append(nums(x.z))
    if t in (11, 13, 15, 18, 21, 23, 25, 28, 31):
        o.append(nums(x.m))
    return digest(o)


def wanted(t, parts):
    """The same for the shape that was given: points of four coordinates, rings closed."""
    pts = [p for part in parts for p in part]
    o = [t, [[float(p[0]), float(p[1])] for p in pts]]
    if t in BOXED and t not in MULTI:
        starts, k = [], 0
        for part in parts:
            starts.append(k)
            k += len(part)
        o.append(starts)
    if t in (11, 13, 15, 18, 31):
        o.append([float(p[2]) for p in pts])
    if t in (11, 13, 15, 18, 21, 23, 25, 28, 31):
        o.append([float(p[3]) for p in pts])
    return digest(o)


def big_shapes(rnd, t):
    out = []
    for k in range(3):
        parts = []
        for n in ((66000, 40, 300) if k < 2 else (5, 70)):
            x, y = rnd.randint(-1000, 1000), rnd.randint(-1000, 1000)
            part = [[x + i % 251, y + i % 257, i, -i] for i in range(n)]
            if t in RINGS:
                part.append(list(part[0]))
            parts.append(part)
        out.append((t, parts))
    parts = []
    for k in range(rnd.choice((300, 700))):
        part = [[k, i, i * k, 5] for i in range(rnd.choice((3, 3, 4, 6)))]
        if t in RINGS:
            part.append(list(part[0]))
        parts.append(part)
    return out + [(t, parts)]


def many_shapes(rnd, t, n):
    out = []
    for k in range(n):
        if rnd.random() < 0.02:
            out.append((0, []))
        elif t in POINTS:
            out.append((t, [[[k, -2 * k, k + 1, 7]]]))
        else:
            out.append((t, [[[k, 0, 1, 2], [k + 1, 3, 4, 5], [k, 9 - k, 0, 0], [k, 0, 1, 2]]]))
    return out


def layout(base, shapes, t):
    """Positions, lengths and boxes as they are in the files."""
    b = open(base + ".shp", "rb").read()
    x = open(base + ".shx", "rb").read()
    recs, at = [], 100
    while at + 8 <= len(b) and len(recs) <= len(shapes):
        num, words = struct.unpack(">2i", b[at:at + 8])
        recs.append([num, at, words])
        if words <= 0:
            break
        at += 8 + 2 * words

    def whole(v):
        return [int(c) if abs(c) < 2 ** 30 and c == int(c) else 2 ** 30 for c in v]
    boxes = []
    for st, parts in shapes:
        pts = [p for part in parts for p in part]
        if pts:
            boxes.append([min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)])
    return {"op": "shp", "shapes": [[st, sum(map(len, parts)), len(parts)] for st, parts in shapes],
            "words": struct.unpack(">i", b[24:28])[0], "bytes": len(b), "recs": recs,
            "iwords": struct.unpack(">i", x[24:28])[0], "ibytes": len(x),
            "index": [list(struct.unpack(">2i", x[i:i + 8])) for i in range(100, len(x) - 7, 8)],
            "box": whole(struct.unpack("<4d", b[36:68])), "boxes": boxes}


def session(chk, sf, t, shapes, fields, rows, what):
    """Write all this; what = the things to look at: shapes, rows, files."""
    base = chk.path("bulk")

    def write():
        w = sf.Writer(t)
        for f in fields:
            w.field(*f)
        for st, parts in shapes:
            if st == 0:
                w.null()
            elif st in POINTS:
                w.point(*parts[0][0])
            else:
                w.poly(parts, st)
        for row in rows:
            w.record(*row)
        w.save(base)
    r = call(write, secs=120)
    ev = [{"op": "wrote", "res": outcome(r), "in": [t, len(shapes), len(fields), len(rows)]}]
    if r["k"] != "ok":
        return ev
    rd = call(sf.Reader, base, secs=30)
    if rd["k"] != "ok":
        return [{"op": "wrote", "res": outcome(rd)}]
    if "shapes" in what:
        given = [wanted(st, parts) for st, parts in shapes]
        for f in (lambda: [shown(x) for x in rd["v"].shapes()], lambda: [shown(x) for x in rd["v"].iterShapes()],
                  lambda: [shown(rd["v"].shape(i)) for i in range(len(shapes))]):
            r = call(f, secs=60)
            ev.append({"op": "same", "what": "shapes", "given": given, "res": r if r["k"] == "ok" else outcome(r)})
    if "rows" in what:
        given = [repr([v.strip() if isinstance(v, str) else v for v in row]) for row in rows]
        for f in (lambda: [repr(x) for x in rd["v"].records()], lambda: [repr(x) for x in rd["v"].iterRecords()],
                  lambda: [repr(rd["v"].record(i)) for i in range(len(rows))]):
            r = call(f, secs=60)
            ev.append({"op": "same", "what": "rows", "given": given, "res": r if r["k"] == "ok" else outcome(r)})
        r = call(lambda: [repr(list(f)) for f in rd["v"].fields[1:]])
        ev.append({"op": "same", "what": "fields", "given": [repr([n, ft, int(z), d]) for n, ft, z, d in fields], "res": r if r["k"] == "ok" else outcome(r)})
    if "files" in what:
        r = call(layout, base, shapes, t, secs=30)
        ev.append(r["v"] if r["k"] == "ok" else {"op": "wrote", "res": outcome(r)})
        b = open(base + ".dbf", "rb").read()
        count, hlen, rlen = struct.unpack("<LHH", b[4:12])
        ev.append({"op": "table", "n": len(rows), "sizes": [int(f[2]) for f in fields], "count": min(count, 2 ** 30), "hlen": hlen, "rlen": rlen, "bytes": len(b)})
    Closer(rd["v"]).close()
    for k in ("shp", "shx", "dbf"):
        os.remove(base + "." + k)
    return ev


def texts(rnd, n, sizes):
    return [["".join(rnd.choice("abcXYZ 09") for _ in range(rnd.randint(0, z))) for z in sizes] for _ in range(n)]


def sessions(chk, sf, what):
    rnd = chk.rnd
    out = []
    idf = ("id", "N", 9, 0)
    if "shapes" in what or "files" in what:
        for t in rnd.sample((13, 15, 18, 23, 25, 28, 3, 5, 8, 31), chk.pick(1, 4)) + [rnd.choice((13, 15))]:
            out.append(session(chk, sf, t, big_shapes(rnd, t), [idf], [[i] for i in range(4)], what))
    n = chk.pick(1500 if "shapes" in what else 66000, 70000)
    for t in (1, rnd.choice((3, 5, 15, 25, 13, 28))):
        out.append(session(chk, sf, t, many_shapes(rnd, t, n), [idf, ("t", "C", 6, 0)],
                           [[i, "r%d" % i if i % 7 else ""] for i in range(n)], what))
        n = 1500
    if "rows" in what or "files" in what:
        for nf, size in ((130, 3), (250, 9), (60, 254)) if "rows" in what else ((130, 3), (60, 254), (255, 250)):
            fields = [("f%d" % i, "C", size, 0) for i in range(nf)]
            rows = texts(rnd, 3, [size] * nf)
            out.append(session(chk, sf, 1, [(1, [[[i, i, 0, 0]]]) for i in range(3)], fields, rows, what))
        fields = [("a", "C", 1, 0), ("b", "C", 3, 0)]
        rows = [["", ""], ["x", ""], ["", ""], ["", "y"], ["", ""]]
        out.append(session(chk, sf, 1, [(1, [[[i, i, 0, 0]]]) for i in range(5)], fields, rows, what))
    return out
