"""C30: frames."""
import contextlib
import io
import json
import math
import os
from fractions import Fraction
from vt.core import call, coral, ji, BAD
from . import maps
from .globe import fx, pair, some_lon, some_lat
from .num import big, common
from .simp import walk, jitter, real
from .c06 import polygon


class Flat:
    """A projection with exact arithmetic: (lon, lat) -> (ax * lon + bx, ay * lat + by)."""

    def __init__(self, ax=1, bx=0, ay=1, by=0):
        self.k = ax, bx, ay, by

    def geo2rect(self, lon, lat):
        ax, bx, ay, by = self.k
        return ax * lon + bx, ay * lat + by

    def rect2geo(self, x, y):
        ax, bx, ay, by = self.k
        return (x - bx) / ax, (y - by) / ay


class Cells(Flat):
    """Degrees to whole cells."""

    def geo2rect(self, lon, lat):
        return math.floor(lon * 4 + 0.5), math.floor(lat * 4 + 0.5)


class Entities:
    """Entity source with the interface of pf.Reader that the frame uses."""

    def __init__(self, ents):
        self.names = [n for n, _ in ents]
        self.parts = dict(ents)

    def get(self, name):
        return (iter(p) for p in self.parts[name]) if len(name) % 2 else self.parts[name]


def quiet(fn, *a):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def ex(x):
    try:
        return str(Fraction(x))
    except Exception:
        return "?" + repr(x)


def model(prj, like):
    return [[k, ex(getattr(prj, k, None))] for k in "rabef" if hasattr(like, k)]


def shot(prj, pts, r):
    out = []
    for p in pts:
        res, (x, y) = pair(call(prj.geo2rect, *p))
        out.append({"k": res["k"], "x": fx(x / r), "y": fx(y / r)})
    return out


def persistence(chk, pr, fr, bb, ev, i):
    rnd = chk.rnd
    sess = []
    paths = [chk.path("f%d.json" % k) for k in range(2)]
    files = {}
    for step in range(rnd.randint(2, 6)):
        p = rnd.choice(paths)
        if p not in files or rnd.random() < 0.4:
            kind = maps.KINDS[(i + step) % len(maps.KINDS)] if rnd.random() < 0.7 else rnd.choice(maps.KINDS)
            o = maps.some_origin(rnd, kind)
            m, r, e = maps.some_model(rnd, pr, kind)
            prj = maps.make(pr, kind, o, m)
            c = [rnd.choice((rnd.randint(-1000, 1000), rnd.uniform(-1e7, 1e7), 0, 0.1)) for _ in range(4)]
            box = bb.BBox((c[0], c[1]), (c[2], c[3]))
            pts = []
            while len(pts) < 4:
                q = (some_lon(rnd), max(-85, min(85, some_lat(rnd))))
                if kind == "ConicEqualArea" and abs(q[0]) > 175 or kind != "ConicEqualArea" and abs((q[0] - o[0]) % 360 - 180) < 3:
                    continue
                if maps.usable(kind, o, q, 0.2) and not (kind == "TransMercator" and not maps.usable("ObliqMercator", (o[0], 0), q, 0.2)):
                    pts.append(q)
            frame = fr.Frame(prj, box)
            files[p] = (frame, pts, r, kind)
            res = call(frame.save, p)
            sess.append({"op": "saved", "path": p, "kind": kind, "model": model(prj, prj), "box": [ex(x) for x in c],
                         "pts": shot(prj, pts, r), "res": maps.obs(res), "in": [kind, o, m, c, pts]})
        else:
            frame, pts, r, kind = files[p]
            res = call(fr.load, p)
            e = {"op": "loaded", "path": p, "kind": "", "model": [], "box": [], "pts": [], "res": maps.obs(res)}
            if res["k"] == "ok":
                g = call(lambda: (res["v"].projection, res["v"].bounding))
                if g["k"] == "ok":
                    q, b = g["v"]
                    e.update(kind=type(q).__name__, model=model(q, frame.projection), pts=shot(q, pts, r),
                             box=[ex(getattr(b, a, None)) for a in ("x0", "y0", "x1", "y1")])
                    if rnd.random() < 0.5:      # the loaded frame is as good as the saved one
                        files[p] = (res["v"], pts, r, kind)
            sess.append(e)
    ev.append(sess)


def ents_json(ents):
    return [{"name": n, "parts": [[list(q) for q in p] for p in ps]} for n, ps in ents]


def select(chk, fr, frame, key, source, ents, box, sess):
    r = call(quiet, frame.cachenames, key, source)
    sess.append({"op": "cached", "path": key, "box": box, "ents": ents_json(ents),
                 "res": {"k": r["k"], "v": ji(r["v"]) if r["k"] == "ok" else str(r["v"])}})
    return r


def recall(frame, key, sess):
    r = call(frame.loadnames, key)
    v = str(r["v"])
    if r["k"] == "ok":
        v = [x if isinstance(x, str) else "?" + repr(x) for x in r["v"]] if isinstance(r["v"], (list, tuple)) else ["?" + v]
    sess.append({"op": "names", "path": key, "res": {"k": r["k"], "v": v}})
    return r


NAMES = ("Rio", "São Paulo", " lead", "trail ", "a  b", "x", "Åland", "42", "tab\tin", "a.names", "trail\t", "É", "...", "name:1")


def selection(chk, fr, bb, pf, ev):
    rnd = chk.rnd
    cfg = ("SPECIFICATION Spec\nCONSTANTS Boxes=%d MaxEnt=%d MaxParts=%d\n"
           "INVARIANTS Exactly Once Sound Agrees Export\nCHECK_DEADLOCK FALSE\n")
    sess = []
    for cfgv in chk.pick(((14, 1, 2), (5, 2, 2), (4, 3, 1)), ((14, 2, 2), (6, 3, 1), (3, 2, 3))):
        cases = chk.export("MC_Select", cfg % cfgv)
        rnd.shuffle(cases)
        for parts, want in cases[:chk.pick(500, 6000)]:
            names = ["e%d" % (k + 1) for k in range(len(parts))]
            ents = [(n, [[tuple(q) for q in p] for p in ps]) for n, ps in zip(names, parts)]
            frame = fr.Frame(Flat(), bb.BBox((2, 2), (4, 4)))
            key = chk.path("sel")
            one = []
            r = select(chk, fr, frame, key, Entities(ents), ents, [2, 2, 4, 4], one)
            q = recall(frame, key, one)
            chk.replayed += 1
            w = [names[k - 1] for k in want]
            if r != {"k": "ok", "v": len(w)} or q != {"k": "ok", "v": w} or rnd.random() < 0.1:
                sess.append(one)
    for i in range(chk.pick(250, 2500)):
        one = []
        keys = [chk.path("k%d" % k) for k in (0, 1)]
        used = []
        for step in range(rnd.randint(1, 4)):
            w = rnd.choice((4, 10, 40))
            box = [rnd.randint(-w, w), rnd.randint(-w, w)]
            box += [box[0] + rnd.randint(1, w), box[1] + rnd.randint(1, w)]
            ax, ay = rnd.choice((1, 2, -1, 0.5)), rnd.choice((1, 3, -2))
            prj = Flat(ax, rnd.randint(-3, 3), ay, rnd.randint(-3, 3))
            names = rnd.sample(NAMES, rnd.randint(0, 6))
            ents, geo = [], []
            for n in names:
                ps = []
                for _ in range(rnd.choice((0, 1, 1, 2, 3, 5))):
                    c = (rnd.randint(-2 * w, 2 * w), rnd.randint(-2 * w, 2 * w))
                    m = rnd.choice((0, 1, 3, w))
                    pts = [(c[0] + rnd.randint(-m, m), c[1] + rnd.randint(-m, m)) for _ in range(rnd.choice((1, 2, 3, 6)))]
                    if rnd.random() < 0.3:      # at the edges and corners of the frame
                        pts[-1] = (rnd.choice(box[::2]), rnd.choice(box[1::2]))
                    if rnd.random() < 0.2:
                        pts = [(q[0], pts[0][1]) for q in pts]
                    ps.append(pts)
                ents.append((n, ps))
                geo.append((n, [[prj.rect2geo(*q) for q in p] for p in ps]))
            # exactness of the stub: every point must come back
            if any(prj.geo2rect(*g) != tuple(q) for (_, ps), (_, gs) in zip(ents, geo) for p, gp in zip(ps, gs) for q, g in zip(p, gp)):
                continue
            frame = fr.Frame(prj, bb.BBox((box[0], box[1]), (box[2], box[3])))
            k = rnd.choice(keys)
            used.append(k)
            select(chk, fr, frame, k, Entities(geo), ents, box, one)
            if rnd.random() < 0.7:
                recall(frame, rnd.choice(used), one)
        if one:
            sess.append(one)
    # real entity files
    for i in range(chk.pick(30, 300)):
        names = rnd.sample([n for n in NAMES if n.strip() == n and "\t" not in n], rnd.randint(1, 5))
        ents = []
        for n in names:
            c = (rnd.uniform(-170, 170), rnd.uniform(-80, 80))
            m = rnd.choice((1, 5, 9))
            ents.append((n, [[(c[0] + rnd.uniform(-m, m), c[1] + rnd.uniform(-m, m)) for _ in range(rnd.randint(1, 5))]
                             for _ in range(rnd.randint(1, 3))]))
        path = chk.path("w.pf")

        def write():
            wr = pf.Writer(path)
            for n, ps in ents:
                wr.write(n, ps)
            wr.close()
        rd = call(write)
        if rd["k"] == "ok":
            rd = call(pf.Reader, path)
        if rd["k"] != "ok":
            continue                       # C10 judges entity files
        seen = call(lambda: [(n, [list(p) for p in rd["v"].get(n)]) for n in rd["v"].names])
        if seen["k"] != "ok":
            continue
        prj = Cells()
        flat = [(n, [[prj.geo2rect(*q) for q in p] for p in ps]) for n, ps in seen["v"]]
        box = [rnd.randint(-700, 500), rnd.randint(-340, 200)]
        box += [box[0] + rnd.randint(50, 700), box[1] + rnd.randint(50, 400)]
        frame = fr.Frame(prj, bb.BBox((box[0], box[1]), (box[2], box[3])))
        one = []
        select(chk, fr, frame, chk.path("real"), rd["v"], flat, box, one)
        recall(frame, chk.path("real"), one)
        sess.append(one)
        call(rd["v"].close)
    ev.extend(sess)


def placement(chk, pr, fr, bb, ev):
    rnd = chk.rnd
    one = []
    simp = []
    for i in range(chk.pick(500, 5000)):
        if i % 2:
            kind = rnd.choice(maps.KINDS)
            o = maps.some_origin(rnd, kind)
            m, r, e = maps.some_model(rnd, pr, kind)
            prj = maps.make(pr, kind, o, m)
            p = (some_lon(rnd), max(-85, min(85, some_lat(rnd))))
            if not maps.usable(kind, o, p, 0.1):
                continue
        else:
            prj, kind = Flat(rnd.choice((1, 2, 0.5, -1)), rnd.choice((0, 3, 0.25)), rnd.choice((1, -4)), 0), "Flat"
            p = (rnd.randint(-40, 40) / rnd.choice((1, 2)), rnd.randint(-40, 40))
        f = call(prj.geo2rect, *p)
        if f["k"] != "ok" or not all(math.isfinite(v) for v in f["v"]):
            continue
        x, y = f["v"]
        scale = rnd.choice((1, 2, 3, 5, 10, 0.5, 0.25, 1000, 1234.5, 100000))
        if max(abs(x), abs(y)) / scale > 1e12:
            continue
        frame = fr.Frame(prj, bb.BBox((0, 0), (1, 1)))
        res, (cx, cy) = pair(call(frame.point, scale, p))
        d, (X, Y, S) = common(x, y, scale)
        if int(cx) != cx or int(cy) != cy:
            res = {"k": "exc", "v": "not a cell: %r" % ((cx, cy),)}
        one.append({"op": "point", "x": big(X), "y": big(Y), "scale": big(S), "cx": big(cx), "cy": big(cy), "res": res,
                    "in": [kind, p, scale, (x, y), (cx, cy)]})
    ev.extend(one[i:i + 25] for i in range(0, len(one), 25))
    for i in range(chk.pick(200, 2000)):
        op = rnd.choice(("open", "ring"))
        n = rnd.choice((0, 1, 2, 3, 4, 6, 10, 20, 40)) if op == "open" else rnd.choice((1, 3, 4, 6, 10, 20))
        w = rnd.choice((1, 3, 5, 30))
        pts = walk(rnd, n, w, w, rnd.random() < 0.5) if n else []
        if op == "ring" and rnd.random() < 0.6:
            pts = polygon(rnd, rnd.randint(3, 7), rnd.choice((4, 9)))
            at = rnd.randrange(len(pts))
            pts = pts[at:] + pts[:at]
        X, m, den, scl = jitter(rnd, pts)
        prj = Flat(rnd.choice((1, 2, -1, 0.5)), rnd.randint(-2, 2), rnd.choice((1, -2, 4)), rnd.randint(-2, 2))
        ins = [prj.rect2geo(x / den, y / den) for x, y in X]
        if any(prj.geo2rect(*g) != (x / den, y / den) for g, (x, y) in zip(ins, X)):
            continue
        frame = fr.Frame(prj, bb.BBox((0, 0), (1, 1)))
        scale = scl
        if rnd.random() < 0.3:
            scale, X = scl / 2, [(2 * x, 2 * y) for x, y in X]

        def go():
            how = rnd.randint(0, 2)
            src = ins if how else (p for p in ins)
            it = frame.planify(scale, src, closed=op == "ring") if how < 2 or op == "open" else frame.planify(scale, src)
            out = []
            for p in it:
                out.append(p)
                if len(out) > 4 * len(ins) + 20:
                    raise RuntimeError("too many points")
            return out
        r = call(go)
        if r["k"] == "ok":
            try:
                r = {"k": "ok", "v": [[ji(x), ji(y)] for x, y in r["v"]]}
            except Exception:
                r = {"k": "ok", "v": [[BAD, BAD]]}
        else:
            r = {"k": r["k"], "v": str(r["v"])}
        simp.append({"op": op, "pts": [list(p) for p in X], "m": m, "k": 8, "res": r})
    chk.judge("T_Simplify", [simp[i:i + 20] for i in range(0, len(simp), 20)])


def run(chk):
    with contextlib.redirect_stderr(open(os.devnull, "w")):      # where the progress meter will go
        pr, fr, bb, pf = coral("proj"), coral("frame"), coral("bbox"), coral("pf")
    ev = []
    for i in range(chk.pick(200, 2500)):
        persistence(chk, pr, fr, bb, ev, i)
    selection(chk, fr, bb, pf, ev)
    placement(chk, pr, fr, bb, ev)
    chk.judge("T_Frame", ev)
