"""Shapefiles as the specification sees them (C11-C15)."""
import contextlib
import copy
import io
import math
import os
import struct
from fractions import Fraction
from vt.core import call

TYPES = (1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31)
POINTS = (1, 11, 21)
LINES = (3, 13, 23)
RINGS = (5, 15, 25, 31)
MULTI = (8, 18, 28)
BOXED = (3, 5, 8, 13, 15, 18, 23, 25, 28, 31)
NOT = [99999, 0, 0, 0]


def words(x):
    try:
        if isinstance(x, (bool, str, bytes)) or x is None:
            return NOT
        x = float(x) + 0.0
        if not math.isfinite(x):
            return NOT
        return list(struct.unpack(">4H", struct.pack(">d", x)))
    except Exception:
        return NOT


def seq(xs, f):
    try:
        return [f(x) for x in xs]
    except TypeError:
        return ["?"]


def whole(x):
    return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2 ** 31 else -1


def pad(p):
    return [words(x) for x in (list(p) + [0, 0])[:4]]


def outcome(r):
    return {"k": r["k"], "v": "" if r["k"] == "ok" else str(r["v"])}


def coordinate(rnd, how):
    if how == "int":
        return rnd.randint(-20, 20)
    if how == "dyadic":
        return rnd.randint(-4000, 4000) / 16
    if how == "real":
        return rnd.uniform(-200, 200)
    if how == "positive":
        return rnd.uniform(1, 50)
    if how == "negative":
        return -rnd.uniform(1, 50)
    return rnd.choice((0, 1e300, -1e300, 5e-324, 1e-12, -1e-12, 180, -180, 90.0, 1 / 3, rnd.uniform(-1e9, 1e9)))


HOWS = ("int", "dyadic", "real", "real", "positive", "negative", "odd")


def point(rnd, dim, how, zhow, mhow):
    p = [coordinate(rnd, how), coordinate(rnd, how)]
    if dim > 2:
        p.append(coordinate(rnd, zhow))
    if dim > 3:
        m = coordinate(rnd, mhow)
        p.append(m if m > -1e30 else 0)
    return p


def shape(rnd, t, big=False):
    """Arguments for a shape of type t: (t, parts, part types)."""
    how, zhow, mhow = (rnd.choice(HOWS) for _ in range(3))
    dim = rnd.choice((2, 3, 4, 4))
    if t in POINTS:
        return t, [[point(rnd, dim, how, zhow, mhow)]], []
    nparts = 1 if rnd.random() < 0.4 else rnd.randint(1, 4)
    parts = []
    for _ in range(nparts):
        n = rnd.choice((1, 2, 3, 4, 7)) if not big else rnd.randint(100, 400)
        if t in RINGS:
            n = max(n, 3)
        part = [point(rnd, dim, how, zhow, mhow) for _ in range(n)]
        if t in RINGS and rnd.random() < 0.5:
            part.append(list(part[0]))
        if rnd.random() < 0.2:
            part.insert(1, list(part[0]))
        parts.append(part)
    if rnd.random() < 0.15:         # the same part twice
        parts.append([list(p) for p in parts[0]])
    if t == 31 and rnd.random() < 0.5:
        return t, parts, [rnd.randint(0, 5) for _ in parts]
    return t, parts, []


class Session:
    """A writer under observation."""

    def __init__(self, chk, sf, t, declared=True, encoding=None):
        self.chk, self.sf, self.rnd = chk, sf, chk.rnd
        self.ev = [{"op": "new", "type": t if declared else 0}]
        self.t = t
        args = {} if encoding is None else {"encoding": encoding}
        self.enc = encoding or "utf-8"
        self.w = sf.Writer(t, **args) if declared else sf.Writer(**args)
        self.fields, self.n = [], 0
        self.files = {}

    def add(self, t, parts, ptypes):
        rnd, w = self.rnd, self.w
        cast = rnd.choice((list, tuple)) if parts else list
        given = [[cast(p) for p in part] for part in parts]
        before = copy.deepcopy(given)
        if t == 0:
            r = call(w.null)
        elif t in POINTS:
            r = call(w.point, *given[0][0])
        elif t in LINES and rnd.random() < 0.5:
            r = call(w.line, given, t)
        elif t == 31:
            kinds = list(ptypes)
            r = call(w.poly, given, t, kinds) if ptypes else call(w.poly, given, t)
        elif rnd.random() < 0.5:
            r = call(w.poly, parts=given, shapeType=t)
        else:
            r = call(w.poly, given, t)
        self.ev.append({"op": "add", "res": outcome(r), "same": given == before,
                        "shape": {"t": t, "parts": [[pad(p) for p in part] for part in parts],
                                  "ptypes": list(ptypes) or [31] * len(parts)},
                        "in": [t, parts, ptypes]})
        if rnd.random() < 0.2:          # the caller goes on using its lists
            for part in given:
                for p in part:
                    if isinstance(p, list):
                        p[0] = 77777
                part.clear()
            if t == 31 and parts and ptypes:
                kinds[0] = 77

    def field(self, name, ft, size, dec):
        r = call(self.w.field, name, ft, rnd_size(self.rnd, size), dec)
        self.fields.append((name, ft, size, dec))
        self.ev.append({"op": "field", "res": outcome(r), "same": True,
                        "desc": list(name.replace(" ", "_").encode(self.enc)) + list(ft.encode("ascii")),
                        "f": {"name": name.replace(" ", "_"), "type": ft, "size": size, "dec": dec}})

    def record(self, vals, how):
        before = list(vals)
        if how == "by name":
            d = {f[0]: v for f, v in zip(self.fields, vals) if v is not MISSING}
            r = call(self.w.record, **d)
        else:
            r = call(self.w.record, *[None if v is MISSING else v for v in vals])
        self.ev.append({"op": "record", "res": outcome(r), "same": before == list(vals),
                        "vals": [given(v, self.enc) for v in vals], "in": [how, repr(vals)]})

    def save(self, how, bytes_wanted=True):
        w, chk = self.w, self.chk
        base = chk.path("f%d" % self.n)
        parts = {"shp": ("shp",), "index": ("shp", "shx"), "dbf": ("dbf",), "no index": ("shp", "dbf")}.get(how, ("shp", "shx", "dbf"))
        has = {k: k in parts for k in ("shp", "shx", "dbf")}
        here = chk.path("here%d" % self.n)

        def path():
            w.save(base if self.rnd.random() < 0.5 else base + ".shp")

        def objects():
            fs = {k: self.files.setdefault(k, io.BytesIO()) if how == "same objects" else io.BytesIO() for k in parts}
            w.save(**fs)
            for k in parts:
                with open(base + "." + k, "wb") as g:
                    g.write(fs[k].getvalue())

        def generated():
            with contextlib.chdir(here):
                name = w.save()
            for k in parts:
                os.rename(name + "." + k, base + "." + k)

        def single():
            w.saveShp(base)
            w.shp.close()
            w.saveShx(base)
            w.shx.close()
            w.saveDbf(base)
            w.dbf.close()

        def go():
            f = {"path": path, "single": single, "generated": generated}.get(how, objects)
            if how not in ("generated",) + PARTIAL:
                return f()
            os.makedirs(here, exist_ok=True)
            with contextlib.chdir(here):
                f()
            if os.listdir(here):
                raise ValueError("other files")
        r = call(go, secs=20)
        self.base = base
        self.n += 1
        e = {"op": "saved" if not bytes_wanted else "save", "res": outcome(r)}
        if bytes_wanted:
            e["has"] = has
            for k in ("shp", "shx", "dbf"):
                try:
                    e[k] = list(open(base + "." + k, "rb").read())
                except OSError:
                    e[k] = []
            e["asked"] = bool(self.rnd.random() < 0.7)
            for k, f in (("box", w.bbox), ("zbox", w.zbox), ("mbox", w.mbox)):
                q = call(f)
                e[k] = seq(q["v"], words) if q["k"] == "ok" else []
        self.ev.append(e)
        return r["k"] == "ok"

    def reader(self, how):
        sf, base = self.sf, self.base
        enc = {} if self.enc == "utf-8" and self.rnd.random() < 0.5 else {"encoding": self.enc}
        if how == "path":
            return sf.Reader(base, **enc)
        if how == "shp path":
            return sf.Reader(base + ".shp", **enc)
        fs = {k: io.BytesIO(open(base + "." + k, "rb").read()) for k in how.split()}
        return sf.Reader(**fs, **enc)

    def read_shapes(self, how, via):
        def go():
            r = self.reader(how)
            with contextlib.closing(Closer(r)):
                if via == "iter":
                    ss = list(r.iterShapes())
                elif via == "each":
                    n = sum(1 for _ in r.iterShapes())
                    ss = [r.shape(i) for i in range(n)]
                elif via == "pairs":
                    ss = [x.shape for x in r.shapeRecords()]
                else:
                    ss = r.shapes()
                return r.shapeType, [look(x) for x in ss]
        r = call(go, secs=20)
        ok = r["k"] == "ok"
        self.ev.append({"op": "shapes", "type": whole(r["v"][0]) if ok else -1,
                        "res": {"k": "ok", "v": r["v"][1]} if ok else outcome(r), "in": [how, via]})

    def read_table(self, how, via):
        def go():
            r = self.reader(how)
            with contextlib.closing(Closer(r)):
                if via == "iter":
                    rows = list(r.iterRecords())
                elif via == "each":
                    rows = [r.record(i) for i in range(len(r.records()))]
                elif via == "pairs":
                    rows = [x.record for x in r.shapeRecords()]
                else:
                    rows = r.records()
                return [list(f) for f in r.fields], [[seen(v, self.enc) for v in row] for row in rows]
        r = call(go, secs=20)
        ok = r["k"] == "ok"

        def field(f):
            try:
                n, t, z, d = f
                return {"name": n if isinstance(n, str) else "?", "type": t if isinstance(t, str) else "?", "size": whole(z), "dec": whole(d)}
            except Exception:
                return {"name": "?", "type": "?", "size": -1, "dec": -1}
        self.ev.append({"op": "records", "res": {"k": "ok", "v": r["v"][1]} if ok else outcome(r), "in": [how, via]})
        self.ev.append({"op": "fields", "res": {"k": "ok", "v": [field(f) for f in r["v"][0]]} if ok else outcome(r)})


class Closer:
    def __init__(self, r):
        self.r = r

    def close(self):
        for k in ("shp", "shx", "dbf"):
            f = getattr(self.r, k, None)
            if f is not None:
                f.close()


PARTIAL = ("shp", "index", "dbf", "no index")


def rnd_size(rnd, size):
    return str(size) if rnd.random() < 0.3 else size


class _Missing:
    def __repr__(self):
        return "missing"


MISSING = _Missing()


def chars(text, enc):
    try:
        return [list(c.encode(enc)) for c in text]
    except UnicodeError:
        return [[0, 0]]


def exact(v):
    try:
        return str(Fraction(v))
    except Exception:
        return "?"


def given(v, enc):
    if v is MISSING or v is None:
        return {"k": "none", "c": [], "x": ""}
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return {"k": "num", "c": chars(str(v), enc), "x": exact(v)}
    return {"k": "text", "c": chars(str(v), enc), "x": ""}


def seen(v, enc):
    if isinstance(v, str):
        return {"k": "text", "v": chars(v, enc)}
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return {"k": "num", "v": exact(v)}
    if isinstance(v, (list, tuple)) and all(isinstance(x, int) for x in v):
        return {"k": "date", "v": list(v)}
    return {"k": "other", "v": repr(v)}


def look(x):
    """Everything a shape shows."""
    def num(v):
        return words(v)
    o = {"t": whole(getattr(x, "shapeType", None)), "pts": [], "parts": [], "ptypes": [], "box": [], "z": [], "m": []}
    o["pts"] = seq(getattr(x, "points", []), lambda p: seq(p, num))
    for a, k, f in (("parts", "parts", whole), ("partTypes", "ptypes", whole), ("bbox", "box", num), ("z", "z", num), ("m", "m", num)):
        if hasattr(x, a):
            o[k] = seq(getattr(x, a), f)
    return o


CFG = ("SPECIFICATION Spec\nCONSTANTS TypeSet={1,3,5,8,11,13,15,18,21,23,25,28,31} MaxOps=%d Catalog=3\n"
       "INVARIANTS Consistent Tiled Export\nCHECK_DEADLOCK FALSE\n")


def model(chk, ops):
    return chk.export("MC_Save", CFG % ops)


def one(rnd, t, sizes):
    """A shape of type t whose parts have these many points."""
    if t in POINTS:
        sizes = (1,)
    how = rnd.choice(("int", "real", "negative"))
    return t, [[point(rnd, 4, how, "int", "int") for _ in range(n)] for n in sizes], [2, 3][:len(sizes)] if t == 31 else []


def encode(t, shapes, rnd=None, nodata=None, padded=None):
    """Files of a conforming writer: shapes = [(type, [parts of (x, y, z, m)])] of type t or null -> (shp, shx)."""
    recs = []
    for st, parts in shapes:
        pts = [(list(p) + [0, 0])[:4] for part in parts for p in part]
        b = struct.pack("<i", st)
        if st in POINTS:
            b += struct.pack("<2d", *pts[0][:2])
            if st == 11:
                b += struct.pack("<d", pts[0][2])
            if st != 1:
                b += struct.pack("<d", pts[0][3])
        elif st:
            xs, ys = [p[0] for p in pts], [p[1] for p in pts]
            b += struct.pack("<4d", min(xs), min(ys), max(xs), max(ys))
            if st not in MULTI:
                b += struct.pack("<i", len(parts))
            b += struct.pack("<i", len(pts))
            if st not in MULTI:
                k = 0
                for part in parts:
                    b += struct.pack("<i", k)
                    k += len(part)
            if st == 31:
                b += struct.pack("<%di" % len(parts), *[2] * len(parts))
            for p in pts:
                b += struct.pack("<2d", *p[:2])
            for k, types in ((2, (13, 15, 18, 31)), (3, (13, 15, 18, 23, 25, 28, 31))):
                bare = k == 3 and any(p[k] is None for p in pts)
                if st in types and not (bare and nodata is None) and not (k == 3 and st not in (23, 25, 28) and rnd and rnd.random() < 0.3):
                    v = [nodata if p[k] is None else p[k] for p in pts]
                    b += struct.pack("<2d", min(v), max(v)) + struct.pack("<%dd" % len(v), *v)
        padded = padded or rnd
        if padded and padded.random() < 0.1:
            b += bytes(padded.randrange(256) for _ in range(4 * padded.randint(1, 3)))
        recs.append(b)
    body, index = b"", b""
    for i, b in enumerate(recs):
        index += struct.pack(">2i", (100 + len(body)) // 2, len(b) // 2)
        body += struct.pack(">2i", i + 1, len(b) // 2) + b
    allp = [(list(p) + [0, 0])[:4] for _, parts in shapes for part in parts for p in part] or [[0, 0, 0, 0]]
    allp = [[0 if x is None else x for x in p] for p in allp]
    lo, hi = [min(c) for c in zip(*allp)], [max(c) for c in zip(*allp)]

    def head(n):
        return struct.pack(">7i", 9994, 0, 0, 0, 0, 0, n // 2) + struct.pack("<2i", 1000, t) + \
            struct.pack("<8d", lo[0], lo[1], hi[0], hi[1], lo[2], hi[2], lo[3], hi[3])
    told = 100 + len(body)
    if rnd and rnd.random() < 0.2:              # some programs write wrong lengths
        told = rnd.choice((0, 100, told - 8, told + 28, 2 * told, 2 ** 31))
    return head(told) + body, head(100 + len(index)) + index


def table(fields, rows, gone=(), nul=False):
    """An attribute table: fields = [(name, type, size, dec)], rows of bytes."""
    size = 1 + sum(f[2] for f in fields)
    b = struct.pack("<4BLHH20x", 3, 113, 7, 27, len(rows), 33 + 32 * len(fields), size)
    for n, t, z, d in fields:
        b += struct.pack("<11sc4xBB14x", n.encode(), t.encode(), z, d)
    b += b"\r"
    for i, row in enumerate(rows):
        b += (b"*" if i + 1 in gone else b" ") + b"".join(v.rjust(f[2]) if f[1] == "N" and not nul else v.ljust(f[2], b"\0") if v and f[1] == "N" else v.ljust(f[2]) for f, v in zip(fields, row))
    return b
