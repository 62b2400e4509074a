"""C37: maps drawn the documented way."""
import contextlib
import io
import os
from vt.core import call, coral
from . import simp
from .vec import BadProgram, ink, read_program

BLANKEV = {"op": "", "want": [], "min": 0, "fill": [], "stroke": [], "bg": [], "kind": "", "id": "", "attr": [],
           "rings": [], "err": "", "box": [], "head": True, "prog": []}
NAMES = ("Africa", "Europe", "África", "Südamerika", "North America", "afric", "Afric", "Áfric", "AFRICA")


def chars(t):
    return [ord(c) for c in t]


def projections(proj, rnd):
    o = (rnd.choice((0, 12.5, -60, 151)), rnd.choice((0, 10, -35, 52)))
    a = rnd.choice((35, 20, 48))
    kind = rnd.choice((proj.TransMercator, proj.TransMercator, proj.Mercator, proj.Stereographic, proj.AzimuthalEquidistant,
                       proj.AzimuthalEqualArea, proj.EckertIV, proj.ConicEqualArea, proj.ConicEqualArea))
    if kind is proj.ConicEqualArea:
        return kind((a, a + rnd.choice((5, 20)))), (rnd.choice((0, -10)), a - 2)
    if kind in (proj.TransMercator, proj.Stereographic, proj.AzimuthalEquidistant, proj.AzimuthalEqualArea) and rnd.random() < 0.6:
        return kind(o), o
    return kind(), (0, 0)


class Atlas:
    def __init__(self, chk, mods):
        self.chk, self.rnd, self.m = chk, chk.rnd, mods
        self.prj, o = projections(mods["proj"], self.rnd)
        self.pix = self.rnd.choice((5000, 2000, 8000.0, 3500.5))
        x, y = self.prj.geo2rect(o[0] + 3, o[1] + 4)
        self.mid = (round(x / self.pix), round(y / self.pix))

    def ring(self, n):
        """Pixels of a closed part of n points and positions within these pixels."""
        rnd = self.rnd
        for _ in range(300):
            w = simp.walk(rnd, n - 1, *rnd.choice(((4, 3), (12, 9), (40, 30))), rnd.random() < 0.3)
            at = (rnd.randint(-30, 30), rnd.randint(-30, 30))
            px = [(x + at[0] + self.mid[0], y + at[1] + self.mid[1]) for x, y in w]
            try:
                geo = [self.prj.rect2geo((x + rnd.uniform(-0.3, 0.3)) * self.pix, (y + rnd.uniform(-0.3, 0.3)) * self.pix) for x, y in px]
            except Exception:           # no such place on this map
                continue
            if all(-179 < lon < 179 and -89 < lat < 89 for lon, lat in geo) and geo[0] != geo[-1]:
                return px + [px[0]], geo + [geo[0]]
        raise RuntimeError("no positions on the map of " + type(self.prj).__name__)


def run(chk):
    mods = {k: coral(k) for k in ("shapefile", "coord", "proj", "vector", "tqdm", "table", "pf")}
    sf, coord, vector, tqdm, table, pf = (mods[k] for k in ("shapefile", "coord", "vector", "tqdm", "table", "pf"))
    rnd = chk.rnd
    cases = chk.export("MC_Atlas", "SPECIFICATION Spec\nCONSTANTS MaxShapes=%d MaxParts=2\nINVARIANTS Complete Never Export\nCHECK_DEADLOCK FALSE\n" % chk.pick(2, 3))
    rnd.shuffle(cases)
    cases = cases[:chk.pick(110, 3000)]
    longer = chk.pick(40, 500)
    for _ in range(longer):
        cases.append([{"sel": rnd.random() < 0.6, "parts": [rnd.choice(("short", "inside", "inside", "outside")) for _ in range(rnd.randint(1, 5))]}
                      for _ in range(rnd.randint(3, 8))])
    ev = []
    for n, src in enumerate(cases):
        a = Atlas(chk, mods)
        kind = "table" if n % 3 == 2 else "shapes"
        least = rnd.choice((4, 6, 9))
        want = rnd.choice(NAMES)
        fill, stroke = rnd.choice(((None, 0), ((0.4, 0.9, 0.2), (1, 1, 1)), (0.5, None), ((0.5, 0.25, 1), 0)))
        bg = rnd.choice((None, None, (0.5, 0.8, 0.9)))
        s = [dict(BLANKEV, op="map", want=chars(want), min=least, fill=ink(fill), stroke=ink(stroke), bg=ink(bg), kind=kind)]
        ents, outside = [], set()
        for k, x in enumerate(src):
            attr = want if x["sel"] else rnd.choice([q for q in NAMES if q != want])
            rings, geos = [], []
            for p in x["parts"]:
                px, geo = a.ring(rnd.randint(3, least - 1) if p == "short" else rnd.randint(max(least, 4), least + 20))
                if p == "outside":
                    outside.add(tuple(geo[0]))
                rings.append({"px": px, "out": p == "outside"})
                geos.append(geo)
            ents.append((str(k), attr, geos))
            if kind == "table":         # ends are not repeated in P files
                for r in rings:
                    r["px"] = r["px"][:-1]
            s.append(dict(BLANKEV, op="entity", id=str(k), attr=chars(attr), rings=rings))
        base = chk.path("map")
        order = list(range(len(ents)))
        if kind == "table":
            s[0]["min"] = least - 1
            rnd.shuffle(order)
            rows = [ents[k] for k in order]
            for i, attr, geos in rows:
                s.append(dict(BLANKEV, op="row", id=i, attr=chars(attr)))
            outpx = {tuple(r["px"][0]) for e in s if e["op"] == "entity" for r in e["rings"] if r["out"]}
            outnum = [(e["id"], k) for e in s if e["op"] == "entity" for k, r in enumerate(e["rings"]) if r["out"]]
        rtype = rnd.choice((5, 5, 15, 3, 25))
        enc = rnd.choice(("latin1", "utf-8"))
        wide = rnd.choice((1, 3, 56))

        def shapes():
            w = sf.Writer(rtype, encoding=enc)
            for f in range(wide):
                w.field("F%d" % f, "C", 40)
            for i, attr, geos in ents:
                w.poly([[list(p) for p in g] for g in geos], rtype)
                w.record(*["x%s" % i] * (wide - 1) + [attr])
            w.save(base)
            r = sf.Reader(base, encoding=enc)
            cvs = vector.Canvas(bg)
            if True:
                for sr in tqdm.tqdm(r.shapeRecords(), file=io.StringIO()):
                    if sr.record[wide - 1] != want:
                        continue
                    points = sr.shape.points
                    offsets = list(sr.shape.parts) + [len(points)]
                    for b, c in zip(offsets[:-1], offsets[1:]):
                        if c - b < least:
                            continue
                        out = tuple(points[b]) in outside
                        if out:
                            bb = cvs.bbox
                        polygon = (a.prj.geo2rect(lon, lat) for lon, lat in points[b:c])
                        polygon = coord.simplify(polygon, a.pix)
                        cvs.addpolygon(polygon, fill=fill, stroke=stroke)
                        if out:
                            cvs.bbox = bb
            for f in (r.shp, r.shx, r.dbf):
                f.close()
            return cvs

        def tables():
            with open(base + ".csv", "w", encoding="utf-8") as f:
                f.write("# entities\nuf_id,region\n" + "".join("%s,%s\n" % (i, attr) for i, attr, g in rows))
            w = pf.Writer(base + ".p", rnd.choice((4, 8)))
            for i, attr, geos in ents:
                w.write(i, geos)
            w.close()
            ufs = table.readfile(base + ".csv")
            pff = pf.Reader(base + ".p")
            cvs = vector.Canvas(bg)
            if True:
                for uf in tqdm.tqdm(list(table.getall(ufs, "region", want)), file=io.StringIO()):
                    for k, poly in enumerate(pff.get(uf.uf_id)):
                        poly = [a.prj.geo2rect(lon, lat) for lon, lat in poly]
                        out = (uf.uf_id, k) in outnum
                        if out:
                            bb = cvs.bbox
                        poly = list(coord.simplify(poly, a.pix)) if len(poly) >= least - 1 else []
                        if poly:
                            cvs.addpolygon(poly, fill=fill, stroke=stroke)
                        if out:
                            cvs.bbox = bb
            pff.close()
            return cvs

        def go():
            if kind == "table" and not rows:
                return None
            cvs = tables() if kind == "table" else shapes()
            cvs.save(base + ".eps")
            return read_program(base + ".eps")
        r = call(go, secs=20)
        if r["k"] == "ok" and r["v"] is None:
            continue
        e = dict(BLANKEV, op="saved", err="" if r["k"] == "ok" else "%s %s" % (r["v"], r.get("msg", "")))
        e["in"] = [repr(a.prj.__class__.__name__), a.pix, want, kind]
        if r["k"] == "ok":
            e.update(r["v"])
        s.append(e)
        ev.append(s)
        chk.replayed += n < len(cases) - longer
    chk.judge("T_Atlas", ev, "SPECIFICATION ASpec\nCHECK_DEADLOCK FALSE\n")
