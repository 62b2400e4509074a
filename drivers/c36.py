"""C36: editing existing shapefiles."""
from vt.core import coral
from .shp import *
from .c12 import TEXTS, some_text


class Edits(Session):
    """Editors over several files."""

    def __init__(self, chk, sf, t, first="writer"):
        Session.__init__(self, chk, sf, t)
        if first == "editor":
            self.w = sf.Editor(shapeType=t)
        self.size = 0           # number of shapes
        self.disk = {}
        self.foreign = False
        self.dir = chk.path("edit")
        os.makedirs(self.dir, exist_ok=True)

    def new_field(self, k=None):
        rnd = self.rnd
        ft = rnd.choice("CCNNDL")
        size = {"L": 1, "D": 8}.get(ft) or rnd.choice((1, 3, 8, 20) if ft == "C" else (8, 12, 18))
        name = "f%d" % len(self.fields) if rnd.random() < 0.7 else rnd.choice(("NAME", "Área", "x_y", "code10char")) + str(len(self.fields))
        self.field(name if len(name.encode()) <= 10 else "f%d" % len(self.fields), ft, size, rnd.choice((1, 3)) if ft == "N" and rnd.random() < 0.5 else 0)

    def value(self, f):
        rnd = self.rnd
        name, ft, size, dec = f
        if rnd.random() < 0.15:
            return None
        if ft == "C":
            return some_text(rnd, "utf-8", rnd.choice((1, size // 2, size, size + 2)))
        if ft == "L":
            return rnd.choice((True, False, "T", "f", "y", "N", "?"))
        if ft == "D":
            return rnd.choice(("20130727", "19991231", "20000101", "00010203", "unknown", "21231011"))
        for _ in range(50):
            v = (rnd.choice((0, 1, 12.5, -7, 0.25, rnd.randint(-9999, 9999) / 100, rnd.uniform(-99, 99), 1e-7)) if dec else
                 rnd.choice((0, -1, 7, rnd.randint(-10 ** 6, 10 ** 6), 10 ** 17)))
            if len(str(float(v) if dec else v)) <= size and len(str(v)) <= size:
                return v
        return 0

    def pair(self, order, given=None):
        rnd = self.rnd

        def geometry():
            if rnd.random() < 0.12 and self.size:
                self.add(0, [], [])
            else:
                self.add(*(given or shape(rnd, self.t)))

        def attributes():
            how = rnd.choice(("by name", "in order"))
            vals = [self.value(f) for f in self.fields]
            if how == "by name":
                vals = [MISSING if v is None and rnd.random() < 0.5 else v for v in vals]
                if all(v is MISSING for v in vals):
                    vals[0] = None
            self.record(vals, how)
        first, second = (geometry, attributes) if order == "shape" else (attributes, geometry)
        first()
        if self.size and hasattr(self.w, "delete") and rnd.random() < 0.15:         # a shape is deleted before the pair is complete
            shapes = self.size + (order == "shape")
            i = rnd.randint(-shapes, shapes - 1)
            r = call(self.w.delete, i)
            self.ev.append({"op": "delete", "i": i, "res": outcome(r)})
            if order == "shape" and i in (-1, shapes - 1):      # the new one
                return
            self.size -= 1
        second()
        self.size += 1

    def delete(self, i):
        form = self.rnd.random()
        r = call(self.w.delete, i) if form < 0.5 else call(self.w.delete, shape=i)
        self.ev.append({"op": "delete", "i": i, "res": outcome(r)})
        n = self.size
        if -n <= i < n:
            self.size -= 1

    def save_to(self, k):
        base = os.path.join(self.dir, "file%d" % k)
        rnd = self.rnd
        form = rnd.random()

        def go():
            if form < 0.6:
                self.w.save(base)
            elif form < 0.8:
                self.w.save(base + ".shp")
            else:
                self.w.saveShp(base)
                self.w.shp.close()
                self.w.saveShx(base)
                self.w.shx.close()
                self.w.saveDbf(base)
                self.w.dbf.close()
        e = {"op": "saved", "file": k, "res": outcome(call(go, secs=20))}
        if form < 0.8 and not self.foreign and rnd.random() < 0.5:
            e.update(op="save", has={x: True for x in ("shp", "shx", "dbf")}, asked=False)
            for x in ("shp", "shx", "dbf"):
                try:
                    e[x] = list(open(base + "." + x, "rb").read())
                except OSError:
                    e[x] = []
        self.ev.append(e)
        self.disk[k] = (self.size, list(self.fields))

    def open(self, k):
        base = os.path.join(self.dir, "file%d" % k)
        path = base if self.rnd.random() < 0.5 else base + ".shp"
        r = call(lambda: self.sf.Editor(path) if self.rnd.random() < 0.5 else self.sf.Editor(shapefile=path, autoBalance=self.rnd.choice((0, 1))))
        self.ev.append({"op": "open", "file": k, "res": outcome(r)})
        if r["k"] == "ok":
            self.w = r["v"]
        self.size, self.fields = self.disk[k][0], list(self.disk[k][1])

    def look(self, k):
        self.base = os.path.join(self.dir, "file%d" % k)
        self.ev.append({"op": "look", "file": k})
        self.read_shapes(self.rnd.choice(("path", "shp shx dbf", "shp")), self.rnd.choice(("all", "iter", "each")))
        self.read_table(self.rnd.choice(("path", "shp path", "dbf")), self.rnd.choice(("all", "iter", "each")))


CFG36 = ("SPECIFICATION Spec\nCONSTANTS MaxOps=%d First=%d\nINVARIANTS Good Export\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n")


def run(chk):
    sf = coral("shapefile")
    rnd = chk.rnd
    ev = []
    k = 0
    for first in (1, 2):
        hists = chk.export("MC_Editor", CFG36 % (chk.pick(4, 5), first))
        rnd.shuffle(hists)
        for hist in hists[:chk.pick(260, 4000)]:
            k += 1
            t = TYPES[k % len(TYPES)]
            s = Edits(chk, sf, t, rnd.choice(("writer", "editor")))
            s.new_field()
            for i in range(first):
                s.pair(rnd.choice(("shape", "record")))
            s.save_to(1)
            seen = {1}
            for op, x in hist:
                if op == "open":
                    s.open(x)
                elif op == "add":
                    s.pair(x)
                elif op == "delete":
                    s.delete(x)
                elif op == "field":
                    s.new_field()
                else:
                    s.save_to(x)
                    seen.add(x)
                    for f in sorted(seen):
                        s.look(f)
            ev.append(s.ev)
            chk.replayed += 1
    for i in range(chk.pick(60, 900)):          # longer lives of a file
        s = Edits(chk, sf, TYPES[i % len(TYPES)], rnd.choice(("writer", "editor")))
        for _ in range(rnd.randint(1, 4)):
            s.new_field()
        for _ in range(rnd.choice((0, 1, 3, 8)) if s.t in POINTS else rnd.choice((1, 2, 5))):
            s.pair(rnd.choice(("shape", "record")))
        s.save_to(1)
        for _ in range(rnd.randint(1, 5)):
            f = rnd.choice(sorted(s.disk))
            s.open(f)
            for _ in range(rnd.choice((0, 1, 2, 4))):
                r = rnd.random()
                if r < 0.5:
                    s.pair(rnd.choice(("shape", "record")))
                elif r < 0.85:
                    s.delete(rnd.randint(-s.size - 1, s.size) if s.size else rnd.choice((0, -1, 1)))
                elif len(s.fields) < 7:
                    s.new_field()
            s.save_to(rnd.choice((f, f, 1, 2, 3)))
            for g in sorted(s.disk):
                if rnd.random() < 0.7:
                    s.look(g)
        ev.append(s.ev)
    for i in range(chk.pick(40, 400)):          # files of other programs: measures may be missing
        t = TYPES[i % len(TYPES)]
        s = Edits(chk, sf, t)
        s.field("a", "N", 3, 0)
        shapes = []
        optional = t in (13, 15, 18, 31)
        s.foreign = True
        for k in range(rnd.randint(1, 5)):
            st, parts, ptypes = (0, [], []) if rnd.random() < 0.2 else shape(rnd, t)
            if st in RINGS:
                parts = [p if p[0] == p[-1] else p + [p[0]] for p in parts]
            bare = st and optional and rnd.random() < 0.5
            if bare:
                parts = [[(list(p) + [0, 0])[:4] for p in part] for part in parts]
                for part in parts:
                    for p in part:
                        p[3] = None
            shapes.append((st, parts))
            s.ev.append({"op": "add", "res": {"k": "ok", "v": ""}, "same": True, "in": [st, repr(parts)],
                         "shape": {"t": st, "parts": [[pad(p) for p in part] for part in parts], "ptypes": [2] * len(parts)}})
            s.record([k], "in order")
        base = os.path.join(s.dir, "file1")
        shp, shx = encode(t, shapes, nodata=rnd.choice((None, -1e39, -1.5e300)))
        for k, data in (("shp", shp), ("shx", shx), ("dbf", table(s.fields, [(str(k).encode(),) for k in range(len(shapes))]))):
            with open(base + "." + k, "wb") as f:
                f.write(data)
        s.ev.append({"op": "saved", "file": 1, "res": {"k": "ok", "v": ""}})
        s.size, s.disk[1] = len(shapes), (len(shapes), list(s.fields))
        s.open(1)
        if rnd.random() < 0.5:
            s.pair("shape")
        if rnd.random() < 0.5:
            s.delete(rnd.randrange(s.size))
        f = rnd.choice((1, 2))
        s.save_to(f)
        s.look(f)
        ev.append(s.ev)
    chk.judge("T_Edit", ev, "SPECIFICATION ESpec\nCHECK_DEADLOCK FALSE\n")
