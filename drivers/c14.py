"""C14: histories of reader calls."""
import io
import json
from vt.core import coral, call
from .shp import *

SETUPS = ("path", "shp shx dbf", "shp dbf", "shp shx", "shp", "dbf")


class Store:
    """Files with n shapes and r records, some of them deleted."""

    def __init__(self, chk, sf, t, n, r, gone, name="s", before=None):
        rnd = self.rnd = chk.rnd
        self.before = before
        self.sf, self.n, self.r, self.gone = sf, n, r, sorted(gone)
        shapes = []
        self.ids = {}
        for i in range(n):
            if t in POINTS:
                pts = [(i, 2 * i)]
            else:
                pts = [(i, 0), (i + rnd.randint(1, 9), 5), (i, rnd.randint(6, 9)), (i, 0)]
            shapes.append((t, [[p + (i, i) for p in pts]]))
            self.ids[json.dumps([words(x) for p in pts for x in p])] = i + 1
        self.blank = rnd.randrange(r) if r and rnd.random() < 0.4 else -1           # a record without values
        rows = [(b"", b"") if i == self.blank else (b"%d" % i, b"r%d" % i) for i in range(r)]
        shp, shx = encode(t, shapes, rnd)
        self.base = chk.path(name)
        for k, data in (("shp", shp), ("shx", shx), ("dbf", table((("id", "N", 6, 0), ("t", "C", 5, 0)), rows, gone, rnd.random() < 0.3))):
            with open(self.base + "." + k, "wb") as f:
                f.write(data)

    def open(self, how):
        if how == "path" and self.before:       # the reader of another shapefile loads this one
            rd = self.sf.Reader(self.before.base)
            for f in self.rnd.sample(("shape", "record", "shapes", "records", "shapeRecords", "shapeRecord"), self.rnd.randint(0, 3)):
                call(getattr(rd, f))
            old = rd.shp, rd.shx, rd.dbf
            rd.load(self.base + self.rnd.choice(("", ".shp", ".dbf")))
            for f in old:
                f.close()
            return rd
        if how == "path":
            return self.sf.Reader(self.base)
        return self.sf.Reader(**{k: io.BytesIO(open(self.base + "." + k, "rb").read()) for k in how.split()})

    def shape_id(self, x):
        try:
            return self.ids.get(json.dumps([words(v) for p in x.points for v in p]), -1)
        except Exception:
            return -2

    def record_id(self, x):
        if x is None:
            return 0
        try:
            i, t = x
            if i == t == "":
                return self.blank + 1
            return i + 1 if t == "r%d" % i else -1
        except Exception:
            return -2

    def item(self, what, x):
        if what == "s":
            return [self.shape_id(x), 0]
        if what == "r":
            return [0, self.record_id(x)]
        return [self.shape_id(x.shape), self.record_id(x.record)]


GET = {"s": "shape", "r": "record", "b": "shapeRecord"}
ALL = {"s": "shapes", "r": "records", "b": "shapeRecords"}
ITER = {"s": "iterShapes", "r": "iterRecords"}


class Asker:
    def __init__(self, store, how):
        self.st, self.rd, self.its = store, store.open(how), []
        self.ev = [{"op": "file", "n": store.n, "r": store.r, "gone": store.gone, "in": how}]

    def log(self, e, r, what):
        if r["k"] == "ok":
            v = call(lambda: [self.st.item(what, x) for x in r["v"]])
            if v["k"] == "ok" and self.st.rnd.random() < 0.3:          # the caller uses what it got
                for x in r["v"]:
                    for y in (x, getattr(x, "record", None), getattr(getattr(x, "shape", x), "points", None)):
                        if isinstance(y, list):
                            y.clear()
                if isinstance(r["v"], list):
                    r["v"].clear()
            r = v if v["k"] == "ok" else {"k": "exc", "v": "not shapes"}
        self.ev.append(dict(e, res={"k": r["k"], "v": r["v"] if r["k"] == "ok" else str(r["v"])}))
        return r

    def get(self, what, i, default=False):
        f = getattr(self.rd, GET[what])
        return self.log({"op": "get", "what": what, "i": i}, call(lambda: [f() if default and i == 0 else f(i)]), what)

    def all(self, what):
        return self.log({"op": "all", "what": what}, call(getattr(self.rd, ALL[what])), what)

    def iter(self, what):
        r = call(lambda: iter(getattr(self.rd, ITER[what])()))
        self.its.append((what, r["v"]))
        self.ev.append({"op": "iter", "what": what, "res": outcome(r)})

    def next(self, k):
        what, it = self.its[k - 1]

        def go():
            try:
                return [next(it)]
            except StopIteration:
                return []
        return self.log({"op": "next", "k": k, "what": what}, call(go), what)

    def close(self):
        Closer(self.rd).close()


def run(chk):
    sf = coral("shapefile")
    rnd = chk.rnd
    ev = []
    n, ops = chk.pick((2, 3), (3, 4))
    cases = chk.export("MC_ShpRead", "SPECIFICATION Spec\nCONSTANTS N=%d MaxOps=%d\nINVARIANTS Right Export\nCHECK_DEADLOCK FALSE\n" % (n, ops))
    stores = {}
    rnd.shuffle(cases)
    for gone, hist in cases[:chk.pick(2500, 20000)]:
        key = json.dumps(gone)
        if key not in stores:
            stores[key] = None
    for key in sorted(stores):
        st = Store(chk, sf, rnd.choice(TYPES[:8]), n, n, json.loads(key))
        for gone, hist in cases[:chk.pick(2500, 20000)]:
            if json.dumps(gone) != key:
                continue
            a = Asker(st, rnd.choice(SETUPS[:3]))
            for op, f, x in hist:
                getattr(a, op)(*{"get": (f, x), "all": (f,), "iter": (f,), "next": (x,)}[op])
            a.close()
            ev.append(a.ev)
            chk.replayed += 1
    others = [Store(chk, sf, t, k, k, [], "other%d" % k) for t, k in ((1, 4), (5, 1), (15, 6))]
    for i in range(chk.pick(300, 3000)):
        n = rnd.choice((0, 1, 2, 3, 5, 8)) if i % 60 else rnd.choice((130, 257, 300))
        r = n if rnd.random() < 0.8 else rnd.choice((0, 1, 3))
        st = Store(chk, sf, rnd.choice(TYPES), n, r, [k + 1 for k in range(r) if rnd.random() < rnd.choice((0, 0, 0.4))],
                   before=rnd.choice(others + [None] * 3))
        how = rnd.choice(SETUPS)
        kinds = ("s" if "shp" in how or how == "path" else "") + ("r" if "dbf" in how or how == "path" else "")
        a = Asker(st, how)
        for step in range(rnd.choice((3, 8, 20))):
            x = rnd.random()
            what = rnd.choice(kinds + ("b" if len(kinds) == 2 and n == r else ""))
            if x < 0.4:
                c = {"s": n, "r": r, "b": n}[what]
                a.get(what, rnd.choice((0, c - 1, -1, -c, c, -c - 1, rnd.randint(-c - 2, c + 2))), rnd.random() < 0.5)
            elif x < 0.55:
                a.all(what)
            elif x < 0.65 and len(a.its) < 3:
                a.iter(rnd.choice(kinds))
            elif a.its:
                a.next(rnd.randint(1, len(a.its)))
        a.close()
        ev.append(a.ev)
    chk.judge("T_ShpRead", ev)
