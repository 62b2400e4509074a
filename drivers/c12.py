"""C12: attributes through shapefiles."""
from vt.core import coral
from . import bulk
from .shp import *

TEXTS = {"utf-8": "aZ9 -_.,éßñøЖ日本€\U0001f600", "latin-1": "aZ9 -_éßñøÿ", "cp1252": "aZ9 é€ß", "shift_jis": "aZ9 日本語カ",
         "gbk": "aZ9 中文字", "ascii": "aZ9 -_", "euc_jp": "ab日本語", "big5": "ab 中文"}
NAMES = ("NAME", "ID", "area", "Pop_2010", "x", "Deletions", "Município"[:8], "flag", "code10char", "DeletionDt", "año", "T", "_low", "low_", "__", " low", "low ", "a b", " ")


def some_text(rnd, enc, n):
    return "".join(rnd.choice(TEXTS[enc]) for _ in range(n))


def some_value(rnd, enc, f, how):
    name, ft, size, dec = f
    r = rnd.random()
    if r < 0.12:
        return MISSING if how == "by name" else None
    if ft == "C":
        if r < 0.17:
            return rnd.choice(("", " ", "   "))
        if r < 0.25:
            return rnd.choice((12, -3.5, True, 0))
        if r < 0.28:
            return "a\0" + some_text(rnd, enc, 1) + "z"
        return some_text(rnd, enc, rnd.choice((1, 2, size // 2, size - 1, size, size + 1, size + 5, size // 3 + 1)))
    if ft == "N":
        for _ in range(50):
            v = (rnd.choice((0, 0.0, 1, 12, -7, rnd.uniform(-10 ** 6, 10 ** 6), rnd.randint(-99, 999999) / 100, 1e-7, 1e20)) if dec else
                 rnd.choice((0, -1, 7, rnd.randint(-10 ** 9, 10 ** 9), 10 ** rnd.randint(0, 17), rnd.randint(0, 99),
                             rnd.randint(10 ** 15, 10 ** 18 - 1))))
            if len(str(v)) <= size:
                return v
        return 0
    if ft == "L":
        return rnd.choice((True, False, "T", "f", "Y", "n", "yes", "no", "?", "x", "t", "N", "F"))
    return rnd.choice(("20130727", "19991231", "20000101", "unknown", "00010101", "00331231"))


def run(chk):
    sf = coral("shapefile")
    rnd = chk.rnd
    ev = []
    cases = chk.export("MC_Cells", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d MaxSize=%d\nINVARIANTS Fixed Back Kept Longest Export\n"
                       "CHECK_DEADLOCK FALSE\n" % chk.pick((4, 6), (5, 8)))
    # all texts of one size in one table, between two other fields
    bysize = {}
    for t, n, want in cases:
        bysize.setdefault(n, []).append(bytes(b for c in t for b in c).decode("utf-8"))
    for n, texts in sorted(bysize.items()):
        rnd.shuffle(texts)
        for k in range(0, min(len(texts), chk.pick(120, 10 ** 6)), 60):
            s = Session(chk, sf, 1)
            s.field("a", "N", 4, 0)
            s.field("b", "C", n, 0)
            s.field("c", "C", 3, 0)
            for i, x in enumerate(texts[k:k + 60]):
                s.record([i, x, "end"], rnd.choice(("by name", "in order")))
                s.add(1, [[[i, 0]]], [])
                chk.replayed += 1
            if s.save("path", False):
                s.read_table("path", "all")
            ev.append(s.ev)
    for i in range(chk.pick(300, 4000)):
        enc = rnd.choice(("utf-8", "utf-8") + tuple(TEXTS))
        s = Session(chk, sf, 1, encoding=None if enc == "utf-8" and rnd.random() < 0.5 else enc)
        names = [n for n in NAMES if not chars(n, enc).count([0, 0]) and len(n.encode(enc)) <= 10]
        rnd.shuffle(names)
        for name in names[:rnd.randint(1, 6)]:
            ft = rnd.choice("CCCNNLD")
            size = {"L": 1, "D": 8}.get(ft) or rnd.choice((1, 2, 3, 5, 8, 10, 20, 50, 254) if ft == "C" else (3, 6, 10, 18))
            s.field(name, ft, size, rnd.choice((1, 2, 5)) if ft == "N" and rnd.random() < 0.5 else 0)
        n = rnd.choice((0, 1, 2, 3, 6, 15))
        for k in range(n):
            how = rnd.choice(("by name", "in order"))
            vals = [some_value(rnd, enc, f, how) for f in s.fields]
            if how == "by name" and all(v is MISSING for v in vals):
                vals[0] = None
            s.record(vals, how)
            s.add(1, [[[k, k]]], [])
        for j in range(rnd.choice((1, 1, 2))):
            if s.save(rnd.choice(("path", "objects", "same objects", "single")), False):
                s.read_table(rnd.choice(("path", "shp path", "shp shx dbf", "dbf")), rnd.choice(("all", "iter", "each")))
            if j == 0 and rnd.random() < 0.5:
                s.record([some_value(rnd, enc, f, "in order") for f in s.fields], "in order")
                s.add(1, [[[77, 1]]], [])
        ev.append(s.ev)
    for i in range(chk.pick(40, 400)):          # numbers that do not fit
        size = rnd.choice((1, 3, 6, 10))
        v = rnd.choice((rnd.randint(10 ** size, 10 ** (size + 4)), -rnd.randint(10 ** (size - 1), 10 ** size - 1)))

        def go():
            w = sf.Writer(1)
            w.field("a", "N", size, 0)
            w.field("b", "C", 4)
            w.point(0, 0)
            w.record(v, "end")
            fs = [io.BytesIO() for _ in range(3)]
            w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
            r = sf.Reader(shp=fs[0], shx=fs[1], dbf=fs[2])
            return [seen(x, "utf-8") for x in r.record(0)]
        r = call(go)
        ev.append([{"op": "toowide", "res": r if r["k"] == "ok" else outcome(r), "want": [seen(v, "utf-8"), seen("end", "utf-8")],
                    "in": [size, v]}])
    chk.judge("T_Shp", ev)
    chk.judge("T_Bulk", bulk.sessions(chk, sf, ("rows",)))
