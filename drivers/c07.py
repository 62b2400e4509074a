"""C07: fixed-size columns and rows."""
import math
from fractions import Fraction
from vt.core import call, coral
from .num import big, common

TEXT = "aZ09 _-.,ãéçñüßøŁжЖ日本€😀"


def text(rnd, nbytes):
    out = ""
    while True:
        c = rnd.choice(TEXT)
        if len((out + c).encode()) > nbytes:
            if nbytes - len(out.encode()) > 3 or rnd.random() < 0.7:
                c = "x" * (nbytes - len(out.encode()))
                return out + c
            return out
        out += c


def enc_dec(var, v):
    e = call(var.encode, v)
    if e["k"] != "ok":
        return {"enc": e["k"], "len": -1, "dec": "none", "got": 0, "data": None, "raw": None}
    data = e["v"]
    d = call(var.decode, data)
    x = d["v"] if d["k"] == "ok" else None
    kind = "exc" if d["k"] != "ok" else "null" if x is None else "text" if isinstance(x, str) \
        else "num" if isinstance(x, (int, float)) and not isinstance(x, bool) and x == x \
        and abs(x) != math.inf else "junk"
    return {"enc": "ok", "len": len(data) if isinstance(data, (bytes, bytearray)) else -1,
            "dec": kind, "got": x, "data": data}


def num_event(grid, var, op, lo, hi, v, size, nullable):
    r = enc_dec(var, v)
    ok = r["dec"] == "num"
    d, (a, b, c, g) = common(lo, hi, v, r["got"] if ok else 0)
    return {"op": op, "lo": big(a), "hi": big(b), "v": big(c), "got": big(g), "size": size,
            "nullable": nullable, "enc": r["enc"], "len": r["len"], "dec": r["dec"],
            "int": isinstance(r["got"], int)}


def null_event(var, size, nullable, others):
    r = enc_dec(var, None)
    codes = [enc_dec(var, o)["data"] for o in others]
    return {"op": "null", "size": size, "nullable": nullable, "enc": r["enc"], "len": r["len"],
            "dec": r["dec"], "distinct": r["data"] not in codes}


def run(chk):
    grid = coral("grid")
    rnd = chk.rnd
    chk.model_check("MC_Big", "SPECIFICATION Spec\nCONSTANTS Step=331 Top=33000\n"
                    "INVARIANTS Sum Prod Order Canon\nCHECK_DEADLOCK FALSE\n")
    # the scheme itself, with 4 codes to the byte: all columns and all values
    inv = "INVARIANTS Fits RoundTrip Codes NullApart\nCHECK_DEADLOCK FALSE\n"
    chk.model_check("MC_Column", "SPECIFICATION Spec\nCONSTANTS Base=4 Den=6 Los={0,1,3} "
                    "His={1,2,3,4,5,9,17,18,19} Sizes={1,2}\n" + inv)
    # with real bytes: expected bytes of integer columns, replayed
    edges = chk.export("MC_Column", "SPECIFICATION Spec\nCONSTANTS Base=256 Den=1 Los={0,7} "
                       "His={1,8,%s255,256,262,263,300} Sizes={1}\n" % chk.pick("", "64,65,127,128,129,254,261,511,512,")
                       + inv.replace("Codes NullApart", "Export"))
    for e in edges:
        c = e["c"]
        if c["kind"] == "int":
            r = call(grid.IVar, "n", c["lo"], c["hi"], c["nullable"])
        else:
            r = call(grid.FVar, "x", c["lo"], c["hi"], c["size"], c["nullable"])
        if r["k"] != "ok":
            chk.violation("declaration", {"column": c, "got": r})
            continue
        v = e["v"][0] if e["v"] else None
        got = enc_dec(r["v"], v)
        good = got["enc"] == "ok" and got["len"] == r["v"].size and (
            got["got"] == v if c["kind"] == "int" or v is None else
            abs(Fraction(got["got"]) - v) <= Fraction(c["hi"] - c["lo"], 2 * (254 if c["nullable"] else 255)) + Fraction(1, 10 ** 12))
        if not good:
            chk.violation("replay", {"column": c, "value": v, "got": got, "size": r["v"].size})
        chk.replayed += 1
    ev = []
    # integer columns at every size boundary
    for i in range(chk.pick(160, 1200)):
        nullable = rnd.random() < 0.5
        span = rnd.choice((1, 2, 100, 253, 254, 255, 256, 257, 1000, 65533, 65534, 65535, 65536, 65537,
                           10 ** 6, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1,
                           2 ** 40, 2 ** 64 - 3, 2 ** 64 - 2))
        lo = rnd.choice((0, 0, 1, -1, -span, -span // 2, rnd.randint(-10 ** 9, 10 ** 9)))
        hi = lo + span
        if rnd.random() < 0.05:       # at the end of what eight bytes hold
            span = 2 ** 64 - rnd.choice((0, 1, 1 + nullable))
            hi = lo + span
        r = call(grid.IVar, "n", lo, hi, *([nullable] if nullable or rnd.random() < 0.5 else [])) if rnd.random() < 0.5 else \
            call(grid.IVar, "n", minv=lo, maxv=hi, nullable=nullable)
        if r["k"] == "exc" and span >= 2 ** 64 - nullable:
            continue
        if r["k"] != "ok":
            chk.violation("declaration", {"lo": str(lo), "hi": str(hi), "nullable": nullable, "got": r})
            continue
        var = r["v"]
        vals = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2, lo - 1, hi + 1, lo - rnd.randint(1, 300),
                hi + rnd.randint(1, 300), rnd.randint(lo, hi), min(hi, lo + 255), min(hi, lo + 256)}
        for v in sorted(vals):
            ev.append(num_event(grid, var, "int", lo, hi, v, var.size, nullable))
        ev.append(null_event(var, var.size, nullable, [v for v in vals if lo <= v <= hi]))
    for i in range(chk.pick(30, 300)):         # what is no integer is refused, unless it comes back
        lo = rnd.randint(-1000, 1000)
        var = grid.IVar("n", lo, lo + rnd.choice((3, 254, 300, 70000)), rnd.random() < 0.5)
        ev.append(num_event(grid, var, "whole", lo, var.maxv, lo + rnd.choice((0.5, 1.25, 2.0, 0.999)), var.size, False))
        var = grid.FVar("x", lo, lo + 7, rnd.choice((1, 2, 4, 8)), rnd.random() < 0.5)
        ev.append({"op": "nan", "enc": enc_dec(var, math.nan)["enc"]})
    for i in range(chk.pick(160, 1200)):
        nullable = rnd.random() < 0.5
        size = rnd.choice((1, 2, 4, 8))
        k = rnd.random()
        if k < 0.5:
            lo = rnd.choice((0, -180, -90, -1, 100, rnd.randint(-1000, 1000)))
            hi = lo + rnd.choice((1, 2, 180, 255, 256, 359, 360, rnd.randint(1, 10 ** 6)))
        else:
            lo = rnd.choice((0.5, -0.1, -1e-3, 1e6, rnd.uniform(-100, 100)))
            hi = lo + rnd.choice((0.25, 1.0, 360.0, rnd.uniform(0.01, 100)))
        r = call(grid.FVar, "x", lo, hi, size, *([nullable] if nullable or rnd.random() < 0.5 else []))
        if r["k"] != "ok":
            chk.violation("declaration", {"lo": lo, "hi": hi, "size": size, "got": r})
            continue
        var = r["v"]
        w = hi - lo
        eps = abs(w) / 7
        inside = sorted([lo, hi] + [min(hi, max(lo, rnd.uniform(lo, hi))) for _ in range(4)]
                        + [min(hi, lo + w * rnd.randint(0, 255) / 255), min(hi, lo + w * rnd.randint(0, 509) / 510)])
        for v in inside + [lo - eps, hi + eps, math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)]:
            ev.append(num_event(grid, var, "real", lo, hi, v, size, nullable))
        ev.append(null_event(var, size, nullable, inside))
        got = [enc_dec(var, v)["got"] for v in inside]
        if all(isinstance(g, (int, float)) for g in got):
            d, gs = common(*got)
            ev.append({"op": "order", "got": [big(g) for g in gs]})
    for i in range(chk.pick(200, 2000)):
        size = rnd.choice((1, 2, 3, 4, 8, 32, 200, 0))
        nullable = rnd.random() < 0.5
        var = grid.SVar("t", size, *([nullable] if nullable or rnd.random() < 0.5 else []))
        n = rnd.choice((0, 1, size, size, size + 1, size + 2, size // 2))
        t = text(rnd, n)
        if rnd.random() < 0.1:
            t = "é" * ((size + 1) // 2)      # fits in characters, not in bytes
        if rnd.random() < 0.1 and len(t) > 1 and n <= size:
            at = rnd.randrange(len(t) - 1)       # a NUL that is not the last character
            t = (t[:at] + "\0" + t[at + 1:])
        if rnd.random() < 0.1 and n < size:
            t += "\0" * rnd.randint(1, size - n)
        r = enc_dec(var, t)
        # there is no telling an empty text from null without bytes, a text's end from filling
        odd = nullable and size == 0 or t.endswith("\0")
        ev.append({"op": "text", "size": size, "odd": odd, "bytes": len(t.encode()), "v": repr(t), "enc": r["enc"],
                   "len": r["len"], "dec": r["dec"], "got": repr(r["got"])})
        ev.append(null_event(var, size, nullable, [t, "", text(rnd, size)]))
    for i in range(chk.pick(150, 1500)):
        cols, vals, want = [], [], []
        for j in range(rnd.randint(1, 5)):
            nullable = rnd.random() < 0.5
            k = rnd.randint(0, 2)
            if k == 0:
                lo = rnd.randint(-10 ** 4, 10 ** 4)
                hi = lo + rnd.choice((1, 254, 255, 256, 70000))
                cols.append(grid.IVar("c%d" % j, lo, hi, nullable))
                v = rnd.choice((lo, hi, rnd.randint(lo, hi)))
            elif k == 1:
                lo = rnd.randint(-100, 100)
                cols.append(grid.FVar("c%d" % j, lo, lo + 10, rnd.choice((1, 2, 4, 8)), nullable))
                v = rnd.choice((lo, lo + 10))
            else:
                n = rnd.choice((1, 4, 9))
                cols.append(grid.SVar("c%d" % j, n, nullable))
                v = text(rnd, n)
            if nullable and rnd.random() < 0.3:
                v = None
            vals.append(v)
        row = grid.GRow(*cols)
        e = call(row.encode, *vals)
        if rnd.random() < 0.3:
            short = call(row.encode, *vals[:-1])
            ev.append({"op": "short", "enc": short["k"]})
        parts = [call(c.encode, v) for c, v in zip(cols, vals)]
        d = call(row.decode, e["v"]) if e["k"] == "ok" else e
        got = [repr(float(x)) if isinstance(x, (int, float)) else repr(x) for x in d["v"]] if d["k"] == "ok" else [d["k"]]
        want = [repr(float(x)) if isinstance(x, (int, float)) else repr(x) for x in vals]
        ev.append({"op": "row", "size": row.size, "cols": len(row),
                   "parts": [list(p["v"]) if p["k"] == "ok" else [-1] for p in parts],
                   "bytes": list(e["v"]) if e["k"] == "ok" else [-2], "got": got, "want": want})
    chk.judge("T_Column", [ev[i:i + 30] for i in range(0, len(ev), 30)])
    chk.assumptions.append("real columns: floating-point allowance of 2^-46 of the bounds' magnitudes")
