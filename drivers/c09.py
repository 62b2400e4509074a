"""C09: RangeGrid data sets."""
import json
import keyword
import os
import struct
import sys
from fractions import Fraction
from vt.core import call, coral, spoil
from .bulk import digest
from .c07 import text


def column(c):
    t = type(c).__name__
    return [t, c.name, c.size, bool(c.nullable)] + ([str(c.minv), str(c.maxv)] if t != "SVar" else [])


def make(rg, rnd, names):
    cols = []
    for n in names:
        k = rnd.randint(0, 2)
        nullable = rnd.random() < 0.4
        lo = rnd.choice((0, -1, -180, -128, 127, 128, rnd.randint(-10 ** 5, 10 ** 5)))
        if k == 0:
            hi = lo + rnd.choice((1, 9, 254, 255, 256, 40000, 2 ** 31, 2 ** 40))
            cols.append(rg.IVar(n, lo, hi, nullable))
        elif k == 1:
            cols.append(rg.FVar(n, lo, lo + rnd.choice((1, 20, 360)), rnd.choice((1, 2, 4, 8)), nullable))
        else:
            cols.append(rg.SVar(n, rnd.choice((1, 3, 12)), nullable))
    return cols


def value(c, rnd):
    t = type(c).__name__
    if c.nullable and rnd.random() < 0.25:
        return None
    if t == "SVar":
        return text(rnd, c.size)
    if t == "IVar":
        return rnd.choice((c.minv, c.maxv, rnd.randint(c.minv, c.maxv)))
    return rnd.choice((c.minv, c.maxv, rnd.uniform(c.minv, c.maxv)))


def show(row, cols, want):
    """Canonical text of a row read back; reals within the column's precision are
    shown as the value written."""
    out = []
    for i, c in enumerate(cols):
        v, w = row[i], want[i] if want else None
        if type(c).__name__ == "FVar" and isinstance(v, (int, float)) and isinstance(w, (int, float)):
            top = 256 ** c.size - 1 - bool(c.nullable)
            tol = Fraction(c.maxv - c.minv, 2 * top) + Fraction(abs(c.maxv) + abs(c.minv)) / 2 ** 46
            if abs(Fraction(v) - Fraction(w)) <= tol:
                v = w
        out.append(repr(v))
    return "|".join(out)


def unfit(cols, rows, rnd):
    """Segments of which one row is refused, wherever it is."""
    c = rnd.randrange(len(cols))
    t = type(cols[c]).__name__
    good = [tuple("" if type(k).__name__ == "SVar" else k.minv for k in cols)] * 3
    bad = list(good[0])
    how = rnd.randint(0, 2)
    if how == 0:
        bad = bad[:-1]
    elif how == 1 and not cols[c].nullable:
        bad[c] = None
    elif t == "SVar":
        bad[c] = "x" * (cols[c].size + 1)
    else:
        bad[c] = rnd.choice((cols[c].minv - 1, cols[c].maxv + 1, float("nan")))
    return rnd.choice(([[bad]], [good + [tuple(bad)]], [good, good[:1] + [bad] + good], [good, [], [bad]]))


def refuse_late(r):
    """What was taken must come back: an exception is no refusal any more."""
    return {"k": "late", "v": [str(r)]} if r["k"] == "exc" else r


def observe(r, cols, want, names):
    if r["k"] != "ok":
        return {"k": r["k"], "v": str(r["v"])}
    try:
        segs = []
        for i, seg in enumerate(r["v"]):
            rows = []
            for j, row in enumerate(seg):
                w = want[i][j] if want and i < len(want) and j < len(want[i]) else None
                t = show(row, cols, w) if len(row) == len(cols) else "wrong length"
                if [row[k] if keyword.iskeyword(n) or not n.isidentifier() or n[0] == "_" or names.count(n) > 1
                    else getattr(row, n) for k, n in enumerate(names)] != list(row):
                    t = "wrong names"
                rows.append(t)
            segs.append(rows)
        return {"k": "ok", "v": segs}
    except Exception as e:
        return {"k": "ok", "v": [[type(e).__name__]]}


IDS = ["a", " 7", "7 ", "lead", "tail", "A", "São  Paulo", "b  b", "b b", "35", "São Paulo", "x  y", " lead", "tail ", "", "1 2 3", "é", "0", "1", "2", "-7", "a/b", "#", "07", "7", "00", "漢字"]


def large(chk, rg, shape):
    """Data sets with very many rows, entities or segments."""
    rnd = chk.rnd
    cols = [rg.IVar("n", -5, 10 ** 7), rg.SVar("text", rnd.choice((130, 300)), True), rg.IVar("big", 0, 2 ** 40, True)]
    count = [0]

    def rows(n):
        out = []
        for _ in range(n):
            count[0] += 1
            k = count[0]
            out.append((k, "t%d" % k if k % 11 else None, k * 1000003 if k % 7 else None))
        return out
    n = chk.pick(66000, 140000)
    if shape == "long":
        data = [[rows(3)], [rows(n), [], rows(130)], [rows(2)]]
    elif shape == "many":
        data = [[rows(i % 4)] if i % 5 else [] for i in range(1500)]
    else:
        data = [[rows(1)], [rows(i % 3) for i in range(3000)], [rows(5)]]
    ids = ["e" * (i % 3) * 100 + "%d" % i for i in range(len(data))]
    base = chk.path("large")

    def write():
        w = rg.Writer(base, rg.GRow(*cols))
        for d, i in zip(data, ids):
            w.write(d, i)
        w.close()
        return rg.Reader(base)
    r = call(write, secs=120)
    ev = [{"op": "wrote", "res": {"k": r["k"], "v": "" if r["k"] == "ok" else str(r["v"])}, "in": shape}]
    if r["k"] != "ok":
        return ev
    given = [digest([[list(x) for x in seg] for seg in d]) for d in data]

    def sequential():
        return [digest([[list(x) for x in seg] for seg in r["v"].read()]) for _ in ids]
    some = sorted(rnd.sample(range(len(ids)), min(len(ids), 60)))

    def by_id():
        return [digest([[list(x) for x in seg] for seg in r["v"].read(ids[i])]) for i in some[::-1]][::-1]
    for f, want in ((sequential, given), (by_id, [given[i] for i in some])):
        q = call(f, secs=120)
        ev.append({"op": "same", "what": "entities", "given": want, "res": q if q["k"] == "ok" else {"k": q["k"], "v": str(q["v"])}})
    with open(base + ".rg", "rb") as f:
        head = f.read(8)
    ev.append({"op": "count", "head": [head[3], min(int.from_bytes(head[4:8], sys.byteorder), 2 ** 30)], "want": [len(cols), count[0]]})
    call(r["v"].close)
    for k in (".rg", ".md"):
        os.remove(base + k)
    return ev


def run(chk):
    rg = coral("rg")
    rnd = chk.rnd
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxEnt=%d Ids={\"p\",\"q r\",\"s\"%s} Shapes={<<>>,<<0>>,<<2>>,<<1,0,2>>}\n"
           "INVARIANT Positioned\nPROPERTY AsWritten\nPROPERTY NoTrace\nVIEW View\nACTION_CONSTRAINT Export\nCHECK_DEADLOCK FALSE\n"
           % (chk.pick(2, 3), chk.pick("", ",\"t\"")))
    cfg = cfg.replace("Shapes={<<>>,<<0>>,<<2>>,<<1,0,2>>}", "Shapes <- ShapesDef")
    edges = chk.export("MC_DataSetC", cfg)
    seen = {}
    for path, e in chk.paths(edges, json.dumps(["writing", [], [], 1])):
        if e["s"][0] != "reading":
            continue
        base = chk.path("r")
        cols = [rg.IVar("ent", 0, 9), rg.SVar("txt", 4), rg.IVar("pos", 0, 300)]
        w = rg.Writer(base, rg.GRow(*cols))
        n = 0
        reader = None
        bad = None
        for p in path + [e]:
            o = p["op"]
            if o[0] == "write":
                if rnd.random() < 0.1:
                    call(w.write, rnd.choice(([[(1, "", 2), (1, "", -1)]], [[(1, "", 2)], [(n, "")]])), o[1])
                n += 1
                k, segs = 0, []
                for ln in o[2]:
                    segs.append([(n, "é%d" % k, k + j + 1) for j in range(ln)])
                    k += ln
                r = call(w.write, (iter(s) for s in segs) if n % 2 else segs, o[1])
            elif o[0] == "close":
                r = call(w.close)
                r = call(rg.Reader, base)
                reader = r["v"] if r["k"] == "ok" else None
            else:
                r = call(reader.read, o[1]) if o[0] == "id" else call(reader.read)
                if o[-1] == "error":
                    if r["k"] != "exc":
                        bad = ("error expected", o, r)
                else:
                    got = None
                    if r["k"] == "ok":
                        try:
                            got = [[[x.ent, x.pos] for x in seg] for seg in r["v"]]
                        except Exception as x:
                            got = repr(x)
                    if got != o[-1]:
                        bad = ("rows", o, repr(r))
                    spoil(r)
                    continue
            if r["k"] != "ok" and o[-1] != "error":
                bad = ("failed", o, r)
            if bad:
                break
        if reader:
            call(reader.close)
        if bad:
            chk.violation("replay", {"history": [p["op"] for p in path + [e]], "what": bad})
        chk.replayed += 1
    sessions = []
    for i in range(chk.pick(150, 1500)):
        base = chk.path("s")
        names = ["c%d" % j for j in range(rnd.randint(1, 4) if i % 40 else rnd.choice((127, 128, 200, 255)))]
        if rnd.random() < 0.2:
            names[0] = rnd.choice(("lon", "x", "a_rather_long_name_for_a_column", "two words", "class", "2nd", "_own", "", "lon/lat",
                                   names[-1]))
        cols = make(rg, rnd, names)
        ents = rnd.choice((0, 1, 2, 3, 5, 12)) if i % 40 else 1
        own = rnd.random() < 0.7
        ids = rnd.sample(IDS, ents) if own else [str(j) for j in range(ents)]
        data = []
        for j in range(ents):
            data.append([[tuple(value(c, rnd) for c in cols) for _ in range(rnd.choice((0, 1, 2, 5)))]
                         for _ in range(rnd.choice((0, 1, 1, 2, 4)))])

        refused = []

        def write():
            w = rg.Writer(base, rg.GRow(*cols))
            for d, k in zip(data, ids):
                if cols and rnd.random() < 0.1:
                    refused.append(call(w.write, unfit(cols, d, rnd), *([k] if rnd.random() < 0.5 else []))["k"])
                if own and rnd.random() < 0.04:
                    bad = rnd.choice(("a\nb", "\n", "x\r", "1\r\n2"))
                    refused.append(call(w.write, d, bad)["k"])
                if own:
                    w.write(d, int(k) if k.lstrip("-").isdigit() and str(int(k)) == k and rnd.random() < 0.5 else k)
                else:
                    w.write(d)
            w.close()
        r = call(write)
        if r["k"] == "ok":
            r = call(rg.Reader, base)
        want = [[["|".join(repr(v) for v in row) for row in seg] for seg in d] for d in data]
        head = {"op": "open", "refused": refused, "ids": ids, "data": want, "head": [], "columns": [[str(x) for x in column(c)] for c in cols]}
        if r["k"] != "ok":
            head["res"] = {"k": r["k"], "v": str(r)}
            sessions.append([head])
            continue
        reader = r["v"]
        with open(base + ".rg", "rb") as f:
            h = f.read(8)
        head["head"] = [h[3], struct.unpack("I", h[4:])[0]] if len(h) == 8 and h[:3] == b"RG\x01" else []
        head["res"] = {"k": "ok", "v": [[str(x) for x in column(c)] for c in reader.row.fields]}
        ses = [head]
        pos = 0
        for q in range(rnd.choice((0, 3, 10, 30))):
            k = rnd.random()
            if k < 0.45 or not ids:
                op, args, ent = {"op": "next"}, (), pos
            elif k < 0.92:
                ent = rnd.randint(0, ents - 1)
                op, args = {"op": "id", "id": ids[ent]}, (ids[ent],)
                if ids[ent] == str(ent) and rnd.random() < 0.5:
                    args = (int(ids[ent]),)
            else:
                ent = -1
                op, args = {"op": "id", "id": "no such"}, ("no such",)
            # the harness needs a guess of the entity only to canonicalize reals
            w = data[ent] if 0 <= ent < ents else None
            r = call(reader.read, *args)
            o = observe(r, cols, w, names)
            if rnd.random() < 0.5:
                spoil(r)
            if ent >= 0 and ent < ents:
                pos = ent + 1
            ses.append(dict(op, res=o))
        call(reader.close)
        sessions.append(ses)
    for i in range(chk.pick(12, 60)):          # bounds that are not whole: refused, or kept
        lo = rnd.choice((0.5, -0.25, 10.125, -180.5))
        hi = lo + rnd.choice((1, 10.5, 361)) if i % 3 == 0 else int(lo // 1) + rnd.choice((1, 12, 361))
        if i % 3 == 2:
            lo, hi = int(lo // 1), hi + 0.75
        cols = [rg.FVar("x", lo, hi, rnd.choice((2, 4, 8)))]
        rows = [(rnd.choice((lo, cols[0].maxv, lo + rnd.random())),) for _ in range(3)]
        base = chk.path("f")
        def trip():
            w = rg.Writer(base, rg.GRow(*cols))
            w.write([rows], "a")
            w.close()
            return rg.Reader(base).read("a")
        sessions.append([{"op": "frac", "want": [["%r" % r for r in rows]], "in": repr((lo, cols[0].maxv, rows)),
                          "res": observe(call(trip), cols, [rows], ["x"])}])
    for n in ("a\0b", "\0", "x\0", "é", "漢字"):        # column names: refused, or kept
        base = chk.path("n")

        w = call(lambda: rg.Writer(base, rg.GRow(rg.IVar("k", 0, 9), rg.SVar(n, 3), rg.IVar("m", -3, 9))))

        def named(w):
            w.write([[(7, "abc", -1)]], "a")
            w.close()
            r = rg.Reader(base)
            return [f.name for f in r.row.fields] + [repr(tuple(x)) for x in r.read()[0]]
        sessions.append([{"op": "frac", "in": repr(n), "want": ["k", n, "m", repr((7, "abc", -1))],
                          "res": w if w["k"] != "ok" else refuse_late(call(named, w["v"]))}])
    chk.judge("T_DataSet", sessions)
    chk.judge("T_Bulk", [large(chk, rg, shape) for shape in ("long", "many", "segments")])
    chk.assumptions.append("columns have distinct ASCII names; identifiers are distinct and without line breaks")
