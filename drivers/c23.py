"""C23: delimited files and pretty-printing."""
import contextlib
import io
import os
from vt.core import call, coral
from . import tabs
from .words import word

FILL = ("", "  ", "\t", " \t ", "\r")


def render(rnd, lines, sep, comm):
    out = []
    for kind, cells in lines:
        if kind == "blank":
            t = rnd.choice(FILL[:4])
        elif kind == "comment":
            t = rnd.choice(("", " ", "\t")) + comm + rnd.choice(("", " note", sep.join(("u", "v")), comm))
        else:
            t = sep.join(cells)
            if kind == "rowc":
                t += (" " if sep.strip() else "") + comm + " trailing" + rnd.choice(("", sep + "more"))
        out.append(t)
    end = rnd.choice(("\n", "\n", "\r\n"))
    return end.join(out) + (end if rnd.random() < 0.8 or lines and lines[-1][0] in ("blank",) else "")


def read(tb, path, keys, sep, comm):
    kw = {}
    if keys != ["*"]:
        kw["keys"] = list(keys)
    if sep != ",":
        kw["sep"] = sep
    if comm != "#":
        kw["comm"] = comm
    return tabs.plain(call(lambda: plainobs(tb.readfile(path, **kw)), secs=5))


def plainobs(rows):
    rows = list(rows)
    return {"cols": list(rows[0]._fields) if rows else [], "rows": [[str(v) for v in r] for r in rows]}


def text(rnd, bad, sep):
    t = word(rnd, rnd.choice(("ab", "xyz 0.5", "éß漢 -", "a\"'\\%{}+$", "a/-b ")), rnd.choice((1, 2, 4, 9))).strip()
    for b in bad + bad:
        while b in t:
            t = t.replace(b, "")
    if rnd.random() < 0.07:
        t = ""
    return t.strip()


def run(chk):
    tb = coral("table")
    rnd = chk.rnd
    path = chk.path("table.txt")
    cases = chk.export("MC_TFile", "SPECIFICATION Spec\nCONSTANTS MaxLines=%d\nINVARIANTS Same NoHead Export\n"
                       "CHECK_DEADLOCK FALSE\n" % chk.pick(4, 6))
    ev = []
    for lines, phase, rows in cases:
        sep, comm = rnd.choice(((",", "#"), ("\t", "#"), (";", "%"), ("::", "//")))
        with open(path, "w", encoding="utf8", newline="") as f:
            f.write(render(rnd, lines, sep, comm))
        keys = rnd.choice((["*"], ["*"], ["y", "x"], ["y"], ["x"], ["x", "y"]))
        ev.append({"op": "read", "lines": lines, "keys": keys, "res": read(tb, path, keys, sep, comm)})
        chk.replayed += 1
    for i in range(chk.pick(300, 3000)):
        sep, comm = rnd.choice(((",", "#"), (",", "#"), ("\t", "#"), (";", "%"), ("|", "--"), ("::", "//"), (" ", "#")))
        n = rnd.randint(2 if not sep.strip() else 1, 5)
        cols = rnd.sample(tabs.NAMES, n)
        bad = list(sep) + [comm]
        fresh = lambda: [text(rnd, bad, sep) for _ in cols]
        rows = []
        while len(rows) < rnd.choice((1, 2, 4, 8)):
            r = fresh()
            if any(r) and (n > 1 or r[0]):
                rows.append(r)
        sub = lambda cs: ["*"] if rnd.random() < 0.5 else rnd.sample(cs, rnd.randint(1, len(cs)))
        if rnd.random() < 0.5:
            lines = [["row", cols]] + [[rnd.choice(("row", "row", "rowc")), r] for r in rows]
            for j in range(rnd.randint(0, 4)):
                lines.insert(rnd.randrange(len(lines) + 1), [rnd.choice(("blank", "comment")), []])
            with open(path, "w", encoding="utf8", newline="") as f:
                f.write(render(rnd, lines, sep, comm))
            keys = sub(cols)
            ev.append({"op": "read", "lines": lines, "keys": keys, "res": read(tb, path, keys, sep, comm)})
        else:
            t = tabs.make(cols, rows)
            wk = sub(cols)
            left = cols if wk == ["*"] else wk
            # a line of nothing but blanks is a blank line
            if any(not any(r[cols.index(c)] for c in left) for r in rows):
                continue
            kw = {} if wk == ["*"] else {"keys": list(wk)}
            if sep != ",":
                kw["sep"] = sep
            w = call(lambda: tb.writefile(path, t, **kw))
            k = sub(left)
            ev.append({"op": "trip", "t1": {"cols": cols, "rows": rows}, "wkeys": wk, "keys": k,
                       "intact": t == tabs.make(cols, rows),
                       "res": read(tb, path, k, sep, comm) if w["k"] == "ok" else tabs.plain(w)})
    for i in range(chk.pick(120, 1200)):
        cols = rnd.sample(tabs.NAMES, rnd.randint(1, 4))
        rows = [[word(rnd, "ab é-|", rnd.choice((0, 1, 3, 12, 45))).strip() for _ in cols] for _ in range(rnd.randint(1, 5))]
        t = tabs.make(cols, rows)
        keys = ["*"] if rnd.random() < 0.5 else rnd.sample(cols, rnd.randint(1, len(cols)))
        ks = cols if keys == ["*"] else keys

        def go():
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                tb.pprint(t, *([] if keys == ["*"] else [keys]))
            return [list(x) for x in buf.getvalue().split("\n")[:-1]]
        ev.append({"op": "print", "head": [list(k) for k in ks],
                   "cells": [[list(r[cols.index(k)]) for k in ks] for r in rows],
                   "res": tabs.plain(call(go)), "intact": t == tabs.make(cols, rows)})
    if os.path.exists(path):
        os.remove(path)
    chk.judge("T_Table", [ev[i:i + 10] for i in range(0, len(ev), 10)])
