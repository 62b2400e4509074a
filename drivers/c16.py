"""C16: canvases as pictures of independent pixels, and their files."""
import os
import json
from vt.core import call
from . import ras


def saved(c, path, before=b""):
    if before:                        # what a file held is replaced
        with open(path, "wb") as f:
            f.write(before)
    r = call(c.save, path)
    data = []
    if os.path.exists(path):
        with open(path, "rb") as f:
            data = list(f.read())
        os.remove(path)
    return ras.plain({"k": r["k"], "v": 0} if r["k"] == "ok" else r), data


def run(chk):
    rnd = chk.rnd
    for w, h, bits in ((5, 2, 4), (9, 1, 8), (3, 3, 2)):
        chk.model_check("MC_Packed", "SPECIFICATION Spec\nCONSTANTS W=%d H=%d Bits=%d\nINVARIANTS Refines Bytes\n"
                        "VIEW View\nCHECK_DEADLOCK FALSE\n" % (w, h, bits))
    for w, h in ((3, 2), (9, 1)):
        edges = chk.export("MC_Packed", "SPECIFICATION Spec\nCONSTANTS W=%d H=%d Bits=8\nINVARIANTS Refines Bytes\n"
                           "VIEW View\nACTION_CONSTRAINT Export\nCHECK_DEADLOCK FALSE\n" % (w, h))
        for bg in (0, 1):
            start = json.dumps([[[bg] * w] * h, bg])
            mine = [e for e in edges if e["s"][1] == bg]
            for path, e in chk.paths(mine, start):
                def go():
                    c = ras.make("bw", w, h, [bg])
                    for q in path + [e]:
                        c[tuple(q["op"][1])] = q["op"][2]
                    return [[c[x, y] for x in range(w)] for y in range(h)]
                r = call(go)
                if r["k"] != "ok" or r["v"] != e["t"][0]:
                    chk.violation("picture-after-history", {
                        "size": [w, h], "bg": bg, "ops": [q["op"] for q in path] + [e["op"]],
                        "want": e["t"][0], "got": r})
                chk.replayed += 1
    ses = []
    path = chk.path("canvas.pnm")
    for i in range(chk.pick(150, 1500)):
        kind = rnd.choice(ras.KINDS)
        w, h = rnd.choice((1, 2, 7, 8, 9, 15, 16, 17, rnd.randint(1, 20))), rnd.choice((1, 2, 3, rnd.randint(1, 7)))
        bg = ras.colour(kind, rnd)
        if rnd.random() < 0.2:
            w, h = rnd.choice(((30, 10), (64, 2), (10, 26), (130, 2), (256, 1), (300, 1)))
        given = bg
        large = i < 6
        if large:                     # rows and pictures of many bytes
            kind = ras.KINDS[i % 3]
            w, h = {"bw": ((1100, 70), (72, 1000)), "gray": ((300, 225), (70, 1010)), "color": ((151, 149), (1050, 21))}[kind][i // 3]
            given = bg = ras.colour(kind, rnd)
        if rnd.random() < 0.15:
            given, bg = None, {"bw": [0], "gray": [255], "color": [255] * 3}[kind]
        c = ras.make(kind, w, h, given)
        ev = [{"op": "new", "w": w, "h": h, "bg": bg, "pic": ras.picture(c, w, h)}]
        for j in range(rnd.randint(1, 15) if w < 30 else 3):
            x, y = rnd.choice((0, w - 1, rnd.randrange(w))), rnd.choice((0, h - 1, rnd.randrange(h)))
            if large and j == 0:
                x, y = w - 1, h - 1
            v = ras.colour(kind, rnd)
            if rnd.random() < 0.25:
                v = rnd.choice(([1], [0])) if kind == "bw" else [rnd.choice((10, 13, 32, 35, 80, 255))] * len(v)
            a, d = -1, 1
            if kind != "bw" and rnd.random() < 0.5:
                d = rnd.choice((64, 100, 256, 1, 3, 7))
                a = rnd.choice((0, d, rnd.randint(0, d)))
            arg = ras.val(kind, v)
            if a >= 0:
                arg = (arg if isinstance(arg, tuple) else (arg,)) + (a / d if rnd.random() < 0.8 or 0 < a < d else a // d,)
            r = call(c.__setitem__, (x, y), arg)
            ev.append({"op": "set", "x": x, "y": y, "v": v, "a": a, "d": d,
                       "res": ras.plain({"k": r["k"], "v": 0} if r["k"] == "ok" else r),
                       "pic": ras.picture(c, w, h)})
            if rnd.random() < 0.1:
                r, data = saved(c, path)
                ev.append({"op": "save", "kind": {"bw": 52, "gray": 53, "color": 54}[kind], "res": r, "bytes": data,
                           "pic": ras.picture(c, w, h)})
        r, data = saved(c, path, bytes([65]) * rnd.choice((0, 0, 5, 500000)))
        ev.append({"op": "save", "kind": {"bw": 52, "gray": 53, "color": 54}[kind], "res": r, "bytes": data,
                   "pic": ras.picture(c, w, h)})
        ses.append(ev)
    chk.judge("T_Pixels", ses)
