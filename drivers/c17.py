"""C17: straight lines."""
from . import ras


def ev_line(kind, w, h, bg, fg, a, b):
    return {"op": "line", "w": w, "h": h, "a": a, "b": b, "fg": fg,
            "res": ras.painted(kind, w, h, bg, lambda c: c.line(tuple(a), tuple(b), ras.val(kind, fg)))}


def run(chk):
    rnd = chk.rnd
    n = chk.pick(4, 5)
    edges = chk.export("MC_Line", "SPECIFICATION Spec\nCONSTANTS N=%d\nINVARIANTS Near Line Clipped Shares Symmetric Export\n"
                       "PROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % n)
    ev = []
    for a, b, S in edges:
        for kind in ras.KINDS:
            bg, fg = ras.two(kind, rnd)
            e = ev_line(kind, n + 1, n + 1, bg, fg, a, b)
            chk.replayed += 1
            # another choice of pixels at ties may be right: the clauses decide
            if e["res"]["k"] != "ok" or sorted(p[:2] for p in e["res"]["v"]) != sorted(S) \
                    or any(p[2] != fg for p in e["res"]["v"]):
                ev.append(e)
    chk.notes["lines that differ from the machine's"] = len(ev)
    for i in range(chk.pick(400, 5000)):
        kind = rnd.choice(ras.KINDS)
        w, h = rnd.choice(((40, 30), (60, 3), (5, 50), (24, 24)))
        pt = lambda: [rnd.choice((0, w - 1, rnd.randrange(w))), rnd.choice((0, h - 1, rnd.randrange(h)))]
        a, b = pt(), pt()
        k = rnd.random()
        if k < 0.15:
            b = [a[0], b[1]]
        elif k < 0.3:
            b = [b[0], a[1]]
        elif k < 0.4:
            m = min(b[0], b[1])
            a, b = [0, 0] if m else a, [m, m]
        if i % 3 == 0:                     # partly or wholly out of the canvas
            w, h = rnd.choice(((12, 9), (9, 2), (1, 14), (16, 16)))
            away = lambda n: rnd.choice((-1, n, n + 1, -n, 2 * n, rnd.randint(-20, n + 20), rnd.randrange(n)))
            a, b = rnd.choice((a, [away(w), away(h)])), [away(w), away(h)]
        bg, fg = ras.two(kind, rnd)
        ev.append(ev_line(kind, w, h, bg, fg, a, b))
    for i in range(chk.pick(150, 1500)):
        kind = rnd.choice(ras.KINDS)
        w, h = rnd.choice(((20, 16), (9, 30)))
        bg, fg = ras.two(kind, rnd)
        pts = [[rnd.randrange(w), rnd.randrange(h)] for _ in range(rnd.choice((1, 2, 3, 4, 7)))]
        if rnd.random() < 0.3:
            pts.append(pts[0])
        if rnd.random() < 0.3:
            pts[0] = [rnd.randint(-15, w + 15), rnd.randint(-15, h + 15)]
        v = ras.val(kind, fg)
        arg = [tuple(p) for p in pts]
        how = rnd.choice(((False,), ()) if kind == "bw" else ((False,),))
        ev.append({"op": "stroke", "w": w, "h": h, "pts": pts, "fg": fg,
                   "res": ras.painted(kind, w, h, bg, lambda c: c.strokepolygon(list(arg), v, *how)),
                   "sides": [ras.painted(kind, w, h, bg, lambda c: c.line(p, q, v))
                             for p, q in zip(arg, arg[1:] + arg[:1])]})
    for i in range(chk.pick(6, 40)):        # longer than 2^15 steps
        kind = rnd.choice(ras.KINDS)
        n, m = rnd.choice((33000, 36000, 70000)), rnd.randint(1, 3)
        w, h = rnd.choice(((n, m), (m, n)))
        a = [rnd.randrange(min(w, 100)), rnd.randrange(min(h, 100))]
        b = [w - 1 - rnd.randrange(min(w, 100)), h - 1 - rnd.randrange(min(h, 100))]
        if rnd.random() < 0.5:
            a, b = b, a
        bg, fg = ras.two(kind, rnd)
        e = ev_line(kind, w, h, bg, fg, a, b)
        if e["res"]["k"] == "ok":
            px = e["res"]["v"]
            at, k = {}, 0 if w > h else 1
            for p in px:
                at.setdefault(p[k], []).append(p[:2])
            lo, hi = min(a[k], b[k]), max(a[k], b[k])
            some = sorted({lo, hi, lo + 1, hi - 1} | {rnd.randint(lo, hi) for _ in range(60)})
            e["res"]["v"] = {"n": len(px), "fine": all(p[2] == fg for p in px), "at": [at.get(j, []) for j in some]}
        ev.append(dict(e, op="longline"))
    chk.judge("T_Pixels", [ev[i:i + 10] for i in range(0, len(ev), 10)])
