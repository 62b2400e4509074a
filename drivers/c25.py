"""C25: colour gradients."""
from fractions import Fraction
from vt.core import call, coral
from .num import big, common


def gev(gr, stops, shuffled, x, made=None):
    given = [(p, tuple(c)) for p, c in stops]
    keep = list(given)
    g = {"k": "ok", "v": made} if made else call(gr.Gradient, given)
    other = call(lambda: gr.Gradient(list(shuffled)).get(x))
    if g["k"] != "ok":
        return {"stops": [], "res": {"k": g["k"], "v": str(g["v"])}, "hex": {"k": "exc", "v": ""}, "other": "", "text": "",
                "kept": given == keep, "x": big(0), "cd": big(1)}
    r, h = call(g["v"].get, x), call(g["v"].get_hex, x)
    D, xs = common(x, *[p for p, c in stops])
    ch = [v for p, c in stops for v in c]
    ok = r["k"] == "ok" and len(r["v"]) == 3
    C, cs = common(*ch, *(r["v"] if ok else ()))
    return {"x": big(xs[0]), "cd": big(C),
            "stops": [{"x": big(xs[1 + i]), "c": [big(v) for v in cs[3 * i:3 * i + 3]]} for i in range(len(stops))],
            "res": {"k": "ok", "v": [big(v) for v in cs[len(ch):]]} if ok else {"k": "exc", "v": repr(r["v"])},
            "hex": {"k": "ok", "v": [ord(c) for c in h["v"]]} if h["k"] == "ok" else {"k": "exc", "v": repr(h["v"])},
            "text": repr(r["v"]), "other": repr(other["v"]), "kept": given == keep}


def run(chk):
    gr = coral("gradient")
    rnd = chk.rnd
    inv = "INVARIANTS StopsExact Flat Linear OrderFree Export\n"
    cases = chk.export("MC_Grad", "SPECIFICATION Spec\nCONSTANTS P=4 MaxStops=%d Colours={0,2,5}\n%s"
                       "CHECK_DEADLOCK FALSE\n" % (chk.pick(3, 4), inv))
    for listed, asked in cases:
        # three channels: the colour, its complement, a constant
        arg = [(p / 4, (c / 8, 1 - c / 8, 0.5)) for p, c in listed]
        g = call(gr.Gradient, arg)
        for x, (n, d) in enumerate(asked):
            f = Fraction(n, d) / 8
            r = call(lambda: g["v"].get(x / 4))
            if r["k"] != "ok" or len(r["v"]) != 3 or \
                    any(abs(a - b) > 1e-12 for a, b in zip(r["v"], (f, 1 - f, Fraction(1, 2)))):
                chk.violation("interpolation", {"stops": listed, "x": x, "want": [n, d], "got": r})
        chk.replayed += 1
    ses = []
    for i in range(chk.pick(300, 3000)):
        n = rnd.choice((1, 2, 2, 3, 4, 6))
        kind = rnd.choice(("dyad", "dec", "ends", "free"))
        pos = set()
        while len(pos) < n:
            pos.add({"dyad": lambda: rnd.randint(0, 64) / 64, "dec": lambda: rnd.randint(0, 100) / 100,
                     "ends": lambda: rnd.choice((0, 1, rnd.random())), "free": rnd.random}[kind]())
        pos = list(pos)
        rnd.shuffle(pos)
        stops = [(p, tuple(rnd.choice((0, 1, rnd.random(), rnd.randint(0, 15) / 15)) for _ in range(3))) for p in pos]
        ev = []
        for j in range(5):
            x = rnd.choice((0, 1, min(1, max(0, rnd.choice(pos) + rnd.choice((-1, 1)) * 10 ** -rnd.randint(2, 9))), rnd.choice(pos), rnd.random(), rnd.choice(pos) / 2, (rnd.choice(pos) + rnd.choice(pos)) / 2))
            sh = list(stops)
            rnd.shuffle(sh)
            ev.append(gev(gr, stops, sh, x))
        ses.append(ev)
    # the gradients that come with the module are gradients too
    for name, stops in (("gray", [(0, (0, 0, 0)), (1, (1, 1, 1))]), ("bwr", [(0, (0, 0, 1)), (.5, (1, 1, 1)), (1, (1, 0, 0))])):
        ses.append([gev(gr, stops, stops[::-1], rnd.choice((0, .5, 1, rnd.random())), getattr(gr, name)) for j in range(10)])
    chk.judge("T_Grad", ses)
