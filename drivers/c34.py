"""C34: normalized angles, compass points and clock hours."""
import math
from vt.core import call, coral, BAD
from .globe import fx, real

CFG = ("SPECIFICATION Spec\nCONSTANT Turns=%d\nINVARIANTS Covered OneOrTie Periodic Opposite Cardinal Hours Export\nCHECK_DEADLOCK FALSE\n")


def micro(x):
    return round(x * 1000000)


def events(co, b, tol):
    r = call(co.bearing2cardinal, b)
    ok = r["k"] == "ok" and isinstance(r["v"], str)
    out = [{"op": "point", "b": micro(b), "tol": tol, "res": {"k": "ok", "v": r["v"]} if ok else {"k": "exc", "v": repr(r["v"])},
            "in": b}]
    res, h = real(call(co.bearing2hours, b))
    out.append({"op": "hour", "b": micro(b), "tol": tol, "res": res, "inrange": 0 < h <= 12,
                "h30": micro(max(-99, min(99, h)) * 30), "in": b})
    return out


def angle(co, a):
    res, r = real(call(co.corangle, a))
    turns = round((a - r) / (2 * math.pi)) if abs(r) < 1e6 else 0
    return {"op": "angle", "res": res, "a": fx(a), "r": fx(r), "turns": turns, "there": abs(a) <= math.pi,
            "same": r == a, "in": a}


def run(chk):
    rnd = chk.rnd
    co, pr = coral("coord"), coral("proj")
    ev = []
    for b in chk.export("MC_Compass", CFG % chk.pick(1, 2)):
        x = b / 8
        ev += events(co, rnd.choice((int(x), x)) if x == int(x) else x, 0)
        chk.replayed += 1
    for i in range(chk.pick(1500, 40000)):
        k = rnd.randint(-32, 32)
        b = rnd.choice((rnd.uniform(-720, 720), 11.25 + 22.5 * k + rnd.choice((-1, 1)) * rnd.choice((2e-6, 1e-4, 0.01)),
                        22.5 * k, rnd.uniform(-1e-9, 1e-9), 360 * rnd.randint(-2, 2) + rnd.uniform(-1e-12, 1e-12)))
        ev += events(co, b, 1)
    near = (0.0, math.pi, -math.pi, 2 * math.pi, -2 * math.pi, 3 * math.pi, -3 * math.pi, math.pi / 2, 0, 3, -3, 4, -4)
    for x in near:
        for y in (x, math.nextafter(x, 99), math.nextafter(x, -99), x + 1e-9, x - 1e-9):
            for m in (co, pr):
                ev.append(angle(m, y))
    for i in range(chk.pick(1000, 20000)):
        ev.append(angle(rnd.choice((co, pr)), rnd.choice((rnd.uniform(-10, 10), rnd.uniform(-3.2, 3.2), rnd.uniform(-300, 300),
                                                       math.radians(rnd.randint(-720, 720)), rnd.randint(-40, 40)))))
    chk.judge("T_Compass", [ev[i:i + 40] for i in range(0, len(ev), 40)])
