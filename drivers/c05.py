"""C05: open path simplification."""
from vt.core import coral
from .simp import *


def corners_straight(rnd, n, w):
    """A path without reversal: consecutive distinct points, no doubling back."""
    pts = [(rnd.randint(0, w), rnd.randint(0, w))]
    while len(pts) < n:
        c = (rnd.randint(0, w), rnd.randint(0, w))
        if len(pts) > 1 and rnd.random() < 0.3:
            c = (2 * pts[-1][0] - pts[-2][0], 2 * pts[-1][1] - pts[-2][1])
        if c == pts[-1]:
            continue
        if len(pts) > 1:
            (ax, ay), (bx, by) = pts[-2], pts[-1]
            if (bx - ax) * (c[1] - by) == (by - ay) * (c[0] - bx) and \
                    (bx - ax) * (c[0] - bx) + (by - ay) * (c[1] - by) < 0:
                continue
        pts.append(c)
    return pts


def run(chk):
    coord = coral("coord")
    rnd = chk.rnd
    extra = []
    for w, h, n, k in chk.pick(((2, 1, 5, 1), (2, 1, 5, 2), (3, 0, 6, 2)),
                               ((2, 1, 6, 1), (2, 1, 6, 2), (2, 2, 5, 2), (4, 0, 6, 2))):
        cfg = ("SPECIFICATION Spec\nCONSTANTS W=%d H=%d MaxLen=%d K=%d\n"
               "INVARIANTS NetPreserved Ends Sub ExactIfStraight Bounded NoTrace Export\n"
               "CHECK_DEADLOCK FALSE\n" % (w, h, n, k))
        for path, want in chk.export("MC_Open", cfg):
            got = observe(coord, [tuple(p) for p in path], 1, False, k, chk.replayed % 4)
            chk.replayed += 1
            if got != {"k": "ok", "v": want}:
                # not what this machine does: does it satisfy the property?
                extra.append({"op": "open", "pts": path, "m": 1, "k": k, "res": got})
    ev = []
    for i in range(chk.pick(700, 6000)):
        k = rnd.choice((1, 2, 4, 8, 8, 8, 16))
        n = rnd.choice((0, 1, 2, 3, 4, 6, 10, 20, 40))
        w, h = rnd.choice(((1, 1), (2, 2), (3, 1), (5, 5), (30, 30)))
        pts = walk(rnd, n, w, h, rnd.random() < 0.7) if n else []
        ev.append(rounded_event(coord, rnd, "open", pts, k))
    for i in range(chk.pick(300, 3000)):
        k = rnd.choice((1, 2, 4, 8, 8, 16))
        pts = corners_straight(rnd, rnd.choice((2, 3, 5, 9, 20)), rnd.choice((4, 12)))
        ev.append(rounded_event(coord, rnd, "open", pts, k))
        base = corners_straight(rnd, rnd.choice((2, 3, 5, 9)), rnd.choice((4, 12)))
        j = rnd.randint(0, len(base) - 1)
        e = excursion(rnd, base[j], rnd.randint(0, k - 1))
        if not e:
            continue
        full = base[:j + 1] + e + e[-2::-1] + [base[j]] + base[j + 1:]
        ev.append({"op": "excursion", "base": base, "i": j + 1, "exc": e, "k": k, "pts": full,
                   "res": observe(coord, full, 1, False, k, rnd.randint(0, 3))})
    chk.judge("T_Simplify", [ev[i:i + 25] for i in range(0, len(ev), 25)])
    if extra:
        chk.judge("T_Simplify", [extra[i:i + 50] for i in range(0, min(len(extra), 20000), 50)])
    chk.notes["replays_not_identical_to_the_machine"] = len(extra)
