"""C06: ring simplification."""
from vt.core import coral
from .simp import *


def polygon(rnd, n, w):
    """A ring without doubling back, often with straight vertices."""
    for _ in range(200):
        pts = [(rnd.randint(0, w), rnd.randint(0, w)) for _ in range(n)]
        out = []
        for i, a in enumerate(pts):
            b = pts[(i + 1) % n]
            out.append(a)
            if rnd.random() < 0.3 and (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
                out.append(((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
        return out
    return pts


def run(chk):
    coord = coral("coord")
    rnd = chk.rnd
    extra = []
    for w, h, n, k in chk.pick(((2, 1, 5, 1), (2, 1, 5, 2), (2, 2, 4, 1)),
                               ((2, 1, 6, 1), (2, 1, 6, 2), (2, 2, 5, 1))):
        cfg = ("SPECIFICATION Spec\nCONSTANTS W=%d H=%d MaxLen=%d K=%d\n"
               "INVARIANTS NetPreserved AreaKept Vertices ExactIfStraight Export\n"
               "CHECK_DEADLOCK FALSE\n" % (w, h, n, k))
        for path, want in chk.export("MC_Ring", cfg):
            got = observe(coord, [tuple(p) for p in path], 1, True, k, chk.replayed % 4)
            chk.replayed += 1
            if got != {"k": "ok", "v": want}:
                extra.append({"op": "ring", "pts": path, "m": 1, "k": k, "res": got})
    ev = []
    for i in range(chk.pick(900, 8000)):
        k = rnd.choice((1, 2, 4, 8, 8, 8))
        n = rnd.choice((0, 1, 2, 3, 4, 6, k, k + 1, k + 2, 2 * k, 2 * k + 1, 2 * k + 2, 3 * k + 3, 30))
        w, h = rnd.choice(((1, 1), (2, 2), (3, 1), (5, 5), (30, 30)))
        if n >= 3 and rnd.random() < 0.5:
            pts = polygon(rnd, n, w + 2)
        elif n >= 3 and rnd.random() < 0.5:
            # a slit around the starting vertex
            slit = walk(rnd, rnd.randint(2, min(k, 5) + 2), 6, 6, False)
            pts = slit + polygon(rnd, n, 6) + [slit[-1]] + slit[::-1]
        else:
            pts = walk(rnd, n, w, h, rnd.random() < 0.7) if n else []
        if pts and rnd.random() < 0.4:
            pts = pts + [pts[0]]
        if pts and rnd.random() < 0.3:
            j = rnd.randint(0, len(pts) - 1)
            pts = pts[j:] + pts[:j]
        ev.append(rounded_event(coord, rnd, "ring", pts, k))
    for i in range(chk.pick(300, 3000)):
        k = rnd.choice((1, 2, 4, 8, 8, 16))
        base = [p for p in polygon(rnd, rnd.choice((3, 4, 5, 9)), rnd.choice((4, 12)))]
        base = [p for j, p in enumerate(base) if p != base[j - 1]]
        if len(base) < 3:
            continue
        if rnd.random() < 0.5:
            base.append(base[0])
        j = rnd.randint(0, len(base) - 1)
        e = excursion(rnd, base[j], rnd.randint(0, k - 1))
        if e:
            rot = 0
            if rnd.random() < 0.5:          # the ring starts within the excursion
                base = base[:-1] if base[0] == base[-1] else base
                j = min(j, len(base) - 1)
                rot = rnd.randint(j + 1, j + 2 * len(e) - 1)
            full = base[:j + 1] + e + e[-2::-1] + [base[j]] + base[j + 1:]
            full = full[rot:] + full[:rot]
            ev.append({"op": "ringexc", "base": base, "i": j + 1, "exc": e, "k": k, "rot": rot, "pts": full,
                       "res": observe(coord, full, 1, True, k, rnd.randint(0, 3))})
    chk.judge("T_Simplify", [ev[i:i + 25] for i in range(0, len(ev), 25)])
    if extra:
        chk.judge("T_Simplify", [extra[i:i + 50] for i in range(0, min(len(extra), 20000), 50)])
    chk.notes["replays_not_identical_to_the_machine"] = len(extra)
