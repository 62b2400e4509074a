"""C03: equality, hashing, ordering."""
import operator
from vt.core import call, coral
from .boxes import *

OPS = [("lt", operator.lt), ("le", operator.le), ("gt", operator.gt), ("ge", operator.ge),
       ("eq", operator.eq), ("ne", operator.ne)]


def compare(a, b):
    c = {n: tb(call(f, a, b)) for n, f in OPS}
    c["truth"] = tb(call(bool, a))
    h1, h2 = call(hash, a), call(hash, b)
    c["hash"] = h1["k"] == "ok" and h1 == h2
    c["insets"] = val(call(lambda: (b in {a}) and ({a: 1}.get(b) == 1) and len({a, b}) == 1)) is True
    return c


def run(chk):
    bbox = coral("bbox")
    rnd = chk.rnd
    cfg = ("SPECIFICATION Spec\nCONSTANTS Neg=2 Hi=%d\nINVARIANTS Trichotomy Export\n"
           "CHECK_DEADLOCK FALSE\n" % chk.pick(1, 1))
    for a, b, c in chk.export("MC_BoxOrder", cfg):
        A = bbox.BBox(tuple(a[:2]), tuple(a[2:]))
        B = bbox.BBox(tuple(b[:2]), tuple(b[2:]))
        g = compare(A, B)
        c["hash"] = True if c["eq"] else g["hash"]
        c["insets"] = c["eq"]
        if g != c:
            chk.violation("order", {"a": a, "b": b, "got": g, "want": c})
        chk.replayed += 1
    ev = []
    for i in range(chk.pick(1500, 15000)):
        A = rbox(rnd, rnd.choice((2, 8, 80, 800)))
        k = rnd.random()
        if k < 0.25:
            B = list(A)
        elif k < 0.5:       # same area, other box
            w, h = A[2] - A[0], A[3] - A[1]
            x, y = rnd.randint(-80, 80), rnd.randint(-80, 80)
            B = [x, y, x + h, y + w] if rnd.random() < 0.5 else [x, y, x + w, y + h]
            if rnd.random() < 0.3 and w % 2 == 0:
                B = [x, y, x + w // 2, y + 2 * h]
        elif k < 0.75:
            B = [v + rnd.choice((0, 0, 0, 1, -1)) for v in A]
            B = [min(B[0], B[2]), min(B[1], B[3]), max(B[0], B[2]), max(B[1], B[3])]
        else:
            B = rbox(rnd)
        A, B = list(A), list(B)
        # coordinates around the values whose hashes coincide
        if rnd.random() < 0.2:
            i, v = rnd.randint(0, 1), rnd.choice((-8, -16))
            A, B = list(A), list(A)
            A[i], B[i] = -8, v
            A[i + 2] = B[i + 2] = max(A[i + 2], 0)
        # corners may be given the wrong way round: an area below zero
        for b in (A, B):
            if rnd.random() < 0.12:
                i = rnd.randint(0, 1)
                b[i], b[i + 2] = b[i + 2], b[i]
        u = unit(rnd)
        ev.append({"op": "order", "a": A, "b": B,
                   "others": sum(call(lambda: (x == y) or not (x != y))["v"] is not False
                                             for x in (mk(bbox, A, rnd), bbox.BBox())
                                             for y in (None, 0, "", A, tuple(A), False)),
                   "c": compare(mk(bbox, A, rnd, u), mk(bbox, B, rnd, u))})
    chk.judge("T_Box", chunks(ev))
