"""C02: union, intersection, collision and containment."""
import json
from vt.core import call, coral
from .boxes import *


def pair_event(bbox, A, B, P, rnd):
    u = unit(rnd)
    a, b = mk(bbox, A, rnd, u), mk(bbox, B, rnd, u)
    p = (raw(P[0], rnd, u), raw(P[1], rnd, u))
    corners = lambda x: co(x, 8 / u)
    c = call(a.copy)
    badin = call(lambda: [1, 2, 3] in a)
    return {"op": "pair", "a": A, "b": B, "p": P,
            "or": corners(val(call(lambda: a | b))), "and": corners(val(call(lambda: a & b))),
            "collide": tb(call(a.collide, b)), "hasbox": tb(call(a.has_bbox, b)),
            "inbox": tb(call(lambda: b in a)), "haspt": tb(call(a.has_point, p)),
            "inpt": tb(call(lambda: p in a)), "a2": corners(a), "b2": corners(b),
            "none": corners(val(call(lambda: a | None))), "badin": badin["v"] if badin["k"] == "exc" else "none",
            "copy": corners(val(c)), "copysep": c["k"] == "ok" and c["v"] is not a}


def run(chk):
    bbox = coral("bbox")
    rnd = chk.rnd
    cfg = ("SPECIFICATION Spec\nCONSTANTS Lo=0 Hi=%d\nVIEW View\n"
           "PROPERTIES InterIsSet CollideIsShared UnionIsLeast ContainMeans\n"
           "ACTION_CONSTRAINT Export\n" % chk.pick(3, 3))
    edges = chk.export("MC_BoxAlgebra", cfg)
    for path, e in chk.paths(edges, json.dumps([0, 0, 0, 0])):
        # the accumulator is built by the same history the model took
        acc = bbox.BBox()
        for p in path:
            o = bbox.BBox(tuple(p["op"][1][:2]), tuple(p["op"][1][2:]))
            acc = val(call((lambda: acc | o) if p["op"][0] == "or" else (lambda: acc & o)))
        q = e["op"][1]
        o = bbox.BBox(tuple(q[:2]), tuple(q[2:]))
        want = e["op"][2]
        if co(acc, 1) != e["s"]:
            chk.violation("history", {"path": [p["op"][:2] for p in path], "want": e["s"], "got": co(acc, 1)})
            continue
        got = {"or": co(val(call(lambda: acc | o)), 1), "ror": co(val(call(lambda: o | acc)), 1),
               "and": co(val(call(lambda: acc & o)), 1), "rand": co(val(call(lambda: o & acc)), 1),
               "hasbox": tb(call(acc.has_bbox, o)), "in": tb(call(lambda: o in acc))}
        exp = {"or": want["union"], "ror": want["union"], "and": want["inter"],
               "rand": want["inter"], "hasbox": want["hasbox"], "in": want["hasbox"]}
        if want["both"]:
            got["collide"], exp["collide"] = tb(call(acc.collide, o)), want["collide"]
            got["rcollide"], exp["rcollide"] = tb(call(o.collide, acc)), want["collide"]
        got["unchanged"], exp["unchanged"] = [co(acc, 1), co(o, 1)], [e["s"], q]
        if got != exp:
            chk.violation("algebra", {"a": e["s"], "b": q, "got": got, "want": exp})
        chk.replayed += 1
    ev = []
    for i in range(chk.pick(1500, 15000)):
        A = rbox(rnd)
        k = rnd.random()
        if k < 0.4:
            B = rbox(rnd)
        elif k < 0.7:      # derived from A: touching, nested, shifted
            B = [v + rnd.choice((0, 0, 1, -1, 8, -8)) for v in A]
            B = [min(B[0], B[2]), min(B[1], B[3]), max(B[0], B[2]), max(B[1], B[3])]
        else:
            w, h = A[2] - A[0], A[3] - A[1]
            dx, dy = rnd.choice((-w, 0, w, w // 2)), rnd.choice((-h, 0, h, h // 2))
            B = [A[0] + dx, A[1] + dy, A[2] + dx, A[3] + dy]
        if rnd.random() < 0.03:
            B = [0, 0, 0, 0]
        if rnd.random() < 0.03:
            A = [0, 0, 0, 0]
        P = [rnd.choice((A[0], A[2], B[0], B[2], A[2] - 1, A[0] - 1, (A[0] + A[2]) // 2)),
             rnd.choice((A[1], A[3], B[1], B[3], A[3] - 1, A[1] - 1, (A[1] + A[3]) // 2))]
        ev.append(pair_event(bbox, A, B, P, rnd))
    chk.judge("T_Box", chunks(ev))
    chk.assumptions.append("boxes given by their low and high corners")
