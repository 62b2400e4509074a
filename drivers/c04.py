"""C04: ring buffer = bounded double-ended queue."""
from vt.core import call, coral


# items that a careless test takes for nothing, or for one another
ODD = [None, 0, False, (), [], float("nan"), 1, True, 1.0, 0.0, "x"]
NAMES = {str(v): str(i + 1) for i, v in enumerate(ODD)}


def odd(b, o):
    """The answer, and the text, in terms of positions in ODD."""
    r = call(b.push, ODD[o[1] - 1]) if o[0] == "push" else call(getattr(b, o[0]))
    if r["k"] == "ok":
        r["v"] = ("none" if r["v"] is None else "junk") if o[0] == "push" else \
            [i + 1 for i, v in enumerate(ODD) if v is r["v"]][:1]
        if isinstance(r["v"], list):
            r["v"] = r["v"][0] if r["v"] else -1
    r.pop("msg", None)
    return r


def renamed(t):
    if isinstance(t, str) and t[:1] == "<" and t[-1:] == ">":
        return "<%s>" % " ".join(NAMES.get(w, "?") for w in t[1:-1].split(" ") if w)
    return "junk"


def ob(b, o):
    if o[0] == "push":
        r = call(b.push, o[1])
        if r["k"] == "ok":
            r["v"] = "none" if r["v"] is None else "junk"
    else:
        r = call(getattr(b, o[0]))
        if r["k"] == "ok" and type(r["v"]) is not int:
            r["v"] = -1
    r.pop("msg", None)
    return r


def run(chk):
    coord = coral("coord")
    caps = chk.pick((1, 2, 4), (1, 2, 4, 8))
    for cap in caps:
        vals = "{1,2}" if cap < 8 else "{1}"
        cfg = ("SPECIFICATION Spec\nCONSTANTS Cap=%d Vals=%s\nINVARIANT Bounded\n"
               "PROPERTIES OnlyEnds Refines\nVIEW NoOp\nACTION_CONSTRAINT Export\n" % (cap, vals))
        edges = chk.export("RingBuffer", cfg)
        init = [e["s"] for e in edges if e["s"]["c"] == [] and e["s"]["s"] == 0
                and not any(e["s"]["b"].values() if isinstance(e["s"]["b"], dict) else e["s"]["b"])][0]
        import json
        kf = lambda x: json.dumps(x, sort_keys=True)
        for path, e in chk.paths(edges, kf(init)):
            r = call(coord.Buffer, cap)
            if r["k"] != "ok":
                chk.violation("constructor", {"cap": cap, "got": r})
                break
            b = r["v"]
            hist = [p["op"] for p in path] + [e["op"]]
            for o in hist[:-1]:
                ob(b, o)
            got = ob(b, hist[-1])
            want = hist[-1][-1]
            want = {"k": want["k"], "v": want["v"]}
            st = (call(b.isempty), call(b.isfull), call(str, b))
            c = e["t"]["c"]
            exp = (len(c) == 0, len(c) == cap, "<%s>" % " ".join(map(str, c)))
            if got != want:
                chk.violation("answer-of-" + hist[-1][0], {"cap": cap, "history": hist, "got": got, "want": want})
            elif tuple(x["v"] if type(x["v"]) in (bool, str) else None for x in st) != exp:
                chk.violation("state", {"cap": cap, "history": hist, "got": st, "want": exp})
            chk.replayed += 1
        chk.sample({"cap": cap, "replayed": hist})
    # capacities that are not a power of two are refused
    for n in (3, 5, 6, 7, 12, 24, 100):
        r = call(coord.Buffer, n)
        if r["k"] != "exc":
            chk.violation("capacity-refused", {"cap": n, "got": r["k"]})
    # long random histories
    rnd = chk.rnd
    sessions = []
    for i in range(chk.pick(60, 600)):
        cap = rnd.choice((1, 2, 4, 8, 8, 16, 32, 64))
        b = coord.Buffer(cap)
        ev = []
        x = 0
        bias = rnd.choice((0.35, 0.5, 0.65))
        strange = i % 3 == 0
        for j in range(rnd.choice((40, 120, 200))):
            if rnd.random() < 0.03:
                bias = 1 - bias
            o = "push" if rnd.random() < bias else rnd.choice(("pop", "shift", "peek", "pop", "shift"))
            x = rnd.randint(1, len(ODD)) if strange else x + 1
            e = {"op": o, "x": x, "cap": cap, "res": (odd if strange else ob)(b, [o, x])}
            em, fu, tx = call(b.isempty), call(b.isfull), call(str, b)
            e["empty"] = em["v"] if type(em["v"]) is bool else "junk"
            e["full"] = fu["v"] if type(fu["v"]) is bool else "junk"
            e["text"] = renamed(tx["v"]) if strange else tx["v"]
            ev.append(e)
        sessions.append(ev)
    chk.judge("T_Deque", sessions)
    chk.assumptions.append("single-threaded use; Python assertions enabled")
