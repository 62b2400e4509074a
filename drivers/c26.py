"""C26: name distances and matching."""
from vt.core import call, coral, jq
from .words import POOL, codes, pair, plain, whole, word


def dist(nm, a, b):
    r = call(nm.strerr, a, b)
    return {"op": "dist", "a": codes(a), "b": codes(b), "dist": whole(call(nm.damlev, a, b)),
            "rev": whole(call(nm.damlev, b, a)),
            "err": {"k": "ok", "v": jq(r["v"], 1000000)} if r["k"] == "ok" else plain(r)}


def matching(nm, keys, values):
    r = call(nm.mapping, list(keys), list(values))
    e = {"op": "map", "keys": [codes(k) for k in keys], "values": [codes(v) for v in values], "errs": []}
    if r["k"] != "ok":
        e["res"] = plain(r)
        return e
    try:
        got = [(m.key, m.value, m.score) for m in r["v"]]
        e["res"] = {"k": "ok", "v": [[codes(k), codes(v), jq(s, 1000000)] for k, v, s in got]}
        e["errs"] = [jq(nm.strerr(k, v), 1000000) for k, v, s in got]
    except Exception as x:
        e["res"] = {"k": "exc", "v": repr(x)}
    return e


def run(chk):
    nm = coral("names")
    rnd = chk.rnd
    for al, n in (("{97,98}", chk.pick(4, 5)), ("{97,98,99}", 3)):
        cases = chk.export("MC_Edit", "SPECIFICATION Spec\nCONSTANTS Alphabet=%s MaxLen=%d\n"
                           "INVARIANTS Least Attained Metric Export\nCHECK_DEADLOCK FALSE\n" % (al, n))
        for a, b, d in cases:
            a, b = "".join(map(chr, a)), "".join(map(chr, b))
            r = call(nm.damlev, a, b)
            e = call(nm.strerr, a, b) if a + b else {"k": "ok", "v": 0}
            if r["k"] != "ok" or r["v"] != d or e["k"] != "ok" or (a + b and abs(e["v"] - 2 * d / len(a + b)) > 1e-9):
                chk.violation("distance", {"a": a, "b": b, "want": d, "got": r, "err": e})
            chk.replayed += 1
    ev = [dist(nm, *pair(rnd)) for i in range(chk.pick(1000, 12000))]
    for i in range(chk.pick(25, 300)):       # names that agree far off the diagonal
        a = word(rnd, "abcdefghijkl", rnd.randint(16, 32))
        k = rnd.randint(3, 12)
        b = word(rnd, "mnopq", k) + a[:len(a) - rnd.choice((0, 0, k // 2, k))]
        ev.append(dist(nm, *rnd.sample((a, b), 2)))
    for i in range(chk.pick(150, 1500)):
        keys, values = [], []
        for j in range(rnd.randint(1, 4)):
            a, b = pair(rnd)
            keys.append(a or "x")
            values.append(b)
        for j in range(rnd.randint(0, 2)):
            values.append(pair(rnd)[1])
        if rnd.random() < 0.3:
            values.append(rnd.choice(values)[::-1])
        if rnd.random() < 0.2:
            keys.append(keys[0])
        if rnd.random() < 0.2:
            # long names a few edits away: errors that differ by little
            for j in range(rnd.randint(2, 4)):
                a = word(rnd, "abcdefgh", rnd.randint(20, 40))
                at = rnd.randrange(len(a))
                keys.append(a)
                values.append(a[:at] + rnd.choice(("", "x", a[at] + "x")) + a[at + 1:])
        rnd.shuffle(values)
        ev.append(matching(nm, keys, values))
    chk.judge("T_Names", [ev[i:i + 20] for i in range(0, len(ev), 20)])
