"""C22: table operations."""
from vt.core import call, coral
from . import tabs


def value(rnd):
    return rnd.choice((0, 1, 2, 3, "", "x", "y", "é", None, 1.5, "0", (1, 2), "São João", 4000))


def table(rnd, cols=None, n=None):
    cols = cols or rnd.sample(tabs.NAMES, rnd.randint(1, 4))
    n = n or rnd.choice((1, 2, 3, 5, 8))
    pool = [value(rnd) for _ in range(rnd.randint(1, 4))]
    return cols, [[rnd.choice(pool) for _ in cols] for _ in range(n)]


def fresh(v):
    """An equal value that is another object."""
    return ("".join(list(v)) if isinstance(v, str) else tuple(list(v)) if isinstance(v, tuple) else
            type(v)(repr(v)) if isinstance(v, (int, float)) else v)


def event(op, t1, go, t2=None, **kw):
    a = tabs.make(*t1)
    b = tabs.make(t2[0], [[fresh(v) for v in r] for r in t2[1]]) if t2 else None
    r = call(lambda: go(a, b))
    e = dict(op=op, t1=tabs.shape(*t1), res=tabs.plain(r), **kw)
    e["intact"] = a == tabs.make(*t1) and (not t2 or b == tabs.make(*t2)) and isinstance(a, list)
    if t2:
        e["t2"] = tabs.shape(*t2)
    return e


def run(chk):
    tb = coral("table")
    rnd = chk.rnd
    cfg = ("SPECIFICATION Spec\nCONSTANTS Vals={\"u\",\"v\"} R1=%d R2=%d\nINVARIANT Meaning %s\nPROPERTY Ends\n"
           "CHECK_DEADLOCK FALSE\n")
    if chk.thorough:
        chk.model_check("MC_Table", cfg % (2, 3, ""))
    for c in chk.export("MC_Table", cfg % (2, 2, "Export")):
        a = tabs.make(c["t1"]["cols"], c["t1"]["rows"])
        b = tabs.make(c["t2"]["cols"], c["t2"]["rows"])
        r = call(lambda: [list(x) for x in tb.join(a, b, None, ["a", "b", "c"])])
        want = [["" if v == "''" else v for v in row] for row in c["out"]]
        if r["k"] != "ok" or r["v"] != want:
            chk.violation("join", {"t1": c["t1"], "t2": c["t2"], "want": want, "got": r})
        chk.replayed += 1
    ev = []
    for i in range(chk.pick(700, 8000)):
        t1 = table(rnd)
        k = rnd.choice(("join", "join", "join", "getone", "getall", "index", "add", "del"))
        if k == "join":
            cols = rnd.sample(t1[0], rnd.randint(0, len(t1[0])))
            cols += rnd.sample([n for n in tabs.NAMES if n not in t1[0]], rnd.randint(1 if not cols else 0, 2))
            rnd.shuffle(cols)
            t2 = table(rnd, cols)
            if rnd.random() < 0.6:      # make matches likely
                for row in t2[1]:
                    src = rnd.choice(t1[1])
                    for j, c in enumerate(cols):
                        if c in t1[0] and rnd.random() < 0.9:
                            row[j] = src[t1[0].index(c)]
            both = [c for c in t1[0] if c in cols]
            args, kw = [], {"pivots": ["*"], "keys": ["*"]}
            if both and rnd.random() < 0.4:
                kw["pivots"] = rnd.sample(both, rnd.randint(1, len(both)))
            union = list(dict.fromkeys(t1[0] + cols))
            if rnd.random() < 0.4:
                kw["keys"] = rnd.sample(union, rnd.randint(1, len(union)))
            args = {n: list(v) for n, v in kw.items() if v != ["*"]}
            ev.append(event("join", t1, lambda a, b: tabs.observe(tb.join(a, b, **args)), t2, **kw))
        elif k in ("getone", "getall"):
            key = rnd.choice(t1[0])
            q = rnd.choice([r[t1[0].index(key)] for r in t1[1]] + [value(rnd), "absent"])
            if rnd.random() < 0.3:          # not the same though written alike
                row = rnd.choice(t1[1])
                q, row[t1[0].index(key)] = rnd.choice((("0", 0), (0, "0"), ("1.5", 1.5), (None, "None"), ("", None), (0, ""), ("X", "x"), ("x", "x ")))

            def go(a, b):
                if k == "getall":
                    return [[tabs.show(v) for v in r] for r in tb.getall(a, key, q)]
                r = tb.getone(a, key, q)
                return [] if r is None else [[tabs.show(v) for v in r]]
            q = fresh(q)
            # 1 == 1.0 == True in Python, so values that are equal but written differently are kept apart
            ev.append(event(k, t1, go, key=key, query=tabs.show(q)))
        elif k == "index":
            key = rnd.choice(t1[0])
            if len(t1[0]) > 1:
                ev.append(event("index", t1, lambda a, b: [[tabs.show(v), list(r._fields), [tabs.show(x) for x in r]]
                                                           for v, r in tb.indexby(a, key).items()], key=key))
        elif k == "add":
            key = rnd.choice([n for n in tabs.NAMES if n not in t1[0]])
            f = rnd.choice((lambda r: r[0], lambda r: str(r[-1]) + "!", lambda r: len(r), lambda r: r._fields))
            ev.append(event("add", t1, lambda a, b: tabs.observe(tb.addkey(a, key, f)), key=key,
                            vals=[tabs.show(f(r)) for r in tabs.make(*t1)]))
        else:
            ks = rnd.sample(t1[0], rnd.randint(0, len(t1[0]) - 1)) + rnd.choice(([], ["absent"]))
            ev.append(event("del", t1, lambda a, b: tabs.observe(tb.delkeys(a, rnd.choice((list, tuple, set))(ks))), keys=ks))
    chk.judge("T_Table", [ev[i:i + 10] for i in range(0, len(ev), 10)])
