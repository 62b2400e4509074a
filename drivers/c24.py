"""C24: statistics and their caches."""
import json
from fractions import Fraction
from vt.core import call, coral
from .num import big, common

R = 1 << 40
ONE = ("max", "min", "sum", "len", "avg", "var", "std_dev")
TWO = ("covar", "corr")
GINI = ("gini_kakwani", "gini_deaton")


def caches(st):
    """Every public cached function of the module."""
    return [f for n, f in sorted(vars(st).items()) if hasattr(f, "cache_info") and hasattr(f, "cache_clear")]


def infos(st):
    return [[i.hits, i.misses, i.maxsize if i.maxsize is not None else 0, i.currsize]
            for i in (f.cache_info() for f in caches(st))]


def number(rnd, kind):
    if kind == "int":
        return rnd.randint(-50, 50)
    if kind == "pos":
        return rnd.choice((0, rnd.randint(1, 9), rnd.randint(1, 1000)))
    if kind == "dec":
        return rnd.randint(-9999, 9999) / 100
    if kind == "dyad":
        return rnd.randint(-4096, 4096) / 64
    if kind == "small":
        return rnd.randint(1, 3)
    if kind == "far":
        return 10 ** 6 + rnd.randint(0, 9) / 8
    return rnd.choice((rnd.uniform(0, 1), rnd.randint(0, 1)))


def data(rnd):
    kind = rnd.choice(("int", "pos", "dec", "dyad", "small", "far", "mix"))
    n = rnd.choice((1, 2, 2, 3, 4, 5, 7, 10))
    x = [number(rnd, kind) for _ in range(n)]
    if rnd.random() < 0.15:
        x = [x[0]] * n
    if rnd.random() < 0.1:
        x.sort(reverse=rnd.random() < 0.5)
    return tuple(x)


DEGREE = {"len": 0, "corr": 0, "gini_kakwani": 0, "gini_deaton": 0, "var": 2, "covar": 2}


def event(st, f, args, ids, u=1.0):
    """u: a power of two; statistics of numbers u times as large (exactly)."""
    r = call(getattr(st, f), *(args if u == 1 else [tuple(v * u for v in a) for a in args]))
    if u != 1 and r["k"] == "ok" and type(r["v"]) in (int, float):
        for _ in range(DEGREE.get(f, 1)):
            r["v"] = r["v"] / u
    d, vals = common(*[v for a in args for v in a])
    x = vals[:len(args[0])]
    e = {"op": "call", "f": f, "id": ids, "d": big(d), "x": [big(v) for v in x],
         "y": [big(v) for v in vals[len(args[0]):]]}
    if r["k"] == "ok" and isinstance(r["v"], (int, float)) and r["v"] == r["v"] and abs(r["v"]) < 1e30:
        v = Fraction(r["v"])
        ex = v * d
        e.update(res={"k": "ok", "v": str(v)}, q=big(round(v * R)),
                 exact=big(ex) if ex.denominator == 1 else big(-10 ** 40))
    else:
        e.update(res={"k": "exc" if r["k"] == "ok" else r["k"], "v": repr(r["v"])[:80]}, q=big(0), exact=big(0))
    return e


def usable(f, args):
    """Where the definition has a value."""
    if f in TWO:
        if len(args[0]) != len(args[1]):
            return False
        return f != "corr" or all(max(a) - min(a) > max(map(abs, a)) * 1e-6 for a in args)
    if f in GINI:
        x = args[0]
        return len(x) > 1 and abs(sum(x)) * 100 >= sum(map(abs, x)) > 0
    return True


def flood(st):
    def go():
        for i in range(300):
            t = (i, i + 1, 2 * i + 5)
            u = (i + 1, 2 * i, 7)
            st.max(t), st.min(t), st.std_dev(t), st.gini_deaton(t)
            if i < 150:
                st.corr(t, u), st.gini_kakwani(t)
    return call(go, secs=30)["k"] == "ok"


def run(chk):
    st = coral("stats")
    rnd = chk.rnd
    inv = "INVARIANTS RightAnswer OnlyTruth Bounded Cleared\n"
    chk.model_check("MC_Memo", "SPECIFICATION Spec\nCONSTANTS Keys={\"a\",\"b\",\"c\"} Cap=2 MaxOps=%d\n%sVIEW View\n"
                    "CHECK_DEADLOCK FALSE\n" % (chk.pick(4, 5), inv))
    edges = chk.export("MC_Memo", "SPECIFICATION Spec\nCONSTANTS Keys={\"a\",\"b\"} Cap=2 MaxOps=%d\n%s"
                       "VIEW View\nACTION_CONSTRAINT Export\nCHECK_DEADLOCK FALSE\n" % (chk.pick(4, 5), inv))
    values = {"a": (3, 1, 4, 1, 5), "b": (3, 1, 4, 1, 6)}
    ns = {"sum": Fraction, "len": len}
    true = {("sum", "a"): 14, ("len", "a"): 5, ("avg", "a"): 2.8, ("var", "a"): 2.56,
            ("sum", "b"): 15, ("len", "b"): 5, ("avg", "b"): 3.0, ("var", "b"): 3.6}
    empty = {f: [] for f in ("sum", "len", "avg", "var")}
    for path, e in chk.paths(edges, json.dumps([empty, 0], sort_keys=True)):
        st.cache_clear()
        for q in path + [e]:
            op = q["op"]
            if op[0] == "clear":
                r = call(st.cache_clear)
                bad = r["k"] != "ok" or any(i[3] for i in infos(st))
            else:
                r = call(getattr(st, op[1]), values[op[2]])
                bad = r["k"] != "ok" or abs(r["v"] - true[op[1], op[2]]) > 1e-12
            if bad:
                chk.violation("answer-after-history", {"ops": [x["op"] for x in path] + [e["op"]], "got": r})
        chk.replayed += 1
    ses = []
    for i in range(chk.pick(60, 600)):
        pool = [data(rnd) for _ in range(rnd.randint(2, 5))]
        for x in pool[:2]:            # partners of equal length, distant relatives
            pool.append(tuple(rnd.choice((v, number(rnd, "int"))) for v in x))
            pool.append(tuple(x[::-1]))
        for x in pool[:3]:            # sequences with the hash of others
            if rnd.random() < 0.4:
                y = list(x)
                y[rnd.randrange(len(y))] = -1
                pool += [tuple(y), tuple(-2 if v == -1 else v for v in y)]
        u = rnd.choice((1, 1, 1, 2.0 ** -300, 2.0 ** 300, 2.0 ** -50))
        ev = []
        for j in range(rnd.randint(10, 30)):
            k = rnd.random()
            if k < 0.06:
                r = call(st.cache_info)
                ok = r["k"] == "ok"
                ev.append({"op": "info", "infos": infos(st),
                           "res": {"k": "ok", "v": [int(v) for v in r["v"]]} if ok else {"k": "exc", "v": r["v"]}})
            elif k < 0.1:
                r = call(st.cache_clear)
                ev.append({"op": "clear", "infos": infos(st), "res": {"k": r["k"], "v": str(r["v"])}})
            elif k < 0.12:
                ev.append({"op": "flood", "ok": flood(st)})
            else:
                f = rnd.choice(ONE + TWO * 3 + GINI)
                a = [rnd.randrange(len(pool)) for _ in range(2 if f in TWO else 1)]
                if f in TWO:
                    a[1] = rnd.choice([b for b in range(len(pool)) if len(pool[b]) == len(pool[a[0]])])
                args = [pool[b] for b in a]
                if usable(f, args):
                    ev.append(event(st, f, args, a, u))
        ses.append(ev)
    chk.judge("T_Stats", ses)
