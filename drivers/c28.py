"""C28: iterating through a progress meter."""
from vt.core import call, coral
from . import meter

CFG = ("SPECIFICATION Spec\nCONSTANTS MaxItems=%d Dts={%s} Intervals={0,2} Iters={1,2} Totals={%s}\n"
       "INVARIANTS Throttled ShownIsDrawn FinalShown %s\nPROPERTY Quiet\nCHECK_DEADLOCK FALSE\n")


def run(chk):
    rnd = chk.rnd
    clock = meter.Clock()
    try:
        tq = coral("tqdm")
        if chk.thorough:
            chk.model_check("MC_Meter", CFG % (4, "0,1,2", "0,2,4,999999", ""))
        runs = chk.export("MC_Meter", CFG % (3, "0,1", "0,2,3,999999", "Export"))
        rnd.shuffle(runs)
        ses = []
        for cfg, steps in runs[:chk.pick(2000, 20000)]:
            t = cfg["total"]
            ses.append(meter.run_one(tq, clock, [tuple(x) for x in steps], t, "", cfg["leave"], cfg["interval"],
                                     cfg["iters"], "gen" if t == meter.NONE else rnd.choice(("sized", "given", "gen", "both"))))
            chk.replayed += 1
        for i in range(chk.pick(400, 5000)):
            n = rnd.choice((0, 1, 2, 5, 20, 60))
            k = rnd.choice((0, 1, 8, 40, 1000))
            interval = rnd.choice((0, 1, 16, 32, 32, 64, 300))
            dt = lambda: rnd.choice((0, 0, rnd.randint(0, k), interval, max(interval - 1, 0), interval + 1))
            steps = []
            for j in range(n):
                steps += [("item", dt() if rnd.random() < 0.3 else 0), ("body", dt())]
            how = rnd.choice(("end", "end", "end", "fail", "left"))
            if how == "left":
                if not n:
                    continue
                steps.pop()
            steps.append((how, dt() if how != "left" else 0))
            source = rnd.choice(("sized", "given", "gen", "plain", "both"))
            total = meter.NONE if source == "plain" or source == "gen" and rnd.random() < 0.5 else \
                n if source == "sized" else rnd.choice((n, n, n // 2, n + 3, 1000, 0))
            ses.append(meter.run_one(tq, clock, steps, total, rnd.choice(("", "", "abc", "two words", "  lead")),
                                     rnd.random() < 0.6, interval, rnd.choice((1, 1, 2, 3, 10)), source))
        for i in range(chk.pick(30, 300)):
            args = rnd.choice(((rnd.randint(0, 9),), (2, rnd.randint(0, 12)), (9, 0, -rnd.randint(1, 3)), (0, 20, rnd.randint(1, 5))))
            kw = rnd.choice(({}, {"desc": "x"}, {"leave": False}, {"mininterval": 0.25, "miniters": 2}, {"total": 5}))
            ses.append([meter.numbers(tq, clock, args, kw, [rnd.choice((0, 16, 40)) for _ in range(3)])])
        chk.judge("T_Meter", ses)
    finally:
        clock.restore()
