"""C29: what progress lines say."""
from vt.core import call, coral
from . import meter


def fmt(tq, n, total, e, hz=meter.HZ):
    r = call(tq.format_meter, n, None if total == meter.NONE else total, e / hz if e % hz else e // hz)
    return {"op": "format", "n": n, "total": total, "e": e, "hz": hz, "res": meter.text(r)}


def run(chk):
    rnd = chk.rnd
    tq = coral("tqdm")
    chk.model_check("MC_Meter", "SPECIFICATION Spec\nCONSTANTS MaxItems=2 Dts={0,1,70} Intervals={0,2} Iters={1,2} "
                    "Totals={0,1,2,999999}\nINVARIANTS Throttled ShownIsDrawn FinalShown\nCHECK_DEADLOCK FALSE\n")
    ev = []
    for secs in list(range(0, 130)) + [3599, 3600, 3601, 35999, 36000, 86399, 86400, 360000] + \
            [rnd.randint(0, 400000) for _ in range(chk.pick(100, 1000))]:
        t = secs + rnd.choice((0, 0, 0.25, 0.999, 0.5))
        ev.append({"op": "interval", "secs": secs, "t": str(t), "res": meter.text(call(tq.format_interval, t))})
    for total in list(range(0, 42)) + [meter.NONE, 99, 100, 101]:
        for n in range(0, min(total, 50) + 3) if total < 42 else rnd.sample(range(0, 102), 50) + [0, 99, 100, 101]:
            if total <= 20 or rnd.random() < chk.pick(0.4, 1):
                ev.append(fmt(tq, n, total, rnd.choice((0, 1, 32, 64, 100, 3840, 64 * 3599, 64 * 3600, rnd.randint(0, 20000)))))
    for total in (50, 100, 200, 1000):
        for n in range(total + 1):        # rounding shows at few of them
            if total < 1000 or n % 10 in (0, 9) and (n // 10) % chk.pick(2, 1) == 0:
                ev.append(fmt(tq, n, total, rnd.choice((0, 64, 640))))
    for i in range(chk.pick(700, 8000)):
        total = rnd.choice((meter.NONE, 0, rnd.randint(1, 30), rnd.randint(1, 1000)))
        n = rnd.choice((0, rnd.randint(0, min(total, 1000)), total if total < 2000 else 3, rnd.randint(0, 1200)))
        e = rnd.choice((0, rnd.randint(0, 200), rnd.randint(0, 64 * 4000), 64 * rnd.randint(0, 8000)))
        ev.append(fmt(tq, n, total, e))
    for i in range(chk.pick(60, 600)):         # moments after the start
        total = rnd.choice((meter.NONE, rnd.randint(1, 300)))
        ev.append(fmt(tq, rnd.randint(0, min(total, 300)), total, rnd.choice((1, 2, 3, rnd.randint(1, 400))), rnd.choice((1024, 4096, 8192))))
    ses = [ev[i:i + 20] for i in range(0, len(ev), 20)]
    for i in range(chk.pick(150, 1500)):
        two = [(out, tq.StatusPrinter(out), []) for out in (meter.Out(), meter.Out())]     # side by side
        for j in range(rnd.randint(1, 12)):
            out, sp, one = rnd.choice(two)
            t = "".join(rnd.choice("abc#- 1]%|") for _ in range(rnd.choice((0, 1, 2, 5, 12, 30))))
            r = call(sp.print_status, t)
            one.append({"op": "status", "text": list(t), "out": out.take(), "res": {"k": r["k"], "v": 0}})
        ses += [one for out, sp, one in two if one]
    chk.judge("T_Meter", ses)
