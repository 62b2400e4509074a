"""Running the progress meter under an injected clock (C28, C29)."""
import io
import sys
import time
from vt.core import call, coral, BAD

NONE = 999999
HZ = 64
BASE = 1 << 20


class Clock:
    """Replaces the clocks while active; time passes only when told to."""
    names = ("time", "monotonic", "perf_counter")

    def __init__(self):
        self.ticks = 0
        self.on = False
        self.real = {n: getattr(time, n) for n in self.names}
        for n in self.names:
            setattr(time, n, self.make(n))

    def make(self, n):
        return lambda: BASE + self.ticks / HZ if self.on else self.real[n]()

    def restore(self):
        for n, f in self.real.items():
            setattr(time, n, f)


class Out:
    """A buffered terminal: what is not flushed is not seen."""

    def __init__(self):
        self.buf, self.shown = [], []

    def write(self, s):
        self.buf.append(s)
        return len(s)

    def flush(self):
        self.shown += self.buf
        self.buf = []

    def isatty(self):
        return False

    def take(self, closed=False):
        if closed:
            self.flush()
        s = "".join(self.shown)
        self.shown = []
        return list(s if len(s) < 1000 else "(%d characters)" % len(s))


class Boom(Exception):
    pass


def run_one(tq, clock, steps, total, desc, leave, interval, iters, source):
    """steps: ("item", dt), ("body", dt), ... and a last ("end"|"fail"|"left", dt)."""
    out, other = Out(), Out()
    items = [object() for k, d in steps if k == "item"]
    delays = [d for k, d in steps if k == "item"]
    bodies = [d for k, d in steps if k == "body"]
    how, last = steps[-1]
    boom = Boom()
    ev = []

    class Source:
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            i = self.i
            self.i += 1
            ev.append({"op": "ask", "i": i + 1, "t": clock.ticks, "out": out.take()})
            if i < len(items):
                clock.ticks += delays[i]
                return items[i]
            clock.ticks += last
            if how == "fail":
                raise boom
            raise StopIteration

    class Sized(Source):
        def __len__(self):
            return total + 3 if source == "both" else total

    def gen(src):
        for x in src:
            yield x
    src = Sized() if source in ("sized", "both") else Source()
    if source == "gen":
        src = gen(src)
    kw = dict(desc=desc, leave=leave, file=out, mininterval=interval / HZ, miniters=iters)
    for k, v in (("desc", ""), ("leave", True), ("mininterval", 0.5), ("miniters", 1)):
        if kw[k] == v and len(steps) % 3:      # as documented
            del kw[k]
    if source in ("given", "both") or source == "gen" and total != NONE:
        kw["total"] = total
    clock.ticks = 0
    clock.on = True
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = other
    try:
        m = iter(tq.tqdm(src, **kw))
        ev.append({"op": "made", "t": 0, "out": out.take(), "total": total, "leave": leave,
                   "desc": list(desc + ": ") if desc else [], "interval": interval, "iters": iters})
        clock.ticks += 5
        i, got = 0, "?"
        while got == "?":
            if how == "left" and i == len(items) and len(bodies) < len(items):
                m.close()
                got = "left"
                break
            try:
                x = next(m)
            except StopIteration:
                got = "end"
            except Boom as b:
                got = "fail" if b is boom else "another exception"
            except Exception as b:
                got = "exception " + type(b).__name__
            else:
                ev.append({"op": "got", "i": i + 1, "same": i < len(items) and x is items[i], "out": out.take()})
                clock.ticks += bodies[i] if i < len(bodies) else 0
                i += 1
                if i > len(items):
                    got = "endless"
        ev.append({"op": "end", "how": got, "want": how, "t": clock.ticks, "out": out.take(True),
                   "other": len(other.take(True))})
    finally:
        sys.stdout, sys.stderr = so, se
        clock.on = False
    return ev


def numbers(tq, clock, args, kw, delays):
    """Counting through a meter is iterating through a range with a meter."""
    def go(make):
        out = Out()
        clock.ticks, seen = 0, []
        for x in make(file=out, **kw):
            seen.append(x)
            clock.ticks += delays[len(seen) % len(delays)]
            if len(seen) > 1000:
                break
        return seen, out.take(True)
    clock.on = True
    try:
        r = call(go, lambda **k: tq.trange(*args, **k))
        q = call(go, lambda **k: tq.tqdm(range(*args), **k))
    finally:
        clock.on = False
    e = {"op": "trange", "in": [args, kw], "want": list(range(*args)), "ok": r["k"] == q["k"] == "ok"}
    e["got"], e["out"] = r["v"] if r["k"] == "ok" else ([], [])
    e["out2"] = q["v"][1] if q["k"] == "ok" else []
    return e


def text(r):
    return {"k": "ok", "v": list(r["v"])} if r["k"] == "ok" and isinstance(r["v"], str) else {"k": "exc", "v": repr(r["v"])}
