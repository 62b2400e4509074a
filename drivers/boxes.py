from vt.core import call, coral, ji, jq, BAD


def co(b, scale=8):
    """Observed corners of a box as exact integers, or BADs."""
    try:
        return [ji(b.x0, scale), ji(b.y0, scale), ji(b.x1, scale), ji(b.y1, scale)]
    except Exception:
        return [BAD] * 4


def val(r):
    return r["v"] if r["k"] == "ok" else None


def unit(rnd):
    """What a coordinate of 8 is: anything from tiny to huge."""
    return rnd.choice((1, 1, 1, 2.0 ** -30, 2.0 ** 20, 2.0 ** -45, 2.0 ** 60))


def raw(x, rnd, u=1):
    """x/8 as an int when integral (sometimes), else as a float; in units of u."""
    if u != 1:
        return int(x * u / 8) if u > 1 and rnd.random() < 0.3 else x * u / 8
    return x // 8 if x % 8 == 0 and rnd.random() < 0.7 else x / 8


def mk(bbox, b, rnd, u=1):
    return bbox.BBox((raw(b[0], rnd, u), raw(b[1], rnd, u)), (raw(b[2], rnd, u), raw(b[3], rnd, u)))


def rbox(rnd, lim=None, positive=False):
    lim = lim or rnd.choice((3, 8, 80, 800, 1200))
    step = rnd.choice((1, 1, 8))
    def pair():
        a, b = rnd.randint(-lim, lim) * step, rnd.randint(-lim, lim) * step
        if rnd.random() < 0.12 and not positive:
            b = a
        if positive and a == b:
            b = a + step
        return (a, b) if a <= b else (b, a)
    (x0, x1), (y0, y1) = pair(), pair()
    return [x0, y0, x1, y1]


def tb(r):
    return r["v"] if r["k"] == "ok" and type(r["v"]) is bool else "junk"


def chunks(ev, n=40):
    return [ev[i:i + n] for i in range(0, len(ev), n)]
