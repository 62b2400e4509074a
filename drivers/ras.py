"""Shared by C16-C19: making and observing canvases."""
from vt.core import call, coral, BAD

KINDS = ("bw", "gray", "color")


def make(kind, w, h, bg):
    r = coral("raster")
    if bg is None:          # the default is white
        return {"bw": r.BWCanvas, "gray": r.GrayCanvas, "color": r.ColorCanvas}[kind](w, h)
    if kind == "bw":
        return r.BWCanvas(w, h, bg[0])
    if kind == "gray":
        return r.GrayCanvas(w, h, bg[0])
    return r.ColorCanvas(w, h, tuple(bg))


def val(kind, v):
    return tuple(v) if kind == "color" else v[0]


def chans(v):
    if isinstance(v, tuple):
        return [x if type(x) is int else BAD for x in v]
    return [v if type(v) is int else BAD]


def picture(c, w, h):
    return [[chans(c[x, y]) for x in range(w)] for y in range(h)]


def colour(kind, rnd):
    if kind == "bw":
        return [rnd.randint(0, 1)]
    return [rnd.choice((0, 255, rnd.randint(0, 255))) for _ in range(3 if kind == "color" else 1)]


def two(kind, rnd):
    """Two colours that differ in every channel."""
    while 1:
        a, b = colour(kind, rnd), colour(kind, rnd)
        if all(x != y for x, y in zip(a, b)):
            return a, b


def painted(kind, w, h, bg, draw):
    """Pixels that differ from the background after drawing on a new canvas."""
    def go():
        c = make(kind, w, h, bg)
        draw(c)
        pic = picture(c, w, h)
        return [[x, y, pic[y][x]] for y in range(h) for x in range(w) if pic[y][x] != bg]
    return plain(call(go))


def drawn(kind, w, h, bg, draw):
    def go():
        c = make(kind, w, h, bg)
        draw(c)
        return picture(c, w, h)
    return plain(call(go))


def plain(r):
    return {"k": r["k"], "v": r["v"]} if r["k"] == "ok" else {"k": r["k"], "v": str(r["v"]) + str(r.get("msg", ""))}
