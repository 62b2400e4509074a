"""Drawing on vector canvases and reading the saved programs back (C20, C21)."""
import os
import shutil
from vt.core import call, BAD

DELIM = "()<>[]{}/%"
WS = " \t\r\n\f\0"


class BadProgram(Exception):
    pass


def tok(t, f=0, x="", v="", b=(), p=()):
    return {"t": t, "f": f, "x": x, "v": v, "b": list(b), "p": list(p)}


LOOSE = [False]


def fix(v):
    """Multiples of 1/64, as the specification calculates with them."""
    try:
        y = v * 64
        if LOOSE[0] and abs(y - round(y)) < 1e-6:
            y = round(y)
        return int(y) if y == int(y) and abs(y) < 1 << 24 else BAD
    except (OverflowError, ValueError):
        return BAD


def canon(v):
    v = float(v)
    return repr(0.0 if v == 0 else v)


def lex(src):
    """Tokens of a PostScript program (comments skipped)."""
    out, stack, i, n = [], [], 0, len(src)

    def add(t):
        (stack[-1][1] if stack else out).append(t)
    while i < n:
        c = src[i]
        if c in WS:
            i += 1
        elif c == "%":
            while i < n and src[i] not in "\r\n":
                i += 1
        elif c == "(":
            i, depth, b = i + 1, 1, []
            while True:
                if i >= n:
                    raise BadProgram("unterminated string")
                c = src[i]
                i += 1
                if c == "\\":
                    if i >= n:
                        raise BadProgram("unterminated string")
                    c = src[i]
                    i += 1
                    if c in "01234567":
                        k = 1
                        while k < 3 and i < n and src[i] in "01234567":
                            c += src[i]
                            i += 1
                            k += 1
                        b.append(int(c, 8) & 255)
                    elif c == "\n":
                        pass
                    else:
                        b.append(ord({"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}.get(c, c)))
                    continue
                if c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if not depth:
                        break
                b.append(ord(c))
            add(tok("str", b=b))
        elif c == "<":
            j = src.find(">", i)
            if j < 0:
                raise BadProgram("unterminated hexadecimal string")
            h = "".join(src[i + 1:j].split())
            try:
                add(tok("hex", b=bytes.fromhex(h + "0" * (len(h) % 2))))
            except ValueError:
                raise BadProgram("hexadecimal string")
            i = j + 1
        elif c in "{[":
            stack.append((c, []))
            i += 1
        elif c in "}]":
            if not stack or stack[-1][0] != {"}": "{", "]": "["}[c]:
                raise BadProgram("unbalanced " + c)
            k, p = stack.pop()
            if k == "[" and any(t["t"] != "num" for t in p):
                raise BadProgram("array of non-numbers")
            add(tok("proc" if k == "{" else "arr", p=p))
            i += 1
        elif c in ")>":
            raise BadProgram("unbalanced " + c)
        else:
            lit = c == "/"
            i += lit
            j = i
            while j < n and src[j] not in WS + DELIM:
                j += 1
            w = src[i:j]
            i = j
            if lit:
                add(tok("lit", v=w))
                continue
            try:
                v = float(w) if w[0] in "0123456789+-." else None
            except ValueError:
                v = None
            add(tok("name", v=w) if v is None else tok("num", fix(v), canon(v)))
    if stack:
        raise BadProgram("unterminated " + stack[-1][0])
    return out


def read_program(path):
    with open(path, encoding="latin-1", newline="") as f:
        src = f.read()
    head, box = src.startswith("%!PS"), [BAD] * 4
    for line in src.replace("\r", "\n").split("\n"):
        if line.startswith("%%BoundingBox:"):
            try:
                w = [fix(float(x)) for x in line.split(":")[1].split()]
                if len(w) == 4:
                    box = w
            except ValueError:
                pass
            break
    return {"head": head, "box": box, "prog": lex(src)}


def ink(v):
    if v is None:
        return []
    if isinstance(v, tuple):
        return [canon(x) for x in v]
    return [canon(v)] * 3


EV = {"op": "", "i": 1, "ink": [], "bg": [], "w": "", "dash": [], "off": "", "c": [0, 0], "r": 0, "fill": [],
      "stroke": [], "pts": [], "text": [], "font": "", "size": BAD, "pos": [0, 0], "anchor": "", "data": [],
      "h": 0, "n": 0, "scale": 0, "box": [], "margin": 0, "head": True, "prog": [], "err": ""}


class Session:
    def __init__(self, mod, folder):
        self.mod, self.folder, self.cv, self.ev, self.nsave, self.kept = mod, folder, [], [], 0, []

    def log(self, op, res_, **kw):
        e = {"op": op, "err": "" if res_["k"] == "ok" else "%s %s" % (res_["v"], res_.get("msg", ""))}
        e.update(kw)
        self.ev.append(e)
        return res_

    def new(self, bg=None, via=None):
        r = call(self.mod.Canvas, *([] if bg is None and via else [bg]))
        self.cv.append(r["v"])
        self.kept.append(None)
        self.log("new", r, bg=ink(bg))

    def copy(self, i):
        r = call(self.cv[i].copy)
        self.cv.append(r["v"])
        self.kept.append(self.kept[i])
        self.log("copy", r, i=i + 1)

    def ink(self, i, v, how="setink"):
        c = self.cv[i]
        if how == "setink":
            r = call(c.setink, v)
        elif isinstance(v, tuple):
            r = call(c.setcolor, *v)
        else:
            r = call(c.setgray, v)
        self.log("ink", r, i=i + 1, ink=ink(v))

    def wrong(self, i, v):
        """What is no ink is refused, and changes nothing."""
        self.log("wrong", call(self.cv[i].setink, v), i=i + 1)

    def refused(self, i, rnd, some):
        """Shapes that cannot be drawn are refused, and leave no trace."""
        c, pts = self.cv[i], [(rnd.randint(-90, 90), rnd.randint(-90, 90)) for _ in range(rnd.randint(3, 5))]
        none, bad = lambda: rnd.choice((None, some())), rnd.choice(("black", {}, b"x", [0, 0, 1], (0, 1)))
        broken = pts[:rnd.randint(1, len(pts))] + [rnd.choice((None, 7, (1,), (1, 2, 3)))]
        inks = rnd.choice(((bad, None), (bad, none()), (none(), bad), (some(), bad)))
        f, args = rnd.choice((
            (c.addcircle, (pts[0], 3) + inks), (c.addcircle, (pts[0], 3) + inks), (c.addcircle, (None, 3, none(), none())),
            (c.addpolyline, (pts, bad)), (c.addpolyline, (broken, none())),
            (c.addpolygon, (pts,) + inks), (c.addpolygon, (pts,) + inks), (c.addpolygon, (broken, none(), none())),
            (c.addroundedpolygon, (pts, 2) + inks), (c.addroundedpolygon, (pts + [None], 2, none(), none())),
            (c.addtext, (pts[0], rnd.choice(("word", "()")), 8, "Times-Bold", rnd.choice(("x", "lt", "")))),
            (c.addtext, (None, "word", 8)), (c.addtext, (pts[0], 5, 8)),
            (c.addimage, ([1, 2, rnd.choice((1.5, "a", None))], 1, rnd.choice((None, pts[0])))),
            (c.setdash, (iter([1, 2]),)), (c.setdash, (None,))))
        self.log("wrong", call(f, *args), i=i + 1)

    def width(self, i, w):
        self.log("width", call(self.cv[i].setwidth, w), i=i + 1, w=canon(w))

    def dash(self, i, pattern, off=None):
        e = dict(i=i + 1, dash=[canon(x) for x in pattern], off=canon(off or 0))
        self.log("dash", call(self.cv[i].setdash, pattern, *([] if off is None else [off])), **e)

    def shape(self, i, op, pts=(), center=(0, 0), r=0, fill=None, stroke=None, gen=False):
        c = self.cv[i]
        e = dict(i=i + 1, fill=ink(fill), stroke=ink(stroke))
        p = iter(list(pts)) if gen else list(pts)
        if op == "circle":
            e.update(c=[fix(v) for v in center], r=fix(r))
            res = call(c.addcircle, center, r, fill, stroke)
        elif op == "polyline":
            res = call(c.addpolyline, p, stroke)
        elif op == "polygon":
            res = call(c.addpolygon, p, fill, stroke)
        else:
            e["r"] = fix(r)
            res = call(c.addroundedpolygon, list(pts), r, fill, stroke)
        if op != "circle":
            e["pts"] = [[fix(v) for v in q] for q in pts]
        self.log(op, res, **e)

    def text(self, i, pos, text, size, font=None, anchor=None):
        kw = {}
        if font:
            kw["font"] = font
        if anchor:
            kw["anchor"] = anchor
        self.log("text", call(self.cv[i].addtext, pos, text, size, **kw), i=i + 1, pos=[fix(v) for v in pos],
                 text=[ord(x) for x in text], size=fix(size), font=font or "Times-Bold", anchor=anchor or "l")

    def image(self, i, data, w, pos=None, scale=None, color=False):
        kw = {}
        if pos is not None:
            kw["position"] = pos
        if scale is not None:
            kw["scale"] = scale
        if color:
            kw["color"] = True
        n = 3 if color else 1
        self.log("image", call(self.cv[i].addimage, data, w, **kw), i=i + 1, pos=[fix(v) for v in pos or (0, 0)],
                 data=list(data), w=w, h=len(data) // (w * n), n=n, scale=fix(1 if scale is None else scale))

    def resetbbox(self, i):
        self.log("resetbbox", call(self.cv[i].resetbbox), i=i + 1)

    def keep(self, i):
        self.kept[i] = self.cv[i].bbox
        self.log("keep", {"k": "ok"}, i=i + 1)

    def restore(self, i):
        if self.kept[i] is not None:
            self.cv[i].bbox = self.kept[i]
            self.log("restore", {"k": "ok"}, i=i + 1)

    def save(self, i, size=None, margin=None):
        path = os.path.join(self.folder, "p%d.ps" % (self.nsave % 4))
        self.nsave += 1
        if os.path.exists(path):
            os.remove(path)
        if self.nsave % 3 == 0:              # saved over a longer file of something else
            with open(path, "w") as f:
                f.write("%! leftover\n" + "stale ( {\n" * 4000)
        kw = {}
        if size is not None:
            kw["size"] = size
        if margin is not None:
            kw["margin"] = margin
        r = call(self.cv[i].save, path, **kw)
        e = {"head": False, "box": [BAD] * 4, "prog": []}
        if r["k"] == "ok":
            try:
                e = read_program(path)
            except (BadProgram, OSError) as x:
                r = {"k": "exc", "v": "BadProgram", "msg": str(x)}
        self.log("save", r, i=i + 1, size=BAD if size is None else fix(size), margin=fix(margin or 0), **e)


GRAYS = (0, 1, 0.5, 0.25, 0.3, 0.0, 1.0, 0.875)
COLORS = ((0, 0, 0), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0.5, 0.5, 0.5), (0.3, 0.6, 0.9), (0.25, 0, 1), (1.0, 0, 0))
FONTS = (None, "Times-Bold", "Helvetica", "Courier-Oblique")
ANCHORS = (None, "c", "t", "tr", "r", "br", "b", "bl", "l", "tl")
CHARS = "abcXYZ  019.,()()\\\\%%<>{}[]/~-_'\"&#n"


WIDTHS = [None, 2, 0, 0.5]
DASHES = [None, ([3, 2], 0), ([], 0), ([3, 2], 1)]


def aside(s, i, rnd, ink):
    """Something that is painted with an ink of its own, or none."""
    how = rnd.randint(0, 4)
    if how == 0:
        s.image(i, [1, 2, 3], 1, rnd.choice((None, (2, 3))), rnd.choice((None, 2)), rnd.random() < 0.5)
    elif how == 1:
        s.text(i, (1, 2), "aside", 8, None, rnd.choice(ANCHORS))
    elif how == 2:
        s.shape(i, "circle", center=(3, 4), r=2, fill=ink, stroke=ink)
    elif how == 3:
        s.shape(i, rnd.choice(("polygon", "rounded")), [(0, 0), (5, 1), (2, 6)], r=1, fill=ink, stroke=ink)
    else:
        s.shape(i, rnd.choice(("polyline", "polygon")), [(0, 0), (5, 1), (2, 6)], stroke=ink)


def replay_pen(mod, folder, hist, inks, pen=None, rnd=None):
    """pen: what the histories set is not the ink but the width or the dash.
    rnd: other things are drawn in between."""
    s = Session(mod, folder)
    for_ink = lambda i, f: s.width(i, WIDTHS[f]) if pen == "width" else s.dash(i, *DASHES[f])
    k = 0
    for op, i, f, t in hist:
        if rnd and op != "new" and rnd.random() < 0.6:
            aside(s, i - 1, rnd, rnd.choice((0, 0.5, (1, 0, 0)) if pen else inks[1:]))
        if op == "new":
            s.new(inks[i])
        elif op == "copy":
            s.copy(i - 1)
        elif op == "ink":
            for_ink(i - 1, f) if pen else s.ink(i - 1, inks[f])
        elif op == "refused":
            k += 1
            poly = [(k * 9, 0), (k + 2, -9), (k, 3)]
            s.log("wrong", call(s.cv[i - 1].addpolygon, poly, *((inks[f], "black") if f else ("black", inks[t]))), i=i)
        else:
            k += 1
            s.shape(i - 1, op, [(k, 0), (k + 2, 1), (k, 3)], fill=inks[f], stroke=inks[t])
    for i in range(len(s.cv)):
        if pen:
            s.shape(i, "polyline", [(0, 0), (9, 5)])
        s.save(i)
    return s.ev


def random_session(mod, folder, rnd, nops, sized=False, cls=None):
    s = (cls or Session)(mod, folder)
    s.is_sized = sized
    palette = [rnd.choice(GRAYS), rnd.choice(GRAYS), rnd.choice(COLORS), rnd.choice(COLORS)]
    if rnd.random() < 0.3:                  # inks next to each other, or of the same components
        c, g = rnd.choice(COLORS), rnd.choice(GRAYS)
        palette = [c, c[1:] + c[:1], (c[0], c[1], c[2] / 2 + 0.25 + rnd.choice((0, 1e-4))), g, g / 2 + 1e-4 if g else 1e-4, g / 2, (g, g, g)]
    some = lambda: rnd.choice(palette)
    maybe = lambda: some() if rnd.random() < 0.6 else None
    num = lambda: rnd.choice((rnd.randint(0, 16), rnd.randint(0, 32) / 2, rnd.randint(0, 128) / 8))
    if not sized:
        num = lambda: rnd.choice((rnd.randint(-20, 20), rnd.randint(-40, 40) / 2, rnd.randint(-128, 128) / 8, 0))
        if rnd.random() < 0.25:             # large and finely placed
            num = lambda: rnd.randint(-20000 * 32, 20000 * 32) / 32
    pt = lambda: (num(), num())
    s.new(rnd.choice((None, None, some())), rnd.random() < 0.5)
    shared = [rnd.randint(1, 3) for _ in range(rnd.randint(0, 3))]
    if sized:
        corner = (rnd.randint(-36, -8), rnd.randint(-20, -8))
        wide = rnd.random() < 0.5
        far = (corner[0] + (64 if wide else 48), corner[1] + (48 if wide else 64))
        s.shape(0, rnd.choice(("polygon", "polyline")), [corner, far], stroke=some())
    for _ in range(nops):
        i = rnd.randrange(len(s.cv))
        if rnd.random() < 0.06:             # there and back
            kind = rnd.choice(("ink", "width", "dash"))
            some2 = {"ink": lambda: (some(),), "width": lambda: (rnd.choice((0, 0.0, 1, 2, 0.5, 1.0005)),),
                     "dash": lambda: (rnd.choice(([], [1], [3, 2], [2, 3], [5], [0.5])), rnd.choice((None, 0, 1, 2)))}[kind]
            a, b = some2(), some2()
            for v in (a, b, a)[:rnd.choice((2, 3, 3))]:
                getattr(s, kind)(i, *v)
                if rnd.random() < 0.4:
                    s.shape(i, "polyline", [pt(), pt(), (1, 1)], stroke=None if rnd.random() < 0.5 else some())
            s.shape(i, "polyline", [pt(), (1, 0), pt()])
        op = rnd.choice(("ink", "width", "dash", "circle", "polyline", "polygon", "polygon", "circle", "rounded", "text",
                         "text", "image", "copy", "reset", "save", "keep", "restore"))
        if rnd.random() < 0.05:
            s.refused(i, rnd, some)
        elif op == "ink" and rnd.random() < 0.05:
            s.wrong(i, rnd.choice(("black", None, {}, b"x")))
        elif op == "ink":
            s.ink(i, some(), rnd.choice(("setink", "own")))
        elif op == "width":
            s.width(i, rnd.choice((0, 1, 1.0, 2, 0.5, 0.1, 1.0005, 1.25, 2.5, 0.5001)))
        elif op == "dash":
            if rnd.random() < 0.3:
                shared[:] = [rnd.randint(1, 3) for _ in range(rnd.randint(0, 3))]
                off = rnd.choice((None, 0, 1))
                s.dash(i, shared, off)
                if rnd.random() < 0.5:        # the caller's list changes, and is set again
                    if rnd.random() < 0.5:
                        s.shape(i, "polyline", [pt(), pt(), (1, 1)], stroke=some())
                    shared[:] = [rnd.randint(1, 3) for _ in range(rnd.randint(0, 3))]
                    if rnd.random() < 0.7:
                        s.dash(i, shared, off)
                    s.shape(i, "polyline", [pt(), pt(), (1, 1)], stroke=some())
            else:
                s.dash(i, rnd.choice(([], [1], [3, 2], [2, 3], [4, 1], [3, 2.5, 1], (1,), (), [0.5], [0.501])), rnd.choice((None, 0, 1, 2, 0.5)))
        elif op == "circle":
            s.shape(i, op, center=pt(), r=rnd.choice((1, 2, 0.5, 4)), fill=maybe(), stroke=maybe())
        elif op in ("polyline", "polygon"):
            n = rnd.choice((0, 1, 2, 3, 3, 4, 6))
            p = [pt() for _ in range(n)]
            if rnd.random() < 0.2 and p:      # thin drawings
                p = [(p[0][0], y) for x, y in p]
            if p and not any(x or y for x, y in p):
                continue                      # nothing but the origin has no extent
            s.shape(i, op, p, fill=maybe(), stroke=maybe(), gen=rnd.random() < 0.3)
        elif op == "rounded":
            s.shape(i, op, [pt() for _ in range(rnd.randint(3, 5))], r=rnd.choice((1, 2, 0.5)), fill=maybe(), stroke=maybe())
        elif op == "text":
            t = "".join(rnd.choice(CHARS if rnd.random() < 0.8 else "()\\") for _ in range(rnd.choice((0, 1, 3, 6, 12, 40))))
            if rnd.random() < 0.1:
                t = rnd.choice("()\\") * rnd.randint(1, 12)
            s.text(i, pt(), t, rnd.choice((8, 16, 12)), rnd.choice(FONTS), rnd.choice(ANCHORS))
        elif op == "image":
            w, h = rnd.randint(1, 4), rnd.randint(1, 4)
            color = rnd.random() < 0.5
            d = [rnd.choice((0, 255, rnd.randrange(256), rnd.randrange(16))) for _ in range(w * h * (3 if color else 1))]
            s.image(i, rnd.choice((list, bytes, tuple, bytearray))(d), w, rnd.choice((None, pt())),
                    rnd.choice((None, 1, 2, 0.5, 3)), color)
        elif op == "copy":
            if len(s.cv) < 3:
                s.copy(i)
        elif op == "reset":
            if rnd.random() < 0.3 and not sized:
                s.resetbbox(i)
        elif op in ("keep", "restore"):
            if not sized:
                getattr(s, op)(i)
        elif rnd.random() < 0.3 and not sized:
            s.save(i, None, rnd.choice((None, 0, 1, 2.5)))
    if cls:
        return s
    for i in range(len(s.cv)):
        for _ in range(rnd.choice((1, 1, 2))):
            if sized:
                m = rnd.choice((None, 0, 2, 8, 16))
                s.save(i, rnd.choice((32, 64, 100, 128)) + (m or 0), m)
            else:
                s.save(i, None, rnd.choice((None, 0, 1, 2.5, 10)))
    return s.ev


def run(chk, prop):
    from vt.core import coral
    mod = coral("vector")
    folder = chk.path("ps")
    os.mkdir(folder)
    rnd = chk.rnd
    ses = []
    cfg = ("SPECIFICATION Spec\nCONSTANTS Inks={1,2,3} MaxOps=%d MaxCanvases=%d\nINVARIANTS Faithful %s\nCHECK_DEADLOCK FALSE\n")
    if prop == "c20":
        if chk.thorough:
            chk.model_check("MC_Pen", cfg % (4, 2, ""))
        hists = chk.export("MC_Pen", cfg % (3, 2, "Export"))
        for h in hists:
            if h[0][1] == 0 and all(o[0] in ("new", "copy", "ink") for o in h):
                for pen in ("width", "dash"):
                    ses.append(replay_pen(mod, folder, h, [None], pen))
                    ses.append(replay_pen(mod, folder, h, [None], pen, rnd))
                    chk.replayed += 2
        rnd.shuffle(hists)
        sets = ([None, 0, 1, (1, 0, 0)], [None, 0, (0, 0, 0), 0.5], [None, 1, (1, 1, 1), (0, 0, 1)])
        for h in hists[:chk.pick(500, 15000)]:
            ses.append(replay_pen(mod, folder, h, rnd.choice(sets), None, rnd if chk.replayed % 3 == 0 else None))
            chk.replayed += 1
    for _ in range(chk.pick(250, 3000)):
        ses.append(random_session(mod, folder, rnd, rnd.choice((2, 5, 10, 20)), sized=rnd.random() < 0.35))
    ses = [[dict(EV, **e) for e in x] for x in ses]
    chk.judge("T_Vector", ses, env={"VT_PROP": prop})
    shutil.rmtree(folder)
