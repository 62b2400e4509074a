"""C35: images and animations of canvases.  The converters are stand-ins, found
first on the PATH, that copy what they are given into the image."""
import contextlib
import os
import shutil
import threading
import time
from vt.core import call, coral, BAD
from . import vec

GS = r"""#!/bin/sh
out= in=
for a; do
  case $a in -sOutputFile=*) out=${a#-sOutputFile=};; esac
  in=$a
done
[ -n "$out" ] || exit 99
for a; do printf '%s\n' "$a"; done > "$out.args"
wait_for() { n=0; while [ ! -e "$1" ]; do n=$((n+1)); [ $n -gt 20000 ] && exit 98; sleep 0.003; done; }
if [ -e "$out.ctl" ]; then : > "$out.up"; wait_for "$out.go1"; fi
cat < "$in" > "$out" || rm -f "$out"
if [ -e "$out.ctl" ]; then : > "$out.read"; wait_for "$out.go2"; fi
[ -e "$out.status" ] && exit $(cat "$out.status")
exit 0
"""
CONVERT = r"""#!/bin/sh
for out; do :; done
for a; do printf '%s\n' "$a"; done > "$out.args"
: > "$out"
while [ $# -gt 1 ]; do
  case $1 in
    -*) shift;;
    *) printf '\n%%%%%%%%FRAME %s\n' "$1" >> "$out"; cat < "$1" >> "$out" || exit 97;;
  esac
  shift
done
[ -e "$out.status" ] && exit $(cat "$out.status")
exit 0
"""
NAMES = ("a.png", "map of brazil.png", "it's.png", 'say "x".png', "$HOME.png", "a;b.png", "a&b.png", "(1).png", "ü é.png", "a*b?.png",
         "#1.png", "`x`.png", "~.png", "a b  c.png", "back\\slash.png", "x>y.png", "{a,b}.png", "!1.png")
DEVICES = (None, "png256", "pngmono", "png16", "pnggray", "pngalpha")
NO = {"dev": "", "devwant": "", "flags": False, "status": 0, "statuswant": 0, "clean": False, "frames": [], "progs": [],
      "delay": "", "delaywant": "", "loop": "", "size": BAD, "margin": 0, "head": False, "box": [BAD] * 4, "prog": []}


def gs_args(path):
    """What the converter was asked to do."""
    with open(path + ".args") as f:
        args = f.read().split("\n")[:-1]
    dev = [a[9:] for a in args if a.startswith("-sDEVICE=")]
    one = "-o" in args or {"-dNOPAUSE", "-dBATCH"} <= set(args)
    return {"dev": dev[0] if len(dev) == 1 else "?", "flags": one and "-dEPSCrop" in args,
            "clean": not os.path.lexists(args[-1])}, args[-1]


def small(v):
    return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 20 else BAD


class Images(vec.Session):
    def want(self, dev):
        return "png256" if dev is None else dev

    def observed(self, e, r, path):
        """Read back the image, which is the program it was made of."""
        if r["k"] != "ok":
            return e, r
        try:
            a, src = gs_args(path)
            e.update(a)
            e.update(vec.read_program(path))
            e["status"] = small(r["v"])
        except (vec.BadProgram, OSError, ValueError) as x:
            r = {"k": "exc", "v": type(x).__name__, "msg": str(x)}
        return e, r

    def export(self, i, path, dev=None, status=0, size=None, margin=None, loose=False, ran=None):
        for x in ("", ".args"):
            if os.path.exists(path + x):
                os.remove(path + x)
        e = dict(NO, devwant=self.want(dev), statuswant=status, size=BAD if size is None else vec.fix(size),
                 margin=vec.fix(margin or 0))
        if ran is None:
            if status:
                with open(path + ".status", "w") as f:
                    f.write(str(status))
            kw = {k: v for k, v in (("size", size), ("margin", margin)) if v is not None}
            how = len(self.ev) % 3
            if how == 0 and dev is not None and size is None and margin is not None:
                ran = call(self.cv[i].export, path, dev, None, margin)
            elif dev is not None and how == 1:
                ran = call(self.cv[i].export, path, device=dev, **kw)
            else:
                ran = call(self.cv[i].export, path, *([] if dev is None else [dev]), **kw)
            if status:
                os.remove(path + ".status")
        e, r = self.observed(e, ran, path)
        self.log("export", r, i=i + 1, **dict(e, **{"in": [path, dev, size, margin]}))

    def given(self, i, ps, path, dev=None, status=0):
        """An image of a program saved before."""
        r = call(self.cv[i].save, ps)
        before = open(ps, "rb").read() if r["k"] == "ok" else b""
        if status:
            with open(path + ".status", "w") as f:
                f.write(str(status))
        if r["k"] == "ok":
            r = call(self.mod.export, ps, path, *([] if dev is None else [dev]))
        if status:
            os.remove(path + ".status")
        e, r = self.observed(dict(NO, devwant=self.want(dev), statuswant=status), r, path)
        e["clean"] = os.path.exists(ps) and open(ps, "rb").read() == before
        self.log("export", r, i=i + 1, **dict(e, **{"in": [ps, path, dev]}))

    def animate(self, frames, gif, delay=None, dev=None, margin=None, status=0):
        e = dict(NO, devwant=self.want(dev), statuswant=status, frames=[i + 1 for i in frames], progs=[],
                 delaywant=str(10 if delay is None else delay))
        if status:
            with open(gif + ".status", "w") as f:
                f.write(str(status))
        args, kw = [], {}
        if delay is not None or dev is not None:
            args = [10 if delay is None else delay] + ([] if dev is None else [dev])
            if len(self.ev) % 2 and dev is None:
                args, kw = [], {"delay": delay}
        if margin is not None:
            kw["margin"] = margin
        r = call(self.mod.animation, gif, [self.cv[i] for i in frames], *args, secs=60, **kw)
        if status:
            os.remove(gif + ".status")
        vec.LOOSE[0] = True
        try:
            if r["k"] == "ok":
                try:
                    e["status"] = small(r["v"])
                    with open(gif + ".args") as f:
                        a = f.read().split("\n")[:-1]
                    for k, opt in (("delay", "-delay"), ("loop", "-loop")):
                        e[k] = a[a.index(opt) + 1] if a.count(opt) == 1 else "?"
                    with open(gif, encoding="latin-1", newline="") as f:
                        parts = f.read().split("\n%%%%FRAME ")[1:]
                    e["flags"], e["clean"], e["dev"] = True, True, e["devwant"]
                    for p in parts:
                        name, text = p.split("\n", 1)
                        name = name.encode("latin-1").decode("utf-8")
                        e["clean"] = e["clean"] and not os.path.lexists(name)
                        t = os.path.join(self.folder, "frame.ps")
                        with open(t, "w", encoding="latin-1", newline="") as f:
                            f.write(text)
                        e["progs"].append(dict(vec.EV, **dict(vec.read_program(t), op="save", margin=vec.fix(margin or 0))))
                except (vec.BadProgram, OSError, ValueError) as x:
                    r = {"k": "exc", "v": type(x).__name__, "msg": str(x)}
        finally:
            vec.LOOSE[0] = False
        self.log("animate", r, **dict(e, **{"in": [gif, delay, dev, margin]}))


def film(mod, folder, rnd):
    """Canvases whose union box is known beforehand."""
    s = Images(mod, folder)
    n = rnd.choice((1, 2, 3, 3, 5, 11))
    w, h = rnd.choice((40, 25, 80, 60, 5 / 2 * 8)), rnd.choice((40, 30, 75, 20))
    x0, y0 = rnd.randint(-60, 20), rnd.randint(-60, 20)
    x0, y0 = (x0 or 1), (y0 or 1)
    num = lambda a, b: a + rnd.randint(4 * 8, (b - 4) * 8) / 8
    pt = lambda: (x0 + num(0, int(w)), y0 + num(0, int(h)))
    thin = rnd.random() < 0.15              # everything on one vertical line
    if thin:
        w, pt = 0, lambda: (x0, y0 + num(0, int(h)))
    some = lambda: rnd.choice((rnd.choice(vec.GRAYS), rnd.choice(vec.COLORS)))
    maybe = lambda: some() if rnd.random() < 0.6 else None
    first, last = rnd.randrange(n), rnd.randrange(n)
    for i in range(n):
        s.new(rnd.choice((None, None, some())))
        if i == first:
            s.shape(i, "polyline", [(x0, y0), pt()], stroke=some())
        if i == last:
            s.shape(i, "polygon", [pt(), (x0 + w, y0 + h), pt()], fill=some())
        for _ in range(rnd.randint(0, 3)):
            op = rnd.choice(("polyline" if thin else "circle", "polyline", "polygon", "ink", "width", "text", "text"))
            if op == "ink":
                s.ink(i, some())
            elif op == "width":
                s.width(i, rnd.choice((0, 1, 2, 0.5)))
            elif op == "text":
                s.text(i, pt(), "".join(rnd.choice(vec.CHARS) for _ in range(rnd.randint(1, 5))), 8)
            elif op == "circle":
                s.shape(i, op, center=pt(), r=rnd.choice((1, 2, 4)), fill=maybe(), stroke=maybe())
            else:
                s.shape(i, op, [pt() for _ in range(3)], fill=maybe() if op == "polygon" else None, stroke=maybe())
    return s, n


PATIENCE = [8.0]


def at_once(chk, mod, folder, hist):
    """Run exports in threads, step by step in this order."""
    rnd = chk.rnd
    n = max(hist)
    s = Images(mod, folder)
    paths, devs = [], []
    for p in range(n):
        s.new(rnd.choice((None, 0.5)))
        s.shape(p, "polygon", [(p, 1), (8, p + 2), (3, 9)], fill=(0.25, 0, 1), stroke=0)
        paths.append(os.path.join(folder, "out%d.png" % (p + 1)))
        devs.append(DEVICES[p + 1])
    marks = [x + y for x in paths for y in ("", ".ctl", ".up", ".go1", ".read", ".go2", ".args")]

    def clear():
        for m in marks:
            if os.path.exists(m):
                os.remove(m)
    clear()
    results = [None] * n

    def run(p):
        try:
            results[p] = {"k": "ok", "v": s.cv[p].export(paths[p], devs[p])}
        except Exception as x:
            results[p] = {"k": "exc", "v": type(x).__name__, "msg": str(x)}

    def wait(path, p):
        end = time.monotonic() + PATIENCE[0]
        while not os.path.exists(path):
            if results[p] is not None:
                return
            if time.monotonic() > end:      # perhaps exports take turns: do not wait as long again
                PATIENCE[0] = max(0.1, PATIENCE[0] / 4)
                return
            time.sleep(0.0005)
    threads = [threading.Thread(target=run, args=(p,), daemon=True) for p in range(n)]
    step = [0] * n
    images = [None] * n
    for p in (k - 1 for k in hist):
        step[p] += 1
        if step[p] == 1:
            open(paths[p] + ".ctl", "w").close()
            threads[p].start()
            wait(paths[p] + ".up", p)
        elif step[p] == 2:
            open(paths[p] + ".go1", "w").close()
            wait(paths[p] + ".read", p)
        else:
            open(paths[p] + ".go2", "w").close()
            threads[p].join(90)
            if results[p] is None:
                results[p] = {"k": "hang", "v": "no end"}
    for p in range(n):
        keep = paths[p] + ".kept"
        for x in ("", ".args"):
            if os.path.exists(paths[p] + x):
                shutil.copy(paths[p] + x, keep + x)
        r = results[p]
        e, r = s.observed(dict(NO, devwant=devs[p]), r, keep)
        s.log("export", r, i=p + 1, **dict(e, **{"in": ["at once", hist]}))
        for x in ("", ".args"):
            if os.path.exists(keep + x):
                os.remove(keep + x)
    clear()
    return s.ev, all(r["k"] == "ok" for r in results)


def run(chk):
    rnd = chk.rnd
    folder = chk.path("img")
    tools = chk.path("bin")
    for d in (folder, tools):
        os.mkdir(d)
    for name, text in (("gs", GS), ("convert", CONVERT)):
        with open(os.path.join(tools, name), "w") as f:
            f.write(text)
        os.chmod(os.path.join(tools, name), 0o755)
    os.environ["PATH"] = tools + os.pathsep + os.environ.get("PATH", "/bin:/usr/bin")
    with contextlib.redirect_stderr(open(os.devnull, "w")):      # where the progress meter will go
        mod = coral("vector")
    ses = []
    cfg = "SPECIFICATION Spec\nCONSTANTS N=%d Rounds=%d Own=TRUE\nINVARIANTS OwnImage NothingLeft %s\nCHECK_DEADLOCK FALSE\n"
    chk.model_check("MC_Export", cfg % (3, chk.pick(1, 2), ""))
    hists = chk.export("MC_Export", cfg % (2, 1, "Export"))
    three = chk.export("MC_Export", cfg % (3, 1, "Export"))
    rnd.shuffle(three)
    bad = 0
    for h in hists + three[:chk.pick(25, 1680)]:
        e, ok = at_once(chk, mod, folder, h)
        ses.append(e)
        chk.replayed += 1
        bad += not ok
        if bad >= 3:
            break
    for k in range(chk.pick(60, 1500)):
        base = vec.random_session(mod, folder, rnd, rnd.choice((1, 3, 6)), sized=rnd.random() < 0.3, cls=Images)
        s = base
        for _ in range(rnd.choice((1, 2))):
            i = rnd.randrange(len(s.cv))
            path = os.path.join(folder, rnd.choice(NAMES) if rnd.random() < 0.6 else "x.png")
            dev = rnd.choice(DEVICES)
            status = rnd.choice((0, 0, 0, 1, 3))
            if s.is_sized and rnd.random() < 0.7:
                m = rnd.choice((None, 0, 8))
                s.export(i, path, dev, status, rnd.choice((32, 64, 100)) + (m or 0), m)
            elif rnd.random() < 0.7:
                s.export(i, path, dev, status, None, rnd.choice((None, 0, 1, 2.5)))
            else:
                s.given(i, os.path.join(folder, rnd.choice(NAMES) + ".ps"), path, dev, status)
        ses.append(s.ev)
    for k in range(chk.pick(25, 400)):
        s, n = film(mod, folder, rnd)
        frames = list(range(n))
        rnd.shuffle(frames)
        if rnd.random() < 0.2:          # a canvas shown twice
            frames.append(rnd.choice(frames))
        gif = os.path.join(folder, (rnd.choice(NAMES) if rnd.random() < 0.6 else "x.png")[:-4] + ".gif")
        s.animate(frames, gif, rnd.choice((None, 0, 5, 100, 2.5, "1x30")), rnd.choice((None, "png16")), rnd.choice((None, 0, 2, 2.5)),
                  rnd.choice((0, 0, 1, 3)))
        ses.append(s.ev)
    ses = [[dict(vec.EV, **e) for e in x] for x in ses]
    chk.judge("T_Vector", ses, env={"VT_PROP": "c35"})
    shutil.rmtree(folder)
