"""C08: variable-length integers, in both file modules."""
import io
from vt.core import call, coral


def groups(n):
    b = bin(abs(n))[2:]
    b = b.zfill((len(b) + 6) // 7 * 7)
    return [int(b[i:i + 7], 2) for i in range(0, len(b), 7)]


def desc(form, n):
    return {"form": form, "neg": n < 0, "g": groups(n)}


def write(mod, nums, f):
    for form, n in nums:
        (mod.writevlv if form == "u" else mod.writesvlv)(f, n)
    return list(f.getvalue())


def read(mod, nums, data):
    f = io.BytesIO(data)
    out, ends = [], []
    for form, n in nums:
        out.append((form, (mod.readvlv if form == "u" else mod.readsvlv)(f)))
        ends.append(f.tell())
    return out, ends


def event(mod, nums, tail):
    w = call(lambda: write(mod, nums, io.BytesIO()))
    data = bytes(w["v"]) if w["k"] == "ok" else b""
    # whatever follows must not be touched
    r = call(lambda: read(mod, nums, data + tail))
    e = {"nums": [desc(f, n) for f, n in nums], "bytes": {"k": w["k"], "v": w["v"]}}
    if r["k"] == "ok":
        e["read"] = {"k": "ok", "v": [desc(f, n) if type(n) is int else {"form": "junk"} for f, n in r["v"][0]]}
        e["ends"] = r["v"][1]
    else:
        e["read"], e["ends"] = {"k": r["k"], "v": str(r["v"])}, []
    return e


def run(chk):
    rnd = chk.rnd
    mods = [coral("pf"), coral("rg")]
    chk.model_check("MC_Vlq", "SPECIFICATION Spec\nCONSTANTS Group=4 MaxLen=%d Vals={0,1,3,4,5,15,16,17,63,64}\n"
                    "INVARIANTS Lossless Consumed Shortest OneEnd\nCHECK_DEADLOCK FALSE\n" % chk.pick(2, 3))
    edges = chk.export("MC_Vlq", "SPECIFICATION Spec\nCONSTANTS Group=128 MaxLen=2 Vals={0,1,2,64,127,128,129,255,256,"
                       "16383,16384,16385,2097151,2097152,268435455,268435456,2147483647}\n"
                       "INVARIANTS Lossless Consumed Shortest OneEnd Export\nCHECK_DEADLOCK FALSE\n")
    for e in edges:
        nums = [tuple(x) for x in e["w"]]
        for mod in mods:
            w = call(lambda: write(mod, nums, io.BytesIO()))
            r = call(lambda: read(mod, nums, bytes(e["b"])))
            if w["k"] != "ok" or w["v"] != e["b"] or r["k"] != "ok" or r["v"][0] != nums \
                    or (nums and r["v"][1][-1] != len(e["b"])):
                chk.violation("stream", {"module": mod.__name__, "numbers": nums, "bytes": e["b"],
                                         "written": w, "read": r})
            chk.replayed += 1
    ev = []
    for i in range(chk.pick(1200, 12000)):
        nums = []
        for j in range(rnd.choice((1, 1, 2, 5, 20))):
            k = rnd.random()
            if k < 0.4:
                n = 2 ** (7 * rnd.randint(0, 12)) + rnd.choice((-1, 0, 1))
            elif k < 0.7:
                n = rnd.getrandbits(rnd.randint(1, 100))
            elif k < 0.8:
                n = rnd.getrandbits(rnd.randint(1, 10)) << (7 * rnd.randint(0, 9))
            elif k < 0.85:
                n = rnd.getrandbits(700)
            else:
                n = rnd.randint(0, 300)
            form = rnd.choice("us")
            if form == "s" and rnd.random() < 0.5:
                n = -n
            nums.append((form, n))
        ev.append(event(rnd.choice(mods), nums, bytes(rnd.getrandbits(8) for _ in range(rnd.randint(0, 3)))))
    chk.judge("T_Vlq", [ev[i:i + 20] for i in range(0, len(ev), 20)],
              cfg="SPECIFICATION JSpec\nCONSTANT Group=128\nCHECK_DEADLOCK FALSE\n")
