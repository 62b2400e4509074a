"""C27: name similarity, abbreviations, accents."""
import math
import unicodedata
from vt.core import call, coral
from .words import POOL, codes, pair, plain, word

ONE = 1 << 28
MARKS = {"\u0301", "\u0300", "\u0303", "\u0302", "\u0308"}


def bounds(r):
    if r["k"] != "ok":
        return plain(r)
    v = r["v"] * ONE
    if not (abs(v) < 7 * ONE):
        return {"k": "exc", "v": repr(r["v"])}
    return {"k": "ok", "v": [math.floor(v), math.ceil(v)]}


def sim(nm, a, b):
    return {"op": "sim", "a": codes(a), "b": codes(b),
            "j": bounds(call(nm.jaro, a, b)), "jr": bounds(call(nm.jaro, b, a)),
            "w": bounds(call(nm.jaro_winkler, a, b)), "wr": bounds(call(nm.jaro_winkler, b, a))}


def base(c):
    """The base letter of a vowel with a common mark, or of c with cedilla."""
    d = unicodedata.normalize("NFD", c)
    if len(d) == 2 and (d[0].lower() in "aeiou" and d[1] in MARKS or d[0].lower() == "c" and d[1] == "\u0327"):
        return d[0]
    return c


def strip(s):
    return "".join(map(base, s))


def without(x, extras):
    for w in extras:
        x = x.replace(" %s " % w, " ")
    return x


def abb(nm, names, n, extras=None):
    r = call(nm.abbreviations, list(names), n, *([] if extras is None else [extras]))
    norm = [without(strip(x.upper()), extras or ()) for x in names]
    e = {"op": "abb", "norm": [codes(x) for x in norm], "names": list(names), "len": n}
    if r["k"] == "ok":
        # <<how many abbreviations, the abbreviation>>
        e["res"] = {"k": "ok", "v": [[1, codes(r["v"][x])] if isinstance(r["v"].get(x), str) else [0, []] for x in names]}
    else:
        e["res"] = plain(r)
    return e


def accents(nm, s):
    r = call(nm.ascii, s)
    return {"op": "ascii", "s": s, "want": codes(strip(s)),
            "res": {"k": "ok", "v": codes(r["v"])} if r["k"] == "ok" else plain(r)}


def run(chk):
    nm = coral("names")
    rnd = chk.rnd
    ev = []
    for al, n in (("{97,98}", 4), ("{97,98,99}", chk.pick(3, 4))):
        cases = chk.export("MC_Jaro", "SPECIFICATION Spec\nCONSTANTS Alphabet=%s MaxLen=%d\n"
                           "INVARIANTS Once Normal Symmetric Export\nCHECK_DEADLOCK FALSE\n" % (al, n))
        for a, b, j, w in cases:
            a, b = "".join(map(chr, a)), "".join(map(chr, b))
            r, q = call(nm.jaro, a, b), call(nm.jaro_winkler, a, b)
            chk.replayed += 1
            # another similarity may be as good: the clauses decide
            if r["k"] != "ok" or abs(r["v"] - j[0] / j[1]) > 1e-9 or q["k"] != "ok" or abs(q["v"] - w[0] / w[1]) > 1e-9:
                ev.append(sim(nm, a, b))
    chk.notes["pairs that differ from the machine's"] = len(ev)
    names = chk.export("MC_Abbrev", "SPECIFICATION Spec\nCONSTANTS Alphabet={65,66,32} MaxLen=3 MaxNames=2 L=2\n"
                       "INVARIANTS Unique Fits Initials NeverStuck Export\nCHECK_DEADLOCK FALSE\n")
    for ns in names:
        ev.append(abb(nm, ["".join(map(chr, w)) for w in ns], 2))
        chk.replayed += 1
    for i in range(chk.pick(1500, 15000)):
        ev.append(sim(nm, *pair(rnd)))
    for i in range(chk.pick(300, 3000)):
        letters = rnd.choice(("ABC", "ABCDEFGH", "abcdéãçXYZ", "abcdefghijklmnopqr"))
        ns = []
        for j in range(rnd.choice((1, 2, 3, 5, 8))):
            if rnd.random() < 0.2:
                x = rnd.choice(POOL)
            else:
                x = rnd.choice((" ", " ", "  ")).join(word(rnd, letters, rnd.choice((1, 2, 3, 5))) for _ in range(rnd.choice((1, 1, 2, 3))))
            if rnd.random() < 0.05:
                x = " " + x + " "
            ns.append(x)
            if rnd.random() < 0.3 and x:
                ns.append(x[:2] + x[3:])
        seen, keep = set(), []
        for x in ns:
            if strip(x.upper()) not in seen and x.strip():
                seen.add(strip(x.upper()))
                keep.append(x)
        if keep:
            ev.append(abb(nm, keep, rnd.choice((1, 2, 2, 3, 3, 4, 6))))
            if rnd.random() < 0.3:
                ev.append(abb(nm, keep[:1], rnd.choice((1, 2, 3, 4))))
            # words that are not to appear in abbreviations
            full = [x.replace(" ", rnd.choice((" ", " DE ", " do "))) for x in keep if "  " not in x]
            extras = rnd.choice((("DE",), ("DO", "DE"), ["DE", "DO"], ()))
            left = {without(strip(x.upper()), extras) for x in full}
            if rnd.random() < 0.5:          # names that differ in such a word only
                full += [x.replace(" ", " DE ", 1) for x in full if " " in x and " DE " not in x][:2]
                full = list({strip(x.upper()): x for x in full}.values())
                rnd.shuffle(full)
            if full:
                ev.append(abb(nm, full, rnd.choice((2, 3, 4, 6)), extras))
    for i in range(chk.pick(150, 1500)):       # few letters, long names given before short ones
        n = rnd.choice((2, 2, 3))
        ns = list({word(rnd, rnd.choice(("AB", "ABC", "aB")), rnd.randint(max(1, n - 1), n + 3)).upper(): 0 for _ in range(rnd.randint(2, 5))})
        if rnd.random() < 0.5:
            ns.sort(key=len, reverse=True)
        ev.append(abb(nm, [x for x in ns if x], n))
    for x in ("a b", "a  b", "a  b c", "a b c d", " a", "  ab", "a    ", "é  ã", "a" + " " * 6 + "b"):
        for n in range(1, len(x) + 2):
            ev.append(abb(nm, [x], n))
            ev.append(abb(nm, [x, "b " + x], n))
    marked = "".join(unicodedata.normalize("NFC", v + m) for v in "aeiouAEIOU" for m in sorted(MARKS)) + "çÇ"
    ev.append(accents(nm, marked))
    ev.append(accents(nm, "".join(map(chr, range(32, 127)))))
    for i in range(chk.pick(60, 600)):
        ev.append(accents(nm, word(rnd, marked + "abcXYZ çñßøÿ漢'-.", rnd.choice((rnd.randint(0, 12), rnd.randint(20, 300))))))
        plain_text = word(rnd, "abc XYZ-'", rnd.randint(0, 200))     # one mark somewhere in a long text
        at = rnd.randint(0, len(plain_text))
        ev.append(accents(nm, plain_text[:at] + rnd.choice(marked) + plain_text[at:]))
    chk.judge("T_Names", [ev[i:i + 20] for i in range(0, len(ev), 20)])
