"""Shared by C26 and C27."""
from vt.core import call, jq, BAD

POOL = ["Brasil", "Brazil", "São Paulo", "Sao Paulo", "Rio de Janeiro", "Rio Grande do Sul", "Rio Grande do Norte",
        "Côte d'Ivoire", "Cote dIvoire", "Paraná", "Paranã", "Pará", "Para", "Piauí", "Östersund", "a", "b", "aa", "ab",
        "ba", "abab", "baba", "aaaa", "", "MARTHA", "MARHTA", "DIXON", "DICKSONX", "ca", "abc", "漢字", "字漢"]


def codes(s):
    return [ord(c) for c in s]


def plain(r):
    return {"k": r["k"], "v": r["v"]} if r["k"] == "ok" else {"k": r["k"], "v": str(r["v"])}


def whole(r):
    if r["k"] == "ok":
        return {"k": "ok", "v": r["v"] if type(r["v"]) is int else BAD}
    return plain(r)


def word(rnd, letters, n):
    return "".join(rnd.choice(letters) for _ in range(n))


def pair(rnd):
    k = rnd.random()
    letters = rnd.choice(("ab", "abc", "aAbB", "abcdefgh", "ãab ç", "ab*"))
    if k < 0.15:
        return rnd.choice(POOL), rnd.choice(POOL)
    a = word(rnd, letters, rnd.choice((0, 1, 2, 3, 4, 5, 7, 9, 12) if k < 0.9 else (14, 16, 18, 20)))
    if k < 0.35:
        return a, word(rnd, letters, rnd.choice((0, 1, 2, 3, 5, 8, 12)))
    b = list(a)
    for _ in range(rnd.randint(0, 4)):       # a few edits of the first
        i = rnd.randrange(len(b) + 1)
        what = rnd.randint(0, 4)
        if what == 0:
            b.insert(i, rnd.choice(letters))
        elif what == 1 and i < len(b):
            del b[i]
        elif what == 2 and i < len(b):
            b[i] = rnd.choice(letters)
        elif i + 1 < len(b):
            b[i], b[i + 1] = b[i + 1], b[i]
    b = "".join(b)
    if rnd.random() < 0.15:
        b = a + b
    return a, b
