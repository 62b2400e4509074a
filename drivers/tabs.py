"""Shared by C22 and C23."""
import collections
from vt.core import call

NAMES = ["a", "b", "c", "id", "name", "pop", "x1", "total_area", "Key"]


def make(cols, rows):
    R = collections.namedtuple("Row", cols)
    return [R(*r) for r in rows]


def show(v):
    return repr(v)


def shape(cols, rows):
    return {"cols": list(cols), "rows": [[show(v) for v in r] for r in rows]}


def observe(rows, cols=None):
    """A table returned by the code (its columns are those of its rows)."""
    rows = list(rows)
    fields = {tuple(r._fields) for r in rows}
    if len(fields) > 1:
        raise ValueError("rows of different columns")
    return shape(fields.pop() if fields else cols or (), rows)


def plain(r):
    return {"k": "ok", "v": r["v"]} if r["k"] == "ok" else {"k": r["k"], "v": str(r["v"]) + " " + str(r.get("msg", ""))}
