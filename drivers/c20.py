"""C20: see drivers/vec.py."""
from . import vec


def run(chk):
    vec.run(chk, "c20")
