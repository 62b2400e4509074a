#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
from vt.core import main
if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
