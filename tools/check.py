#!/usr/bin/env python3
"""check.py <property id>: decides one property (see DESIGN.md). VERIF_TIER and VERIF_SEED are honoured."""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    m = importlib.import_module(pid.lower())
    lib.main(m.run, pid, m.LEVEL)
