#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

FAMILY = {}
for i in range(1, 8):
    FAMILY["C%02d" % i] = "run_matrix"
for i in list(range(8, 19)) + [22]:
    FAMILY["C%02d" % i] = "run_net"
for i in range(19, 22):
    FAMILY["C%02d" % i] = "run_train"
for i in range(23, 27):
    FAMILY["C%02d" % i] = "run_file"
FAMILY["C31"] = "run_train"
FAMILY["C30"] = "run_dim"
FAMILY["C29"] = "run_matrix"
FAMILY["C27"] = FAMILY["C28"] = "run_reader"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    c = vlib.Check(a.pid, a.tier, a.seed)
    try:
        mod = importlib.import_module(FAMILY[a.pid])
        return mod.run(c)
    except vlib.NotCompiling:
        return c.finish("the operations of the specification are compiled against the library")
    except vlib.CheckError as e:
        print("CHECK ERROR %s: %s" % (a.pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK ERROR %s: exception in the check" % a.pid)
        return 2


if __name__ == "__main__":
    sys.exit(main())
