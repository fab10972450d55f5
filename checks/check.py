#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import structural as S
import relational as R

TABLE = {
    "P02": S.check_recursion,
    "P04": S.check_effects,
    "P05": S.check_configs,
    "P24": S.check_witnesses,
}


RELATIONAL = ["P01", "P03"] + ["P%02d" % i for i in range(6, 24)] + ["P25", "P26", "P27", "P28", "P29"]
for _p in RELATIONAL:
    TABLE[_p] = R.check(_p)


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    if "--thorough" in sys.argv:
        chk.tier = "thorough"
        R.deepen()
    import dump
    try:
        rc = TABLE[prop](chk)
    except dump.ToolError as e:
        sys.exit(build_broken(chk, e))
    sys.exit(rc)


if __name__ == "__main__":
    main()
