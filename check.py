#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property on the current /repo tree."""
import glob, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from checklib import core


def suites():
    res = {}
    for f in sorted(glob.glob(os.path.join(core.VERIF, "checklib", "m_*.py"))):
        m = importlib.import_module("checklib." + os.path.basename(f)[:-3])
        for k, v in m.SUITES.items():
            res.setdefault(k, []).extend(v)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        core.build(["all"])
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ss = suites()[prop]
    only = os.environ.get("VERIF_SUITE")
    if only:
        ss = [s for s in ss if s.name in only.split(",")]
    try:
        sys.exit(core.run_property(prop, ss, tier))
    except core.CheckError as e:
        core.log("CHECK ERROR:", e)
        sys.exit(3)
