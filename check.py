#!/usr/bin/env python3
"""check.py <property>            run the check (tier and seed from the environment)
   check.py replay <file>         run the one case named in a replay file
   check.py setup                 verify the toolchain and build the common variants"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS


def main():
    arg = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    text = os.environ.get("VERIF_SEED", "").strip() or "1"
    try:
        seed = abs(int(text)) % (1 << 62)
    except ValueError:
        seed = int.from_bytes(text.encode()[:7], "big")
    if arg == "setup":
        try:
            for v in ("plain", "asan"):
                vlib.build(v, ["C01"])
        except vlib.HarnessError as e:
            print(e)
            return 2
        return 0
    if arg == "replay":
        r = json.load(open(sys.argv[2]))
        return vlib.main_check(r["property"], SPECS[r["property"]], r["tier"], r["seed"], r["case"], r["stage"])
    return vlib.main_check(arg, SPECS[arg], tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
