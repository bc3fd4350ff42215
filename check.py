#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py --setup | check.py --job FN P0 P1 ... (debugging)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
from jobs import PROPS

a = sys.argv[1:]
if a[0] == "--setup":
    bins = sorted({j.bin or s["bin"] for s in PROPS.values() for j in s["jobs"]})
    vlib.build(bins)
    sys.exit(0)
tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.exit(vlib.check(a[0], PROPS[a[0]], tier, seed))
