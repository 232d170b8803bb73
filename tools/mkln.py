#!/usr/bin/env python3
"""Regenerates spec/LnTab.tla."""
import math, os
vals = [round(math.log(m) * 10**7) for m in range(1024, 2049)]
s = "---- MODULE LnTab ----\n\\* Round(10^7 * ln(m)) for m in 1024..2048 (natural logarithm); generated by tools/mkln.py, sanity-checked by MC_Num.\nLnTab == <<\n"
for i in range(0, len(vals), 12):
    s += "  " + ", ".join(map(str, vals[i:i+12])) + (",\n" if i + 12 < len(vals) else "\n")
s += ">>\n====\n"
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "LnTab.tla"), "w").write(s)
