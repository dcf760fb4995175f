#!/usr/bin/env python3
"""Writes known_findings.json.  Fixed entries suppress nothing."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C04", "39b095f", "composite quadrature weights dropped the starting weight of every later segment (LGL, CGL), so the running cost of multi-segment grids was wrong (also C07)"),
    ("C12", "b8bf5c7", "the initial guess of several controls was ordered node by node instead of control by control"),
    ("C27", "5f0ed98", "the h-adaptive solve wrote into the caller's (and its own default) option dictionaries and passed ipopt options to other solvers (also C21, C25)"),
    ("C20", "59cdc5a", "equal-area segment widths did not sum to one when round-off hid the last boundary"),
    ("C19", "e256057", "the terminal node of a residual grid got lost when the widths do not sum exactly to one"),
    ("C19", "06790ca", "the fixed residual grid contained the end node of the phase"),
    ("C16", "eb95a64", "dynamics residuals of all phases used the grid type of the first phase"),
    ("C18", "b501d20", "the grid type argument of the second derivatives was ignored"),
    ("C14", "b7df3cb", "parameters with several entries were unscaled by broadcasting (wrong shape, wrong scale)"),
    ("C28", "42287ff", "plot_phase returned nothing"),
    ("C29", "99528bf", "state residuals were lost when the dynamics residuals were switched off (also C28)"),
    ("C28", "66de063", "plotting residuals failed for segments with different numbers of nodes and ignored the phases asked for"),
    ("C17", "2178fa9", "state residuals of segments without points had no times, which broke plotting them (also C28)"),
    ("C16", "a2a625a", "relative residuals asserted that residuals are smaller than their reference and divided by zero (also C17)"),
    ("C11", "679c1c0", "the control slope bound limited the derivative in the normalized segment coordinate of the scaled control, not the time derivative"),
    ("C11", "1fcca7b", "slope continuity equated derivatives in the normalized segment coordinate, wrong for unequal segment widths"),
    ("C30", "d3d0a9d", "the ph-adaptive refinement failed (undefined grid type, widths not passed to the solver)"),
    ("C10", "b2e35ee", "several phases with an empty list of phase links could not be transcribed"),
    ("C11", "7ef8b92", "one segment of degree one with several controls (or mid-point states, residuals of adaptive widths) could not be transcribed (also C22)"),
    ("C17", "5d79235", "with the symbolic engine, state residuals at the start of a segment raised (empty integration interval)"),
    ("C25", "58bac8e", "the h-adaptive solve raised on an initial guess given by the documented key x0 (or by multipliers only)"),
    ("C25", "bf31970", "the h-adaptive solve returned an initial guess with small dynamics residuals as the solution, without solving"),
    ("C28", "37ee9e0", "plotting phases with residuals failed for segments with different numbers of residual nodes and showed the residuals of phases that were not asked for (also C27)"),
    ("C28", "024c8c5", "plotting more than fifteen states or controls raised"),
    ("C28", "8f7599f", "plotting second derivatives (or residuals) of segments without points next to others raised"),
    ("C17", "a3d030d", "with the symbolic engine, state residuals at a point that equals the segment start up to roundoff raised"),
    ("C28", "9029d1f", "plotting on an array of given axes without their figure raised"),
    ("C31", "b9d7bec", "fractional slope bounds of controls, assigned to the (integer) default arrays, were truncated"),
    ("C18", "2bc84ac", "relative second derivatives were divided by the largest signed value: negative ones changed sign, zero ones gave nan"),
]
OPEN = []
extra = os.path.join(HERE, "tools", "open_findings.json")
if os.path.exists(extra):
    OPEN = json.load(open(extra))
out = [dict(status="fixed", property=p, commit=c, what=w, text=f"fixed: property={p} {c} {w}")
       for p, c, w in FIXED] + OPEN
for p, c, w in FIXED:
    subprocess.check_call(["git", "-C", "/repo", "cat-file", "-e", c])
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
print(len(out))
