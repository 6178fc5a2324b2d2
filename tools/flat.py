#!/usr/bin/env python3
"""writes spec/cst.flat: spec/cst.peg with its generics and word families written out (read by the probe)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vx import cstspec  # noqa: E402
from vx.cst import mangle  # noqa: E402
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
with open(os.path.join(S, "cst.flat"), "w") as f:
    f.write(cstspec.flat(cstspec.Spec(open(os.path.join(S, "cst.peg")).read()), ("adt", "Text", ()), mangle))
