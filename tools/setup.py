#!/usr/bin/env python3
"""Checks that the tools are there and builds the drivers once, so that the build cache is warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, checks
ctx = core.Ctx("setup", "quick", 1)
try:
    ctx.build()
    ctx.build("msk", mod="mskharness")
    rc, out = core.tlc(ctx, "Setup")
    if "No error has been found" not in out:
        print(out)
        sys.exit(1)
    print("ok")
finally:
    ctx.close()
