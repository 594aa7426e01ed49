#!/usr/bin/env python3
"""Warms the Go build cache, so that the first check does not pay for it. Every check works without it."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
import vc
ctx = vc.Ctx("setup", "quick", "other")
try:
    ctx.build_oh()
    for h in sorted(os.listdir(V + "/harness")):
        if os.path.exists(V + "/harness/" + h + "/main.go"):
            ctx.build_harness(h)
except vc.CannotBuild as e:
    print(e)
ctx.cleanup()
