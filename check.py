#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]   (see DESIGN.md)"""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.path.insert(0, os.path.join(here, "checks"))
sys.dont_write_bytecode = True
import vc
sys.exit(vc.main(importlib.import_module(sys.argv[1].lower())))
