#!/usr/bin/env python3
"""Builds everything once, so that checks only rebuild what changes."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import build

build.build_cxx(("fast", "san", "cov", "mem"), ("driver", "cli"))
build.build_gld(tuple(build.GLD_FLAGS))
print("built")
