#!/usr/bin/env python3
"""Builds the recorder once (every check rebuilds it from /repo's working tree anyway)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build())
from check import OPT
print(vlib.build(OPT, os.path.join(vlib.TARGET, "opt")))
