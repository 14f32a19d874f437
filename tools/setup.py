#!/usr/bin/env python3
"""Offline sanity check of the framework: vendored hypothesis and the code under test import."""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.path.join(here, "vendor")]
sys.dont_write_bytecode = True
import hypothesis  # noqa: E402

from harness import boot, builders, gen, geo, runner  # noqa: E402,F401

os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("hypothesis", hypothesis.__version__, "- code under test", boot.pvg.__file__)
