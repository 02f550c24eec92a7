#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P15")
b = c.build_all([x for x in configs_arg(("aarch64_lse",)) if not x.endswith("_min")], "atomic", ["suite_atomic.c"])
c.add(c.explore("atomic", b), "atomic")
c.finish()
