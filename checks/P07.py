#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P07")
b = c.build_all(configs_arg(), "jump", ["suite_jump.c"], defines=["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"])
c.add(c.explore("jump", b), "jump")
c.finish()
