#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P08")
b = c.build_all(configs_arg(), "patch", ["suite_patch.c"], defines=["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"], lirdefs=["-include", VERIF + "/engine/rec_flush.h"])
c.add(c.explore("patch", b), "patch")
c.finish()
