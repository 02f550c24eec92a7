#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P19")
inc = ["-include", VERIF + "/engine/rec_sys.h"]
cfgs = [x for x in configs_arg() if not x.endswith("_min")]
for name, d in (("wx", ["-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"]), ("wxprot", ["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"])):
    b = c.build_all(cfgs, name, ["suite_wx.c"], defines=d, lirdefs=inc)
    c.add(c.explore(name, b), name)
c.finish()
