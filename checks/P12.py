#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P12")
inc = ["-include", VERIF + "/engine/rec_sys.h"]
cfgs = [x for x in configs_arg() if not x.endswith("_min")]
for name, d, cf in (("exec", [], cfgs), ("exec_prot", ["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"], cfgs), ("exec_wx", ["-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"], cfgs)):
    b = c.build_all(cf, name, ["suite_exec.c"], defines=d, lirdefs=inc)
    c.add(c.explore(name, b), name)
c.finish()
