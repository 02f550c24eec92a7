#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P09")
inc = ["-include", VERIF + "/engine/rec_mem.h"]
for name, d in (("gen", []), ("gen_dual", ["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"])):
    b = c.build_all(configs_arg(), name, ["suite_gen.c"], defines=d, lirdefs=inc)
    c.add(c.explore(name, b), name)
c.finish()
