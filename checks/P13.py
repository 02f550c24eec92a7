#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P13")
inc = ["-include", VERIF + "/engine/rec_thr.h", "-fsanitize=thread", "-O0"]
for name, d in (("threads", []), ("threads_prot", ["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"]), ("threads_wx", ["-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"])):
    b = c.build_all(["x86_64"], name, ["suite_thr.c"], defines=d, lirdefs=inc, lirsections=True)
    c.add(c.explore(name, b, shards=16), name)
c.finish()
