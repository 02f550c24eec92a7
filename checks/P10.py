#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P10")
inc = ["-include", VERIF + "/engine/rec_mem.h"]
rel = ["-DSLJIT_DEBUG=0", "-DSLJIT_VERBOSE=0"]
for name, d in (("ser", []), ("ser_release", rel)):
    b = c.build_all(configs_arg(), name, ["suite_ser.c"], defines=d, lirdefs=inc)
    c.add(c.explore(name, b), name)
c.finish()
