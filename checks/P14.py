#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P14")
inc = ["-include", VERIF + "/engine/rec_stack.h"]
cfgs = [x for x in configs_arg() if x in ("x86_64", "x86_32", "aarch64", "s390x", "ppc32")]
for name, d in (("stack", []), ("stack_64k", ["-DVPAGE=65536ul"]), ("stack_simple", ["-DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1"])):
    b = c.build_all(cfgs, name, ["suite_stack.c"], defines=d, lirdefs=inc)
    c.add(c.explore(name, b), name)
c.finish()
