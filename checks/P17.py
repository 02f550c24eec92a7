#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P17")
d = ["-DSLJIT_ARGUMENT_CHECKS=1", "-DSLJIT_DEBUG=0", "-DSLJIT_VERBOSE=0"]
b = c.build_all([x for x in configs_arg() if not x.endswith("_min")], "args", ["suite_args.c"], defines=d)
c.add(c.explore("args", b), "args")
c.finish()
