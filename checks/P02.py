#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P02")
b = c.build_all(configs_arg(["s390x_zEC12"]), "flags", ["suite_flags.c"])
c.add(c.explore("flags", b), "flags")
c.finish()
