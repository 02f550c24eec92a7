#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P04")
b = c.build_all(configs_arg(), "mem", ["suite_mem.c"])
c.add(c.explore("mem", b), "mem")
c.finish()
