#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P05")
b = c.build_all(configs_arg(["mips64el_iii"]), "float", ["suite_float.c"])
c.add(c.explore("float", b), "float")
c.finish()
