#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P01")
b = c.build_all(configs_arg(["armt2_ve", "s390x_zEC12", "mips64el_iii"]), "int", ["suite_int.c"])
c.add(c.explore("int", b), "int")
c.finish()
