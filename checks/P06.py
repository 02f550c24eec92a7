#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P06")
b = c.build_all(configs_arg(["ppc64le_pie"]), "call", ["suite_call.c"])
c.add(c.explore("call", b), "call")
c.finish()
