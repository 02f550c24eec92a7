#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P03")
b = c.build_all(configs_arg(["mips64el_iii"]), "seq", ["suite_seq.c"])
c.add(c.explore("seq", b), "seq")
# targets with delay slots: every form of every instruction which writes a register, followed by a jump on this register
for name in ("int", "float", "mem", "flags"):
    b = c.build_all([x for x in configs_arg() if x in ("mips32el", "mips64el")], name + "_tail", ["suite_" + name + ".c"], defines=["-DVERIF_TAIL=1"])
    c.add(c.explore(name + "_tail", b), name + "_tail")
c.finish()
