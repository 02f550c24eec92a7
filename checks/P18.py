#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P18")
cfgs = configs_arg()
if not THOROUGH and not os.environ.get("VERIF_CONFIGS"):
    # word sizes, byte orders, signedness of char; the generated code itself is covered by P01-P09 on every target
    cfgs = ["x86_64", "x86_32", "aarch64", "armt2", "s390x", "ppc32", "riscv64"]
b = c.build_all([x for x in cfgs if not x.endswith("_min")], "regex", ["suite_regex.c", "regex_lib.c"], defines=["-I" + REPO + "/regex_src"], lirdefs=["-include", VERIF + "/engine/rec_sys.h"])
c.add(c.explore("regex", b), "regex")
c.finish()
