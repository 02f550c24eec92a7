#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P11")
inc = ["-include", VERIF + "/engine/rec_sys.h"]
asan = ["-fsanitize=address", "-fno-omit-frame-pointer"]
for name, d, cfgs, ex in (("oom", [], configs_arg(), []), ("oom_prot", ["-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1"], configs_arg(), []),
                          ("oom_wx", ["-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1"], [x for x in configs_arg() if x in ("x86_64", "aarch64", "armv6", "ppc32")], []),
                          ("oom_asan", asan, [x for x in configs_arg() if x == "x86_64"], asan)):
    b = c.build_all(cfgs, name, ["suite_oom.c"], defines=d, lirdefs=inc + ["-DVERIF_ALD=1"], extra=ex)
    c.add(c.explore(name, b), name)
b = c.build_all([x for x in configs_arg() if x in ("x86_64", "x86_32", "aarch64", "s390x")], "oomre", ["suite_oomre.c", "regex_lib.c"], defines=["-I" + REPO + "/regex_src"], lirdefs=inc)
c.add(c.explore("oomre", b), "oomre")
c.finish()
