#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P20")
b = c.build_all(configs_arg(("x86_64_avx", "x86_64_sse41", "x86_32_sse41")), "info", ["suite_info.c"])
c.add(c.explore("info", b), "info")
c.finish()
