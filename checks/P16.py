#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
c = Check("P16")
b = c.build_all(os.environ["VERIF_CONFIGS"].split(",") if os.environ.get("VERIF_CONFIGS") else ["x86_64", "x86_64_sse41", "x86_64_avx", "x86_32", "x86_32_sse41", "aarch64", "armv7", "armt2", "s390x", "riscv64_ext", "riscv64_v256", "loongarch64"], "simd", ["suite_simd.c"])
c.add(c.explore("simd", b), "simd")
c.finish()
