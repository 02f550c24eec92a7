#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
MC = "explicit-state exploration of program space against a reference model; every model trace replayed on code generated by the real compiler"
T = {
 "P01": (MC, "model_checking", "Every enumerated program (operation x operand form x aliasing x immediate class x value) is compiled by the real backend and run; the whole machine state is compared with an explicit reference model. 15 targets; foreign targets run under qemu-user, whose instruction semantics are trusted. Bounded by the enumerated operand and value classes."),
 "P02": (MC, "model_checking", "Every producer x requested flags x neutral instruction x consumer path up to the stated depth is explored on the model and replayed on generated code for 15 targets. Trusts qemu-user and the reference model of the documented flag semantics."),
 "P03": (MC, "model_checking", "All instruction sequences of the stated depth over the stated alphabet and frame set-ups, full state compared with the model after each. Trusts qemu-user."),
 "P04": (MC, "model_checking", "All load and store kinds x addressing forms x offsets around encoding limits x frame sizes against the memory model."),
 "P05": (MC, "model_checking", "All float operations x operand forms x special values against host IEEE semantics; NaN payloads of arithmetic are not compared."),
 "P06": (MC, "model_checking", "All signatures up to the bound x register sets x call kinds; every argument, result, preserved register and the stack pointer are checked by an observing callee."),
 "P07": (MC, "model_checking", "All control transfer kinds x distances around encoding limits x position x memory layouts."),
 "P08": (MC, "model_checking", "All patch histories up to the stated depth over rewritable jumps and constants against a model of the current target/value."),
 "P09": (MC, "model_checking", "Every code buffer size and diagnostic setting of each program of the corpus; determinism by byte comparison."),
 "P10": (MC, "model_checking", "Every cut point of every program of the corpus: serialize, deserialize, continue; resulting code and behaviour compared with the uninterrupted compiler."),
 "P11": ("exhaustive fault enumeration: every single allocation of each history made to fail (and all later ones)", "fault_enumeration", "Each allocation and executable allocation of each history is failed in turn under AddressSanitizer and a leak count."),
 "P12": ("explicit-state BFS over allocator operation histories, each replayed on the real allocators", "model_checking", "All alloc/free/shrink histories to the stated depth, checked against a model of disjoint live blocks."),
 "P13": ("stateless exploration of all thread interleavings of lock operations under a controlled scheduler, on the real code", "model_checking", "Every instrumented memory access of the library is a scheduling point (tsan callbacks); all schedules of two threads up to the preemption bound, three allocators."),
 "P14": ("explicit-state BFS over stack histories, each replayed on the real utility stack", "model_checking", "All allocate/resize/free histories to the stated depth against a model of top, bounds and contents."),
 "P15": ("exhaustive interleaving of atomic load/store pairs with interfering writes on generated code", "model_checking", "Another agent writes at every instruction boundary of every atomic pair (planted traps), all widths, modes and register assignments, every target that supports them."),
 "P16": ("bounded-exhaustive enumeration of vector requests, each executed on the real code generator, against an explicit reference model of lanes", "model_checking", "All SIMD operation kinds x register and element types x lanes x vector register choices x operand forms (incl. page start/end) x data patterns on ten vector-capable targets, with test-request agreement."),
 "P17": ("exhaustive enumeration of API call histories with each argument legal or illegal, against a protocol model", "model_checking", "Every call of every history is checked for acceptance/rejection and error stickiness in an ARGUMENT_CHECKS build."),
 "P18": ("bounded-exhaustive enumeration of patterns and inputs against an explicit reference matcher", "model_checking", "All patterns up to the stated size over the stated grammar x all inputs up to the stated length."),
 "P19": ("exploration of all compile histories with every mapping operation observed", "model_checking", "Every mmap/mprotect/pthread_jit_write_protect transition is observed; no page may be writable and executable at once and code must be executable when returned."),
"P20": ("enumeration of all register pairs, feature codes and comparison types on the running code", "model_checking", "Exhaustive over pairs of registers of each class with caller supplied machine instructions, compared with a reference machine; features against the processor and against acceptance of operations."),
}
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
checks, na = [], []
for i in ids:
    if os.path.exists(f"{V}/checks/{i}.py"):
        t, lv, n = T[i]
        checks.append({"property": i, "quick_cmd": f"python3 checks/{i}.py", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{i}.py", "technique": t, "level": lv, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "mkdir -p .build evidence", "checks": checks, "not_applicable": na,
  "notes": "All checks compile /repo/sljit_src from the working tree; no hooks are needed in /repo."}, open(V + "/MANIFEST.json", "w"), indent=1)
