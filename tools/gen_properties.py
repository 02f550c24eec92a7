#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "sljit_src/"
BACK = [S + "sljitNative%s.c" % x for x in ("X86_common", "X86_64", "X86_32", "ARM_64", "ARM_32", "ARM_T2_32",
        "RISCV_common", "S390X", "LOONGARCH_64", "PPC_common", "MIPS_common")]

p("P01", "Integer operations compute the documented result",
  "For every integer move, arithmetic, logic, shift, rotate, multiply, divide, bit-count and byte-reverse operation, in word and 32 bit form, the executed code stores exactly the documented result, for every combination of operand registers (including any aliasing), immediates, memory operands and values. "
  "Results that the API leaves undefined (out-of-range plain shifts, division by zero, upper halves after 32 bit operations) are the only freedom an architecture has. "
  "The result is the same on every supported target.",
  ["programs", "inputs", "configurations"], "all operations x operand shapes and aliasing x immediates x operand values x targets",
  "The suite runs a few hand-picked operands per operation; immediate encoders, operand aliasing and scratch-register shortcuts have thousands of distinct paths per backend.",
  [S + "sljitLir.c", S + "sljitLir.h"] + BACK,
  [("emit_op / emit_single_op", "sljit_src/sljitNative*.c"), ("immediate loading: load_immediate, emit_imm", "sljit_src/sljitNative*.c"), ("shift/rotate/clz/ctz emulation", "sljit_src/sljitNative*.c")],
  observe=["destination register or memory after the generated code ran"])
p("P02", "Status flags report the result and survive until consumed",
  "When an operation is asked to set the zero flag and/or one variable flag (less, greater, signed variants, overflow, carry), every later consumer - conditional jump, flag materialisation, conditional select, carry-chain operation - sees exactly the condition of that result. "
  "Operations documented as not modifying flags may stand between producer and consumer without changing what is observed. "
  "Compare-and-jump and operate-and-compare-to-zero forms branch exactly when the equivalent producer/consumer pair does.",
  ["programs", "inputs", "configurations"], "all producers x flag requests x flag-neutral instructions in between x consumers x values x targets",
  "Tests check some flags on some values; flag emulation on targets without flags and the caching of which flags are live depend on the exact sequence.",
  [S + "sljitLir.c"] + BACK,
  [("status_flags_state / last_flags tracking", "sljit_src/sljitLir.c, sljit_src/sljitNative*.c"), ("sljit_emit_op_flags, sljit_emit_select, sljit_emit_jump", "sljit_src/sljitNative*.c")],
  state=[("status_flags_state", "which operation produced the live flags", "struct sljit_compiler")],
  observe=["value written by flag materialisation, branch taken, selected operand, carry-out of multi-word sums"])
p("P03", "An instruction sequence changes nothing but its destinations",
  "Executing any sequence of instructions leaves every declared register, float register, local and memory byte that is not a destination unchanged, and the sequence as a whole has the effect of its instructions executed one after another. "
  "This holds whatever instructions are adjacent, whichever operands alias, and whatever temporary registers, delay slots or cached values the code generator uses internally.",
  ["programs", "histories", "configurations"], "all sequences up to a depth over an alphabet of instructions covering every API entry point, on all targets",
  "Tests use fixed straight-line code and check a few registers; clobbering an unrelated register or reusing a stale cached temporary only shows for particular neighbours.",
  [S + "sljitLir.c"] + BACK,
  [("temporary registers TMP_REG*, delay slots, IT blocks, cached addresses", "sljit_src/sljitNative*.c")],
  observe=["all registers, float registers, locals and memory after the sequence"])
p("P04", "Memory operands access exactly the addressed bytes",
  "Every addressing form (absolute, base plus any offset, base plus scaled index, local area, pre/post update, register pairs, unaligned) reads or writes exactly the documented bytes with the documented width and extension, for every offset a machine word can hold. "
  "Base registers change only in update forms, and then to exactly the documented address. "
  "A form announced as unsupported emits nothing, and a form announced as supported works.",
  ["programs", "inputs", "configurations"], "all access types x addressing forms x offsets around every encoding boundary x register choices x targets",
  "Offsets have an encoding boundary per width and per backend; tests use a handful of offsets.",
  [S + "sljitLir.c"] + BACK,
  [("emit_op_mem / getput_arg / adjust_offset", "sljit_src/sljitNative*.c"), ("sljit_emit_mem, sljit_emit_mem_update, sljit_emit_fmem", "sljit_src/sljitNative*.c")],
  observe=["data area, base registers, destination register"])
p("P05", "Floating point operations are exact and conversions defined",
  "Float moves, arithmetic, negate, absolute, copy-sign, constants, bit copies and selects produce the IEEE single/double result bit for bit (any NaN counts as NaN where one is computed), and conversions between integer and float round as documented and saturate as the configuration macros announce. "
  "Every ordered and unordered comparison, as jump, flag or select, is exact for all operand pairs including NaN, infinities and signed zeros.",
  ["programs", "inputs", "configurations"], "all float operations x operand shapes x boundary values (NaN, inf, zeros, subnormals, limits) x targets",
  "Tests cover selected values; comparison emulation has an ordered and an unordered form per condition and per backend.",
  [S + "sljitLir.c"] + BACK,
  [("sljit_emit_fop1/fop2/fop2r, emit_fop1_cmp, conversions", "sljit_src/sljitNative*.c")],
  observe=["float registers and memory, integer results, branches"])
p("P06", "Calls, entries and returns keep the calling convention",
  "For every signature of up to four word, 32 bit, pointer, single and double arguments, every split of scratch and saved registers and every local size, an entered function sees its arguments in the documented registers, has its whole local area to itself, returns the documented value, and restores the caller's saved registers and stack. "
  "Calls to C functions and to generated functions - direct, indirect, register-argument, tail and nested - deliver arguments and results unchanged and preserve saved registers.",
  ["programs", "configurations"], "all signatures x register-set splits x local sizes x call kinds x targets",
  "The signature, register-set and local-size space is combinatorial; tests take some tens of points.",
  [S + "sljitLir.c"] + BACK,
  [("sljit_emit_enter, emit_stack_frame_release, call_with_args, softfloat_call_with_args", "sljit_src/sljitNative*.c")],
  observe=["values seen by callee and caller, machine saved registers around the call"])
p("P07", "Control transfers reach their target at any distance",
  "Every jump, conditional jump, fast call, call and address load bound to a label, absolute target or register continues at exactly that point, for every distance between site and target, forwards and backwards, whatever shortening or lengthening of branches the code generator performs. "
  "Aligned labels have the requested alignment, and attached read-only buffers are disjoint, writable through the documented interface and readable by the code.",
  ["programs", "configurations"], "all small control-flow graphs, and all jump kinds x distances around each encoding limit x targets",
  "Branch relaxation changes code at byte-exact distances that no fixed test hits on each backend.",
  [S + "sljitLir.c"] + BACK,
  [("detect_near_jump_type / reduce_code_size / generate_jump_code", "sljit_src/sljitNative*.c"), ("label sorting and extended labels", "sljit_src/sljitLir.c")],
  observe=["trace of basic blocks executed; addresses loaded"])
p("P08", "Patched jumps and constants take effect completely",
  "After any sequence of run-time changes to rewritable jumps and constants, each executed site uses exactly the last target or value it was given, for every representable value, and no other code changes. "
  "Sites never patched keep their initial target or value.",
  ["histories", "inputs", "configurations"], "all update sequences up to a depth over boundary constants and targets, for each constant kind, jump kind and destination form, on all targets",
  "Tests patch once or twice with one value; encodings split constants over several instructions or a constant pool.",
  [S + "sljitLir.c"] + BACK,
  [("sljit_set_jump_addr, sljit_set_const", "sljit_src/sljitNative*.c")],
  observe=["value loaded / block reached after each patch"])
p("P09", "Generated code is deterministic, correctly sized and self-contained",
  "Compiling the same instruction stream produces the same code wherever it is done, independently of verbose output, of earlier compilations and of leftover memory contents, and the code behaves the same in allocator memory, in a caller supplied buffer and with separate writable and executable mappings. "
  "The reported size is the size of the code: all of it lies within the reported range, whose instruction cache lines are flushed before it can run. A caller supplied buffer is either refused (allocation error) without being touched, or holds all of the code with nothing written outside of it; a buffer smaller than the code is always refused, and a bigger one is never refused when a smaller one is accepted. Diagnostics go to the stream given by the caller and nowhere else.",
  ["programs", "configurations"], "all programs of an enumerated set x generation options x buffer sizes around the exact size x memory fill patterns x targets",
  "Tests look at one buffer and one size; uninitialised or diagnostics-dependent state is invisible to them.",
  [S + "sljitLir.c"] + BACK,
  [("sljit_generate_code, allocate_executable_memory", "sljit_src/sljitLir.c, sljit_src/sljitNative*.c")],
  observe=["bytes of the generated code and guard zones"])
p("P10", "Serialization is transparent at every point of a compilation",
  "If a compilation is serialized at any point, restored in a fresh compiler and continued, the final code is the same code the uninterrupted compilation produces, and labels, jumps and constants keep their order, targets and meaning; serializing does not disturb the original compiler. "
  "A truncated buffer is refused rather than misread.",
  ["histories", "crash_points", "programs", "configurations"], "all cut points (and pairs of cut points) of all programs in an enumerated set x targets",
  "Tests serialize a few programs at a fixed place; state kept by the compiler at the cut point differs per instruction.",
  [S + "sljitSerialize.c", S + "sljitLir.c"],
  [("sljit_serialize_compiler / sljit_deserialize_compiler", "sljit_src/sljitSerialize.c")],
  observe=["bytes of the generated code, label/jump/const lists, execution results"])
p("P11", "Running out of memory is reported and never corrupts anything",
  "If any single memory request, or all requests from some point on, made while creating a compiler, emitting, serializing, restoring or generating code is denied, the library reports the documented error, stays in the error state for all later calls, and crashes, leaks or writes out of bounds nothing. "
  "A denied executable allocation is reported as such, and the compiler and everything it owns can still be freed. Every request and release reaches the caller's allocators with the caller's data.",
  ["fault_sequences", "programs", "configurations"], "all failing allocation indexes (single and persistent, normal and executable) over scenarios reaching every allocation site",
  "The tests never make an allocation fail.",
  [S + "sljitLir.c", S + "sljitSerialize.c", S + "sljitUtils.c", "regex_src/regexJIT.c"],
  [("ensure_buf / ensure_abuf / FAIL_IF / PTR_FAIL_WITH_EXEC_IF", "sljit_src/sljitLir.c")],
  observe=["return values, compiler error code, allocation balance"])
p("P12", "Executable blocks stay disjoint, intact and reusable",
  "For any history of executable allocations, frees and trims, live blocks are aligned, large enough, pairwise disjoint and keep their contents and access rights, freed space becomes reusable, and when everything is freed and trimmed no executable memory remains. "
  "This holds for every executable allocator the library provides.",
  ["histories", "configurations", "fault_sequences"], "all operation histories up to a depth over size classes around the allocator's granularity, for each allocator, with mapping failures",
  "Tests allocate and free a few blocks in one fixed order.",
  [S + "allocator_src/sljitExecAllocatorCore.c", S + "allocator_src/sljitExecAllocatorPosix.c", S + "allocator_src/sljitProtExecAllocatorPosix.c", S + "allocator_src/sljitWXExecAllocatorPosix.c"],
  [("sljit_malloc_exec / sljit_free_exec / sljit_free_unused_memory_exec, block headers, free list", "sljit_src/allocator_src/sljitExecAllocatorCore.c")],
  state=[("free_blocks, allocated_size, total_size", "free list and accounting", "sljitExecAllocatorCore.c")],
  observe=["addresses, contents, mappings"])
p("P13", "Concurrent use of separate compilers is safe",
  "Threads that compile, run, free and trim code concurrently, each with its own compiler, behave in every interleaving as if the calls on shared library state were made one at a time: no block is handed out twice, lost or corrupted, no call deadlocks, and each thread's code computes its own result.",
  ["schedules"], "all interleavings up to a preemption bound of small multi-threaded drivers over the shared allocator and lazily initialised state",
  "Tests are single threaded.",
  [S + "allocator_src/sljitExecAllocatorCore.c", S + "sljitUtils.c", S + "allocator_src/sljitWXExecAllocatorPosix.c", S + "allocator_src/sljitProtExecAllocatorPosix.c", S + "sljitLir.c"],
  [("SLJIT_ALLOCATOR_LOCK, allocator_lock, se_lock", "sljit_src/sljitUtils.c, sljit_src/allocator_src")],
  observe=["allocation histories, code results, lock state"])
p("P14", "The utility stack keeps its contents and bounds",
  "For any sequence of allocations, resizes and frees of utility stacks, the usable region is exactly the one reported, resizes within the reserved range succeed and keep the retained contents and addresses, and resizes outside it are refused without changing anything.",
  ["histories", "fault_sequences", "configurations"], "all allocate/resize/free sequences up to a depth over boundary sizes, with mapping failures",
  "Tests resize one stack through one sequence.",
  [S + "sljitUtils.c"], [("sljit_allocate_stack, sljit_stack_resize, sljit_free_stack", "sljit_src/sljitUtils.c")],
  observe=["struct fields, accessibility and contents of the region"])
p("P15", "Atomic load/store pairs never lose or invent an update",
  "An atomic load followed by an atomic store to the same location stores the new value and reports success, or leaves memory unchanged and reports failure; if another agent changed the location between the two, the store never overwrites that change with success reported. "
  "This holds for each width, register choice and interference point, only the addressed bytes change, and the registers documented as preserved are preserved.",
  ["schedules", "programs", "configurations"], "all widths x register assignments x modes x interference at every instruction boundary between load and store",
  "Tests run the pair without interference.",
  [S + "sljitLir.c"] + BACK, [("sljit_emit_atomic_load, sljit_emit_atomic_store", "sljit_src/sljitNative*.c")],
  observe=["memory, success flag, registers"])
p("P16", "Vector operations act lane by lane as documented",
  "Every vector move, replicate, lane move, lane replicate, extend, sign extraction and binary operation that is announced as available produces the documented lanes for every register size, element size, lane index, operand form and alignment, and changes no other register or memory; a test-only request emits nothing and agrees with the real request.",
  ["programs", "inputs", "configurations"], "all type combinations x lanes x register choices x operand forms x data patterns x targets",
  "Tests sample some lanes and registers of the type lattice.",
  [S + "sljitLir.c"] + BACK, [("sljit_emit_simd_*", "sljit_src/sljitNative*.c")],
  observe=["vector register contents stored to memory, return codes"])
p("P17", "Invalid requests are rejected, valid ones accepted, errors stick",
  "With argument checking enabled, a call that violates the documented operand, register, type or flag rules returns the bad-argument error without emitting code, a call that follows them is accepted, and once any error is recorded every later call returns that same error and no code is generated.",
  ["programs", "inputs", "configurations"], "all API entry points x operand codes (legal and illegal) x context sizes, and all error/continue histories up to a depth",
  "Tests only make legal calls.",
  [S + "sljitLir.c"], [("CHECK macros, check_sljit_*", "sljit_src/sljitLir.c"), ("CHECK_ERROR / compiler->error", "sljit_src/sljitLir.c")],
  observe=["return codes, emitted size"])
p("P18", "The regular expression engine finds exactly the right match",
  "For every pattern and input, the bundled regular expression engine reports a match exactly when the pattern's language has one under the given anchoring and newline options, with the documented leftmost-longest (or non-greedy) position, and gives the same answer when the input is fed in any number of pieces. "
  "A match reported as finished cannot change any more, and a best match which no further input can change is reported as finished. Malformed patterns are rejected and never crash the compiler.",
  ["inputs", "histories", "configurations"], "all patterns and inputs up to a length over a small alphabet x flags x splits of the input",
  "The suite has some two hundred pattern/input pairs.",
  ["regex_src/regexJIT.c", "regex_src/regexJIT.h"], [("pattern parser, transition generation, compiled search loop", "regex_src/regexJIT.c")],
  observe=["match begin/end and result code"])
p("P19", "Write-xor-execute allocation never exposes writable code",
  "With the write-xor-execute allocator no page holding generated code is ever mapped writable and executable at once, and with the dual-mapping allocator no single mapping is both; code is executable whenever it can be called, and patching restores that state.",
  ["histories", "configurations"], "all histories of compile, patch constant/jump, write read-only buffer, run and free up to a depth",
  "Tests only check that the code runs.",
  [S + "allocator_src/sljitWXExecAllocatorPosix.c", S + "allocator_src/sljitProtExecAllocatorPosix.c", S + "sljitLir.c"],
  [("SLJIT_UPDATE_WX_FLAGS", "sljit_src/sljitLir.c, sljit_src/allocator_src")],
  observe=["every mmap/mprotect request and the resulting page rights"])
p("P20", "Inserted machine instructions and reported facts are exact",
  "A machine instruction inserted by the caller runs exactly at its place between the other instructions, and the numbers from sljit_get_register_index name the registers really used (word, float, vector, stack pointer; -1 for those without one). Reported cpu features are the machine's, never change, and agree with which operations are accepted; reported comparison costs agree with the generated code.",
  ["inputs", "configurations"], "all pairs of registers of each class, all feature codes, all comparison types",
  "Tests insert one instruction into one sequence on a few targets and only print the features.",
  [S + "sljitLir.c", S + "sljitNative*.c"],
  [("sljit_get_register_index", "sljit_src/sljitNative*.c"), ("sljit_emit_op_custom", "sljit_src/sljitNative*.c"), ("sljit_has_cpu_feature", "sljit_src/sljitNative*.c"), ("sljit_cmp_info", "sljit_src/sljitNative*.c")],
  observe=["register and memory contents after generated code containing caller supplied instructions", "return values of the query functions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
