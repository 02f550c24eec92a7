/* P20: machine instructions inserted by the caller, the register numbers, features and comparison costs the
   library reports. Every pair of word / double / vector registers; the instruction words come from custom.h. */
#include "eng.h"
#include "common.h"
#if defined __x86_64__ || defined __i386__
#include <cpuid.h>
#define X86 1
#else
#define X86 0
#endif
#ifdef __loongarch__
#include <sys/auxv.h>
#endif
#define NV SLJIT_NUMBER_OF_VECTOR_REGISTERS

static void pairs_gp(int what)
{
	prog_t p; int i, j; u8 o[16];
	for (i = 1; i <= NR_SCR; i++) for (j = 1; j <= NR_SCR + 1; j++) {
		int d = i, s = j > NR_SCR ? ST : j;
		if (!mine()) continue;
		if (!custom_for(what, d, s, o)) {
			if (what == CU_ADD && !(IS_VIRT(d) || IS_VIRT(s))) violation(g_idx - 1, "index", "sljit_get_register_index refuses word register %d or %d", d, s);
			continue;
		}
		pnew(&p); add(&p, K_CUSTOM, 0, rg(d), rg(s), no())->type = what;
		init_slot(&p, I_REG, d, slot(&p, VS_INT)); if (s != d && s != ST) init_slot(&p, I_REG, s, slot(&p, VS_INT));
		submit(&p);
		/* in the middle of other instructions on the same registers */
		if (s == ST) continue;
		pnew(&p); add(&p, K_OP2, SLJIT_XOR, rg(s), rg(s), im(0x1234567)); add(&p, K_CUSTOM, 0, rg(d), rg(s), no())->type = what; add(&p, K_OP2, SLJIT_SUB, rg(d), rg(d), rg(s));
		init_slot(&p, I_REG, d, slot(&p, VS_SMALL)); if (s != d) init_slot(&p, I_REG, s, slot(&p, VS_SMALL));
		submit(&p);
	}
	flush_batch();
}
static void pairs_f(void)
{
	prog_t p; int i, j; u8 o[16];
	for (i = 1; i <= NF; i++) for (j = 1; j <= NF; j++) {
		if (!mine()) continue;
		if (!custom_for(CU_FADD, i, j, o)) { violation(g_idx - 1, "findex", "sljit_get_register_index refuses float register %d or %d", i, j); continue; }
		pnew(&p); add(&p, K_CUSTOM, 0, rg(i), rg(j), no())->type = CU_FADD;
		init_slot(&p, I_FREG, i, slot(&p, VS_F64)); if (i != j) init_slot(&p, I_FREG, j, slot(&p, VS_F64));
		submit(&p);
	}
	flush_batch();
}

/* vector registers: all of them are loaded, one is changed, all of them are stored */
static int rep_simd(void) { return sljit_has_cpu_feature(SLJIT_HAS_SIMD) ? 1 : 0; }
static void pairs_v(void)
{
	int i, j, k, q, pr = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) != 0; u8 o[16];
	static u8 in[64 * 16] __attribute__((aligned(64))), out[64 * 16] __attribute__((aligned(64))), want[64 * 16];
	for (i = 0; i < NV; i++) for (j = 0; j < NV; j++) {
		struct sljit_compiler *c; s32 e, n; void (*f)(u8 *, u8 *); void *code; int step = pr ? 2 : 1; u32 sz;
		if (!mine()) continue;
		if (pr && ((i | j) & 1) && (i ^ j) > 1) continue;
		sz = custom_for(CU_VXOR, SLJIT_VR(i), SLJIT_VR(j), o);
		if (!sz) {
			if (rep_simd() && custom_ins(CU_VXOR, 0, 0, o) && sljit_get_register_index(SLJIT_SIMD_REG_128, SLJIT_VR(i)) < 0)
				violation(g_idx - 1, "vindex", "sljit_get_register_index refuses vector register %d", i);
			continue;
		}
		if (!rep_simd()) continue;
		TICK();
		c = sljit_create_compiler(NULL);
		sljit_emit_enter(c, 0, SLJIT_ARGS2V(P, P), 3 | SLJIT_ENTER_FLOAT(NF) | SLJIT_ENTER_VECTOR(NV), 2, 0);
		n = SLJIT_SIMD_MEM_ALIGNED_128 | SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_128;
		for (k = 0; k < NV; k += step) sljit_emit_simd_mov(c, SLJIT_SIMD_LOAD | n, SLJIT_VR(k), SLJIT_MEM1(SLJIT_S0), k * 16);
		e = sljit_emit_op_custom(c, o, sz);
		for (k = 0; k < NV; k += step) sljit_emit_simd_mov(c, SLJIT_SIMD_STORE | n, SLJIT_VR(k), SLJIT_MEM1(SLJIT_S1), k * 16);
		sljit_emit_return_void(c);
		if (e || sljit_get_compiler_error(c)) { violation(g_idx - 1, "vemit", "custom vector instruction refused: %d", (int)sljit_get_compiler_error(c)); sljit_free_compiler(c); continue; }
		code = sljit_generate_code(c, 0, NULL); sljit_free_compiler(c);
		if (!code) { violation(g_idx - 1, "vgen", "no code"); continue; }
		for (q = 0; q < NV * 16; q++) { in[q] = (u8)(q * 37 + 11 + (q >> 4)); out[q] = 0xa5; }
		memcpy(want, in, NV * 16);
		if (pr) for (k = 1; k < NV; k += 2) memset(want + k * 16, 0xa5, 16);
		{ int d = pr ? i & ~1 : i, s = pr ? j & ~1 : j; for (q = 0; q < 16; q++) want[d * 16 + q] ^= in[s * 16 + q]; if (d == s) memset(want + d * 16, 0, 16); }
		*(void **)&f = code; f(in, out); n_states++; n_runs++; n_steps += (u64)NV;
		if (memcmp(want, out, (size_t)NV * 16)) { for (q = 0; want[q] == out[q]; q++); violation(g_idx - 1, "vector", "exclusive or of vector registers %d and %d: byte %d of register %d is %02x instead of %02x", i, j, q & 15, q >> 4, out[q], want[q]); }
		sljit_free_code(code, NULL);
	}
	for (i = 0; i < 4; i++) {
		int t = i == 0 ? SLJIT_SIMD_REG_64 : i == 1 ? SLJIT_SIMD_REG_128 : i == 2 ? SLJIT_SIMD_REG_256 : SLJIT_SIMD_REG_512;
		if (!mine()) continue;
		for (j = 0; j < NV; j++) for (k = 0; k < NV; k++) {
			s32 a = sljit_get_register_index(t, SLJIT_VR(j)), b = sljit_get_register_index(t, SLJIT_VR(k));
			n_steps++;
			if (a != -1 && (a == b) != (pr && i ? (j >> 1) == (k >> 1) : j == k)) violation(g_idx - 1, "vdistinct", "vector registers %d and %d of type %d have indices %d and %d", j, k, i, (int)a, (int)b);
		}
	}
}
/* instructions of every length (several in one call where the machine has no longer ones) */
static u32 by_length(u32 n, u32 d, u32 a, u8 *o)
{
	u8 t[16]; u32 k = custom_ins(CU_ADD, d, a, t), i;
#if X86
	for (i = 0; i < n; i++) o[i] = 0x90;
	if (n < k) return n; /* nothing but nops */
	memcpy(o + (n - k) / 2, t, k); return n | 0x100;
#elif defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
	(void)k; (void)i; (void)t;
	if (n == 2) { o[0] = 0x1a; o[1] = (u8)((d << 4) | a); return n | 0x100; } /* the low 32 bits */
	if (n == 4) { memcpy(o, t, 4); return n | 0x100; }
	if (n == 6) { o[0] = 0xc2; o[1] = (u8)((d << 4) | 8); o[2] = 0x12; o[3] = 0x34; o[4] = 0x56; o[5] = 0x78; return n | 0x200; }
	return 0;
#else
	(void)i;
	if (n == 2) { k = custom_ins(CU_ADD16, d, a, o); return k == 2 ? 2 | 0x100 : 0; }
	if (n != 4) return 0;
	memcpy(o, t, 4); return k | 0x100;
#endif
}
static void lengths(void)
{
	u32 n; int before, after;
	for (n = 1; n < 16; n++) for (before = 0; before < 4; before++) for (after = 0; after < 4; after++) {
		struct sljit_compiler *c; u8 o[16] __attribute__((aligned(16))); u32 k; s32 e = 0; int q; sw (*f)(sw, sw), x, w; void *code;
		if (!mine()) continue;
		TICK();
		k = by_length(n, (u32)sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_R0), (u32)sljit_get_register_index(SLJIT_GP_REGISTER, SLJIT_S1), o);
		if (!k) continue;
		c = sljit_create_compiler(NULL);
		sljit_emit_enter(c, 0, SLJIT_ARGS2(W, W, W), 3, 2, 0);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0);
		for (q = 0; q < before; q++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_S0, 0);
		for (q = 0; q < after; q++) { if (q) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_S0, 0); e |= sljit_emit_op_custom(c, o, k & 0xff); }
		sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
		if (e || sljit_get_compiler_error(c)) { violation(g_idx - 1, "length", "instruction of %d bytes refused: %d", (int)n, (int)sljit_get_compiler_error(c)); sljit_free_compiler(c); continue; }
		code = sljit_generate_code(c, 0, NULL); sljit_free_compiler(c);
		if (!code) { violation(g_idx - 1, "length", "no code"); continue; }
		w = 0x10305 + ((k >> 8) == 1 ? 0x20461 * after : (k >> 8) == 2 ? 0x12345678 * after : 0);
		*(void **)&f = code; x = f(0x10305, 0x20461); n_states++; n_runs++;
		if (x != w) violation(g_idx - 1, "length", "%d inserted instructions of %d bytes: result is %lx instead of %lx", after, (int)n, (long)x, (long)w);
		sljit_free_code(code, NULL);
	}
}
/* an inserted instruction and every kind of instruction which uses its result, or the other way round */
static void neighbours(void)
{
	prog_t p; int i, j, t, k, x; ins_t *q; u8 o[16];
	static const int uses[] = { SLJIT_ADD, SLJIT_SUB, SLJIT_MUL, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_SHL, SLJIT_LSHR, SLJIT_ASHR, SLJIT_ROTL, SLJIT_ROTR };
	for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) for (x = 0; x < 2; x++) for (t = 0; t < 60; t++) for (k = 0; k < 3; k++) {
		int d = R(i), s = R(j), u = R((i + 1) % 3);
		if (!mine()) continue;
		if (!custom_for(CU_ADD, d, s, o)) continue;
		pnew(&p);
		/* 0: alone, 1: after a write of its operand, 2: after a jump over it */
		if (k == 1) add(&p, K_OP2, SLJIT_ADD, rg(s), rg(s), rg(u));
		if (k == 2) { q = add(&p, K_CMP, 0, no(), rg(u), rg(s)); q->type = SLJIT_GREATER; q->skip = 1; }
		add(&p, K_CUSTOM, 0, rg(d), rg(s), no())->type = CU_ADD;
		if (t < 10) { q = add(&p, K_CMP, 0, no(), rg(d), x ? im(0) : rg(u)); q->type = SLJIT_EQUAL + t; q->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no()); }
		else if (t < 20) { q = add(&p, K_CMP, 0, no(), x ? im(1) : rg(u), rg(d)); q->type = SLJIT_EQUAL + t - 10; q->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no()); }
		else if (t < 31) { int sh = t >= 26; if (sh) add(&p, K_OP2, SLJIT_AND, rg(u), rg(u), im(WB * 8 - 1)); add(&p, K_OP2, uses[t - 20], rg(u), rg(d), sh ? im(x ? 5 : 1) : x ? im(0x7654) : rg(u)); }
		else if (t == 31) add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), rg(d), no());
		else if (t == 32) add(&p, K_OP1, SLJIT_MOV_U8, m1(ST, O_CAP(3)), rg(d), no());
		else if (t == 33) add(&p, K_OP1, SLJIT_CLZ, rg(u), rg(d), no());
		else if (t == 34) add(&p, K_OP1, SLJIT_REV, rg(d), rg(d), no());
		else if (t == 35) { q = add(&p, K_OP2Z, SLJIT_SUB, rg(d), rg(d), x ? im(1) : rg(u)); q->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no()); }
		else if (t == 36) { add(&p, K_OP2U, SLJIT_SUB | SLJIT_SET_SIG_LESS, no(), rg(d), x ? im(0) : rg(u)); q = add(&p, K_OPF, SLJIT_MOV, rg(u), no(), no()); q->type = SLJIT_SIG_LESS; }
		else if (t == 37) { add(&p, K_OP2U, SLJIT_AND | SLJIT_SET_Z, no(), rg(d), x ? im(0x40) : rg(u)); q = add(&p, K_JMPF, 0, no(), no(), no()); q->type = SLJIT_ZERO; q->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no()); }
		else if (t == 38) { add(&p, K_LABEL, 0, no(), no(), no()); add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), rg(d), no()); }
		else if (t == 39) { q = add(&p, K_JUMP, 0, no(), no(), no()); q->skip = 1; add(&p, K_OP1, SLJIT_MOV, rg(d), im(3), no()); }
		else continue;
		init_slot(&p, I_REG, d, slot(&p, VS_SMALL)); if (s != d) init_slot(&p, I_REG, s, slot(&p, VS_SMALL)); if (u != d && u != s) init_slot(&p, I_REG, u, slot(&p, VS_SMALL));
		submit(&p);
	}
	flush_batch();
	for (i = 0; i < 2; i++) for (t = SLJIT_F_EQUAL; t <= SLJIT_ORDERED_LESS_EQUAL; t++) for (x = 0; x < 3; x++) {
		if (!mine()) continue;
		pnew(&p); add(&p, K_CUSTOM, 0, rg(FR(i)), rg(FR(1)), no())->type = CU_FADD;
		if (x == 2) add(&p, K_FOP1, SLJIT_CONV_F32_FROM_F64, rg(FR(2)), rg(FR(i)), no());
		q = add(&p, K_FCMP, 0, no(), rg(FR(x ? 0 : 1)), rg(FR(x ? 1 : 0))); q->type = t; q->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no());
		init_slot(&p, I_FREG, FR(0), slot(&p, VS_F64)); init_slot(&p, I_FREG, FR(1), slot(&p, VS_F64));
		submit(&p);
	}
	flush_batch();
}
/* the machine stack pointer: at a fixed distance below the local area, whatever the frame is */
static void sp_index(void)
{
	int i, j, k; sw d0 = 0; int have = 0;
	for (i = 0; i < 7; i++) for (j = 0; j <= 3; j++) for (k = 0; k < 3; k++) {
		static const int ls[] = { 8, 16, 40, 128, 1000, 4096, 20000 };
		struct sljit_compiler *c; void (*f)(sw *); void *code; sw r[2];
		if (!mine()) continue;
		TICK();
		c = sljit_create_compiler(NULL);
		sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 3 + k, 1 + j, ls[i]);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0);
		if (emit_custom(c, CU_ADD, SLJIT_R0, SLJIT_SP)) { violation(g_idx - 1, "sp", "stack pointer has no index"); sljit_free_compiler(c); continue; }
		sljit_get_local_base(c, SLJIT_R1, 0, 0);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), 0, SLJIT_R0, 0);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), WB, SLJIT_R1, 0);
		sljit_emit_return_void(c);
		code = sljit_generate_code(c, 0, NULL); sljit_free_compiler(c);
		if (!code) { violation(g_idx - 1, "spgen", "no code"); continue; }
		*(void **)&f = code; f(r); n_states++; n_runs++;
		if (!have) { d0 = r[1] - r[0]; have = 1; }
		if (r[1] - r[0] != d0 || d0 < 0 || d0 > 512) violation(g_idx - 1, "sp", "local area starts %ld bytes above the stack pointer with local size %d, %ld bytes in another frame", (long)(r[1] - r[0]), ls[i], (long)d0);
		sljit_free_code(code, NULL);
	}
}
/* reported features: the same at any time, and what the machine says */
static int fexp(int f, s32 *v)
{
#if X86
	unsigned a, b, c, d, m = 0; unsigned long long xcr = 0; unsigned c1 = 0, b7 = 0, ce = 0, d1 = 0;
	if (__get_cpuid(1, &a, &b, &c, &d)) c1 = c, d1 = d;
	if (__get_cpuid_count(7, 0, &a, &b, &c, &d)) b7 = b;
	if (__get_cpuid(0x80000001, &a, &b, &c, &d)) ce = c;
	if (c1 & (1u << 27)) { unsigned lo, hi; __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0)); xcr = lo; }
	(void)m;
	switch (f) {
	case SLJIT_HAS_CLZ: *v = (ce >> 5) & 1 ? 1 : 2; return 1;
	case SLJIT_HAS_CTZ: *v = (b7 >> 3) & 1 ? 1 : 2; return 1;
	case SLJIT_HAS_CMOV: *v = (d1 >> 15) & 1; return 1;
	case SLJIT_HAS_AVX: *v = ((c1 >> 28) & 1) && (xcr & 6) == 6; return 1;
	case SLJIT_HAS_AVX2: *v = ((c1 >> 28) & 1) && (xcr & 6) == 6 && ((b7 >> 5) & 1); return 1;
	case SLJIT_HAS_SIMD: *v = (c1 >> 19) & 1; return 1;
	case SLJIT_HAS_VIRTUAL_REGISTERS: *v = !IS64; return 1;
	}
#endif
#ifdef __loongarch__
	if (f == SLJIT_HAS_SIMD) { *v = (getauxval(AT_HWCAP) >> 4) & 1; return 1; }
	if (f == SLJIT_HAS_LASX) { *v = (getauxval(AT_HWCAP) >> 5) & 1; return 1; }
#endif
	if (f == SLJIT_HAS_VIRTUAL_REGISTERS) { *v = 0; return 1; }
	if (f == SLJIT_HAS_FPU) { *v = 1; return 1; }
	return 0;
}
static s32 feat[320];
static s32 try_feature(int f)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); s32 r = 0, n = SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_8;
	sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 3 | SLJIT_ENTER_FLOAT(2) | SLJIT_ENTER_VECTOR(2), 1, 0);
	if (f == SLJIT_HAS_MEMORY_BARRIER) r = sljit_emit_op0(c, SLJIT_MEMORY_BARRIER);
	if (f == SLJIT_HAS_ATOMIC) r = sljit_emit_atomic_load(c, SLJIT_MOV | SLJIT_ATOMIC_TEST, SLJIT_R0, SLJIT_R1);
	if (f == SLJIT_HAS_SIMD) r = sljit_emit_simd_mov(c, n | SLJIT_SIMD_TEST | SLJIT_SIMD_LOAD, SLJIT_VR0, SLJIT_MEM1(SLJIT_S0), 0);
#if X86
	if (f == SLJIT_HAS_AVX2) r = sljit_emit_simd_replicate(c, SLJIT_SIMD_REG_256 | SLJIT_SIMD_ELEM_8 | SLJIT_SIMD_TEST, SLJIT_VR0, SLJIT_R0, 0);
#endif
	sljit_free_compiler(c);
	return r;
}
static void features(void)
{
	int f; s32 v, r;
	static const int tf[] = { SLJIT_HAS_MEMORY_BARRIER, SLJIT_HAS_ATOMIC, SLJIT_HAS_SIMD,
#if X86
		SLJIT_HAS_AVX2,
#endif
		-1 };
	for (f = -2; f < 318; f++) {
		if (!mine()) continue;
		v = sljit_has_cpu_feature(f); n_states++;
		if (v != feat[f + 2]) violation(g_idx - 1, "feature", "feature %d is reported as %d first and as %d after code was generated", f, (int)feat[f + 2], (int)v);
		if (fexp(f, &r) && r != (v > 2 ? 1 : v)) violation(g_idx - 1, "feature", "feature %d is reported as %d, the machine says %d", f, (int)v, (int)r);
	}
	for (f = 0; tf[f] >= 0; f++) {
		if (!mine()) continue;
		v = sljit_has_cpu_feature(tf[f]);
		if (!v && (tf[f] != SLJIT_HAS_MEMORY_BARRIER)) { if (tf[f] == SLJIT_HAS_ATOMIC || !sljit_has_cpu_feature(SLJIT_HAS_SIMD)) continue; } /* a broken rule, see P17 */
		r = try_feature(tf[f]); n_steps++;
		if ((v != 0) != (r == SLJIT_SUCCESS)) violation(g_idx - 1, "feature", "feature %d is reported as %d, but the operation returns %d", tf[f], (int)v, (int)r);
	}
}
/* comparison costs */
static sw fcmp_size(int type, int swap)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); struct sljit_label *l; struct sljit_jump *j; sw s, e; void *code;
	sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 3 | SLJIT_ENTER_FLOAT(3), 1, 0);
	l = sljit_emit_label(c);
	j = sljit_emit_fcmp(c, type, swap ? SLJIT_FR1 : SLJIT_FR0, 0, swap ? SLJIT_FR0 : SLJIT_FR1, 0);
	{ struct sljit_label *m = sljit_emit_label(c); sljit_emit_op0(c, SLJIT_NOP); sljit_set_label(j, sljit_emit_label(c));
	sljit_emit_return_void(c);
	code = sljit_generate_code(c, 0, NULL);
	s = (sw)sljit_get_label_addr(l); e = (sw)sljit_get_label_addr(m); }
	sljit_free_compiler(c); if (code) sljit_free_code(code, NULL);
	return e - s;
}
static void costs(void)
{
	int t, s, w; sw sz[64], mn;
	for (w = 0; w < 2; w++) for (s = 0; s < 2; s++) {
		if (!mine()) continue;
		TICK(); mn = 1 << 20;
		for (t = SLJIT_ORDERED_EQUAL; t <= SLJIT_ORDERED_LESS_EQUAL; t++) { sz[t] = fcmp_size(t | (w ? SLJIT_32 : 0), s); if (sz[t] < mn) mn = sz[t]; n_states++; }
		for (t = SLJIT_ORDERED_EQUAL; t <= SLJIT_ORDERED_LESS_EQUAL; t++) {
			s32 i = sljit_cmp_info(t);
			if (i < 0 || i > 2 || (i == 0) != (sz[t] == mn)) violation(g_idx - 1, "cost", "comparison type %d%s: cost is reported as %d, code size is %ld, shortest is %ld", t, w ? " (32 bit)" : "", (int)i, (long)sz[t], (long)mn);
		}
	}
	for (t = -3; t < 64; t++) {
		if (!mine()) continue;
		if ((t < SLJIT_UNORDERED || t > SLJIT_ORDERED_LESS_EQUAL) && sljit_cmp_info(t) != 0) violation(g_idx - 1, "cost", "cost of type %d, which is no such comparison, is %d", t, (int)sljit_cmp_info(t));
	}
}
int main(int argc, char **argv)
{
	int f;
	parse_args(argc, argv);
	for (f = -2; f < 318; f++) feat[f + 2] = sljit_has_cpu_feature(f);
	eng_init("info", 1, 0);
	common_init();
	pairs_gp(CU_ADD); pairs_gp(CU_ADD16); pairs_f();
	pairs_v(); neighbours(); lengths(); sp_index(); features(); costs();
	eng_done();
	return 0;
}
