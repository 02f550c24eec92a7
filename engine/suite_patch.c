/* P08: run-time changes of rewritable jumps and constants. The state of a program is the current value or target of each
   of its sites; every transition (one site set to another value) of the product graph is taken, and after each one the
   program is executed and every site must report exactly its current value. Instruction cache flushes of the library are
   intercepted: changed instructions must be flushed at their executable address. */
#include <fcntl.h>
#include "eng.h"
#include "maps.h"
#if !(defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) && !(defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
#define FLUSHES 1
#else
#define FLUSHES 0
#endif
#if defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6
#define LITERALS 1
#else
#define LITERALS 0
#endif
enum { C_MOV, C_MOV32, C_S32, C_U8, C_U832, J_JUMP, J_EQ_T, J_EQ_N, J_CMP_T, J_CMP_N, J_CBZ_T, J_CBZ_N, J_CMP32, J_F_T, J_OP2Z_T, J_OP2Z_N, J_FAST, J_CALL, S_N };
static const char *sname[] = { "const.mov", "const.mov32", "const.s32", "const.u8", "const.u8.32", "jump", "eq.taken", "ne.not", "cmp.taken", "cmp.not", "cmp0.taken", "cmp0.not", "cmp32.taken", "fcmp.taken", "op2cmpz.taken", "op2cmpz.not", "fast_call", "call" };
static const s32 cop[] = { SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8 };
static int isc(int k) { return k <= C_U832; }
static int not_taken(int k) { return k == J_EQ_N || k == J_CMP_N || k == J_CBZ_N || k == J_OP2Z_N; }
enum { D_R0, D_R3, D_RL, D_S2, D_ABS, D_M1, D_SP, D_M2, D_N };
#define MAXS 400
typedef struct { u8 k, d, fl; int fill; sw cur; uw addr; struct sljit_jump *j; struct sljit_const *c; } site_t;
static site_t g_s[MAXS]; static int g_ns;
static volatile sw g_out[MAXS], g_zf[MAXS], g_tag, g_regs[8]; static volatile u8 g_mem[MAXS * 16 + 64] __attribute__((aligned(16)));
static const double g_d[2] = { 1.0, 2.0 };
static char g_txt[700], g_step[200];
#define ABSM(x) SLJIT_MEM0(), (sw)&(x)
#define PAT ((sw)0xa5c3e187d2b4968full)
static void text(void) { char *o = g_txt; int i; *o = 0; for (i = 0; i < g_ns && o - g_txt < 400; i++) o += sprintf(o, "%s/%d%s(%llx)+%d ", sname[g_s[i].k], g_s[i].d, g_s[i].fl ? "f" : "", (unsigned long long)(uw)g_s[i].cur, g_s[i].fill); sprintf(o, "off %llx ", (unsigned long long)g_execoff); g_crash_txt = g_txt; *g_step = 0; }
static void bad(const char *key, const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); violation(g_cur, key, "%s| %s | %s", g_txt, g_step, b); }

/* ---- flush recorder */
static u8 *g_code; static uw g_size; static struct { uw a, b; } g_fl[64]; static int g_nfl, g_flbad;
void verif_flush(void *from, void *to)
{
	uw a = (uw)from, b = (uw)to;
	if (g_nfl < 64) { g_fl[g_nfl].a = a; g_fl[g_nfl++].b = b; }
	if (g_execoff && b > a) {
		uw x = (uw)g_reg + (uw)g_execoff;
		if (a < x || b > x + g_regsz) { g_flbad = 1; return; }
		remap_flush(a, b - a);
	}
}
/* ---- targets */
#define NT 10
enum { T_F0, T_F1, T_B0, T_B1, T_X0 }; /* forward labels, backward labels, external stubs */
static uw g_ext[3][NT]; static int g_next; static uw g_tgt[3][NT]; static int g_nt;
static int tclass(int k) { return k == J_FAST ? 1 : k == J_CALL ? 2 : 0; }
static void ctx(struct sljit_compiler *c) { sljit_set_context(c, 0, SLJIT_ARGS1(W, W), 5 | SLJIT_ENTER_FLOAT(2), 3, 64); }
static void stub(struct sljit_compiler *c, int cl, int id)
{
	if (cl == 2) sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 2, 0, 0); else ctx(c);
	if (cl == 1) sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R2, 0);
	sljit_emit_op1(c, SLJIT_MOV, ABSM(g_tag), SLJIT_IMM, id);
	if (cl == 0) sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_S1, 0);
	else if (cl == 1) sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R2, 0);
	else sljit_emit_return_void(c);
}
static void SLJIT_FUNC cf(void) { g_tag = 101 + T_X0; }
static void make_ext(void)
{
	static const u64 at[] = { 0x30f00000u, 0x39000000u, 0x50000000u, 0x1234560000ull, 0x200000000000ull };
	int i, cl; g_next = 0;
	for (cl = 0; cl < 3; cl++) g_ext[cl][0] = 0;
	for (i = 0; i < 5; i++) {
		u8 *m; uw used = 0; struct sljit_generate_code_buffer b;
		if (WB == 4 && (at[i] >> 32)) break;
		m = map_at(at[i], 65536); if (!m) continue;
		for (cl = 0; cl < 3; cl++) {
			struct sljit_compiler *c = sljit_create_compiler(NULL); void *p; if (cl == 2) used += 64 * (uw)i;
			stub(c, cl, 101 + T_X0 + 1 + g_next); b.buffer = m + used; b.size = 4096; b.executable_offset = 0; p = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b); if (!p) die("stub"); used += (sljit_get_generated_code_size(c) + 63) & ~(uw)63; sljit_free_compiler(c);
			g_ext[cl][1 + g_next] = (uw)p;
		}
		g_next++;
	}
	g_next++; g_ext[2][0] = (uw)SLJIT_FUNC_ADDR(cf); g_ext[0][0] = g_ext[0][g_next - 1]; g_ext[1][0] = g_ext[1][g_next - 1];
	g_nt = T_X0 + g_next;
}
static sw tag_of(site_t *s) { if (tclass(s->k) != 2 && s->cur == T_X0) return 101 + g_nt - 1; return 101 + s->cur; }

/* ---- program */
static void dst_of(site_t *s, int i, s32 *t, sw *w)
{
	*w = 0;
	switch (s->d) {
	case D_R0: *t = SLJIT_R0; break; case D_R3: *t = SLJIT_R3; break; case D_RL: *t = SLJIT_R4; break; case D_S2: *t = SLJIT_S2; break;
	case D_ABS: *t = SLJIT_MEM0(); *w = (sw)(g_mem + 16 * i); break; case D_M1: *t = SLJIT_MEM1(SLJIT_S2); *w = 16 * i; break; case D_SP: *t = SLJIT_MEM1(SLJIT_SP); *w = 16; break;
	default: *t = SLJIT_MEM2(SLJIT_S2, SLJIT_R1); break; }
}
static const sw rinit[5] = { 5, 7, 0x3333, 0x44444, 0x555 };
static void emit_site(struct sljit_compiler *c, site_t *s, int i, struct sljit_label **cont, struct sljit_jump **contj)
{
	int q; s32 t; sw w; s32 rw = SLJIT_REWRITABLE_JUMP; struct sljit_jump *j = NULL;
	for (q = 0; q < 5; q++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(q), 0, SLJIT_IMM, rinit[q]);
	*contj = NULL; *cont = NULL;
	if (isc(s->k)) {
		int mem = s->d >= D_ABS, sz = s->k == C_MOV || s->k == C_S32 ? WB : s->k == C_MOV32 ? 4 : 1; (void)sz;
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_S2, 0, SLJIT_IMM, (sw)g_mem);
		if (s->d == D_M2) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 16 * i);
		if (s->d == D_SP) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 16, SLJIT_IMM, PAT);
		dst_of(s, i, &t, &w);
		if (s->fl) sljit_emit_op2u(c, SLJIT_SUB | (s->fl == 1 ? SLJIT_SET_Z : SLJIT_SET_CARRY), SLJIT_R0, 0, SLJIT_IMM, s->fl == 1 ? 5 : 6);
		s->c = sljit_emit_const(c, cop[s->k], t, w, s->cur); s->j = NULL;
		if (s->fl) sljit_emit_op_flags(c, SLJIT_MOV, ABSM(g_zf[i]), s->fl == 1 ? SLJIT_EQUAL : SLJIT_CARRY);
		if (s->d == D_SP) sljit_emit_op1(c, SLJIT_MOV, ABSM(g_out[i]), t, w);
		else if (!mem) sljit_emit_op1(c, s->k == C_MOV32 || s->k == C_U832 ? SLJIT_MOV32 : SLJIT_MOV, ABSM(g_out[i]), t, w);
	} else {
		sljit_emit_op1(c, SLJIT_MOV, ABSM(g_tag), SLJIT_IMM, 0);
		if (tclass(s->k) == 0) *contj = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_S1, 0);
		switch (s->k) {
		case J_JUMP: j = sljit_emit_jump(c, SLJIT_JUMP | rw); break;
		case J_EQ_T: case J_EQ_N: sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_IMM, 5); j = sljit_emit_jump(c, (s->k == J_EQ_T ? SLJIT_EQUAL : SLJIT_NOT_EQUAL) | rw); break;
		case J_CMP_T: j = sljit_emit_cmp(c, SLJIT_LESS | rw, SLJIT_R0, 0, SLJIT_R1, 0); break;
		case J_CMP_N: j = sljit_emit_cmp(c, SLJIT_SIG_GREATER | rw, SLJIT_R0, 0, SLJIT_R1, 0); break;
		case J_CBZ_T: j = sljit_emit_cmp(c, SLJIT_NOT_EQUAL | rw, SLJIT_R0, 0, SLJIT_IMM, 0); break;
		case J_CBZ_N: j = sljit_emit_cmp(c, SLJIT_EQUAL | rw, SLJIT_R0, 0, SLJIT_IMM, 0); break;
		case J_CMP32: sljit_emit_op1(c, SLJIT_MOV32, SLJIT_R3, 0, SLJIT_IMM, 9); j = sljit_emit_cmp(c, SLJIT_SIG_GREATER | SLJIT_32 | rw, SLJIT_R3, 0, SLJIT_IMM, 8); break;
		case J_F_T: sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR0, 0, ABSM(g_d[0])); sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR1, 0, ABSM(g_d[1])); j = sljit_emit_fcmp(c, SLJIT_F_LESS | rw, SLJIT_FR0, 0, SLJIT_FR1, 0); break;
		case J_OP2Z_T: j = sljit_emit_op2cmpz(c, SLJIT_SUB | SLJIT_JUMP_IF_ZERO | rw, SLJIT_R3, 0, SLJIT_R0, 0, SLJIT_IMM, 5); break;
		case J_OP2Z_N: j = sljit_emit_op2cmpz(c, SLJIT_SUB | SLJIT_JUMP_IF_NON_ZERO | rw, SLJIT_R3, 0, SLJIT_R0, 0, SLJIT_IMM, 5); break;
		case J_FAST: j = sljit_emit_jump(c, SLJIT_FAST_CALL | rw); break;
		case J_CALL: j = sljit_emit_call(c, SLJIT_CALL | rw, SLJIT_ARGS0V()); break;
		}
		s->j = j; s->c = NULL;
		if (tclass(s->k) == 0) *cont = sljit_emit_label(c);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, ABSM(g_tag)); sljit_emit_op1(c, SLJIT_MOV, ABSM(g_out[i]), SLJIT_R0, 0);
	}
	if (s->fill >= 0) for (q = 0; q < s->fill; q++) sljit_emit_op0(c, SLJIT_NOP);
	else for (q = 0; q < -s->fill; q++) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R3, 0, SLJIT_IMM, (sw)(0x12345671 + q * 0x10001)); sljit_emit_op2(c, SLJIT_XOR, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_R3, 0); }
}
static sw (SLJIT_FUNC *g_fn)(sw); static sw g_xorv;
static sw sx32(sw v) { return (sw)(s32)v; }
static int build(uw need)
{
	struct sljit_compiler *c; struct sljit_generate_code_buffer b; struct sljit_label *tl[3][4], *entry, *cont[MAXS]; struct sljit_jump *contj[MAXS]; int i, q, cl, use[3] = { 0, 0, 0 }; void *code;
	TICK(); text(); g_phase = "compile";
	g_pos = (g_pos + 15) & ~(uw)15; if (g_regsz - g_pos < need) g_pos = 0;
	for (i = 0; i < g_ns; i++) if (!isc(g_s[i].k)) use[tclass(g_s[i].k)] = 1;
	c = sljit_create_compiler(NULL);
	for (cl = 0; cl < 3; cl++) if (use[cl]) for (q = T_B0; q <= T_B1; q++) { ctx(c); tl[cl][q] = sljit_emit_label(c); stub(c, cl, 101 + q); }
	entry = sljit_emit_label(c);
	sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 5 | SLJIT_ENTER_FLOAT(2), 3, 64);
	g_xorv = 0;
	for (i = 0; i < g_ns; i++) { emit_site(c, &g_s[i], i, &cont[i], &contj[i]); for (q = 0; q < -g_s[i].fill; q++) g_xorv ^= (sw)(0x12345671 + q * 0x10001); }
	sljit_emit_return(c, SLJIT_MOV, SLJIT_S0, 0);
	for (cl = 0; cl < 3; cl++) if (use[cl]) for (q = T_F0; q <= T_F1; q++) { ctx(c); tl[cl][q] = sljit_emit_label(c); stub(c, cl, 101 + q); }
	for (i = 0; i < g_ns; i++) { site_t *s = &g_s[i];
		if (contj[i]) sljit_set_label(contj[i], cont[i]);
		if (s->j) { cl = tclass(s->k); if (s->cur < T_X0) sljit_set_label(s->j, tl[cl][s->cur]); else sljit_set_target(s->j, g_ext[cl][s->cur - T_X0]); } }
	if (sljit_get_compiler_error(c)) { bad("compile", "error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); return 0; }
	g_phase = "generate"; b.buffer = g_reg + g_pos; b.size = g_regsz - g_pos; b.executable_offset = g_execoff; g_nfl = g_flbad = 0;
	if (g_execoff) remap_flush((uw)g_reg + (uw)g_execoff + g_pos, need);
	code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b);
	if (!code) { bad("generate", "error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); return 0; }
	g_code = b.buffer; g_size = sljit_get_generated_code_size(c); g_pos += g_size;
	if (g_size > need) die("size");
	g_fn = (sw (SLJIT_FUNC *)(sw))sljit_get_label_addr(entry);
	for (i = 0; i < g_ns; i++) g_s[i].addr = g_s[i].j ? sljit_get_jump_addr(g_s[i].j) : sljit_get_const_addr(g_s[i].c);
	for (cl = 0; cl < 3; cl++) { if (use[cl]) for (q = 0; q < 4; q++) g_tgt[cl][q] = sljit_get_label_addr(tl[cl][q]); for (q = 0; q < g_next; q++) g_tgt[cl][T_X0 + q] = g_ext[cl][q]; }
	sljit_free_compiler(c); n_progs++;
	if (g_dump) { int fd = creat("/tmp/eng_dump.bin", 0600); if (write(fd, g_code, g_size)) {} close(fd); printf("code %p\n", code); fflush(stdout); }
	return 1;
}
static int run(void)
{
	int i, k; sw r; 
	g_phase = "run"; n_runs++; n_states++;
	for (i = 0; i < g_ns; i++) g_out[i] = PAT, g_zf[i] = 77;
	for (i = 0; i < g_ns * 16; i++) g_mem[i] = (u8)(i * 7 + 1);
	r = g_fn(0);
	if (r != g_xorv) { bad("value", "filler computed %llx instead of %llx", (unsigned long long)(uw)r, (unsigned long long)(uw)g_xorv); return 0; }
	for (i = 0; i < g_ns; i++) { site_t *s = &g_s[i]; sw e = PAT, o = g_out[i];
		if (!isc(s->k)) { e = not_taken(s->k) ? 0 : tag_of(s); }
		else { int sz = s->k == C_MOV || s->k == C_S32 ? WB : s->k == C_MOV32 ? 4 : 1; u8 im[16]; sw v = s->cur; u32 v32 = (u32)v; u8 v8 = (u8)v;
			if (s->fl && g_zf[i] != 1) { bad("flags", "site %d changed the flags", i); return 0; }
			for (k = 0; k < 16; k++) im[k] = (u8)((16 * i + k) * 7 + 1);
			if (s->d >= D_ABS && s->d != D_SP) memcpy(im, sz == WB ? (void *)&v : sz == 4 ? (void *)&v32 : (void *)&v8, (size_t)sz);
			for (k = 0; k < 16; k++) if (g_mem[16 * i + k] != im[k]) { bad("value", "site %d: memory byte %d is %02x instead of %02x", i, k, g_mem[16 * i + k], im[k]); return 0; }
			if (s->d == D_SP) memcpy(&e, sz == WB ? (void *)&v : sz == 4 ? (void *)&v32 : (void *)&v8, (size_t)sz);
			else if (s->d < D_ABS) { if (s->k == C_MOV32 || s->k == C_U832) { e = PAT; memcpy(&e, &v32, 4); } else e = v; } }
		if (o != e) { bad(isc(s->k) ? "value" : "target", "site %d reports %llx instead of %llx", i, (unsigned long long)(uw)o, (unsigned long long)(uw)e); return 0; } }
	return 1;
}
static u8 g_before[1 << 20] __attribute__((aligned(16)));
static int patch(int i, sw v, int quiet)
{
	site_t *s = &g_s[i]; uw n = g_size < sizeof(g_before) ? g_size : sizeof(g_before), k; int q;
	snprintf(g_step, sizeof(g_step), "site %d: %llx -> %llx", i, (unsigned long long)(uw)s->cur, (unsigned long long)(uw)v);
	if (!quiet) memcpy(g_before, g_code, n + 4 <= sizeof(g_before) ? n + 4 : n);
	g_nfl = g_flbad = 0; g_phase = "patch"; n_steps++;
	if (isc(s->k)) sljit_set_const(s->addr, cop[s->k], v, g_execoff); else sljit_set_jump_addr(s->addr, g_tgt[tclass(s->k)][v], g_execoff);
	s->cur = v;
	if (g_flbad && FLUSHES) { bad("flush", "a flush at %llx is outside of the executable mapping", (unsigned long long)g_fl[g_nfl - 1].a); return 0; }
	if (!FLUSHES) { if (g_execoff) remap_flush((uw)g_code + (uw)g_execoff, g_size);
#if defined __x86_64__ || defined __i386__
		{ int a = 0, b, c = 0, d; __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d)); }
#endif
		return 1; }
	if (!quiet) for (k = 0; k < n; k += 4) { u32 w; uw e = (uw)g_code + k + (uw)g_execoff; uw nv = isc(s->k) ? (uw)v : g_tgt[tclass(s->k)][v];
		if (*(u32 *)(g_before + k) == *(u32 *)(g_code + k)) continue;
		memcpy(&w, g_code + k, 4);
		if (LITERALS && w == (u32)nv) continue; /* a literal: data */
		for (q = 0; q < g_nfl; q++) if (g_fl[q].a <= e && g_fl[q].b >= e + 4) break;
		if (q == g_nfl) { /* half words */ int h, okh = 1; for (h = 0; h < 4; h += 2) { if (!memcmp(g_before + k + h, g_code + k + h, 2)) continue; for (q = 0; q < g_nfl; q++) if (g_fl[q].a <= e + (uw)h && g_fl[q].b >= e + (uw)h + 2) break; if (q == g_nfl) okh = 0; }
			if (!okh) { u32 w0; memcpy(&w0, g_before + k, 4); bad("flush", "the instruction at %llx (%x -> %x) was changed but not flushed, first flush %llx-%llx", (unsigned long long)e, w0, w, (unsigned long long)g_fl[0].a, (unsigned long long)g_fl[0].b); return 0; } }
	}
	return 1;
}
static int step(int i, sw v) { if (g_s[i].cur == v) return 1; return patch(i, v, 0) && run(); }
/* ---- value sets */
static sw vset[80]; static int nvs;
static void addv(u64 v) { int i; sw w = (sw)v; for (i = 0; i < nvs; i++) if (vset[i] == w) return; vset[nvs++] = w; }
static void values(int k, int d, int rich)
{
	static const u64 base[] = { 0, 1, ~0ull, 0xff, ~0xffull, 0x7fffffff, 0xffffffff80000000ull, 0x12345678, 0xff000000, 0x3fc00, ~0xff0000ull, 0x7ff, 0x800, ~0x7ffull, ~0x800ull, 0xfff, 0x1000, 0xffff, 0x10000, 0x7fff8000, 0xffff8000, 0xfffffffffffff000ull,
		0x80000000ull, 0x100000000ull, 0x123456789abcdef0ull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x7fffffff80000000ull, 0x7ffff800ull, 0x7ffffffffffff800ull, 0xffff0000ffff0000ull, 0x8000000080000000ull, 0xfff7ffff7ffff7ffull, 0x0008000080000800ull, 0x8000800080008000ull, 0x00007fff7fff8000ull };
	static const u64 small[] = { 0, ~0ull, 0x12345678, 0x8000000080000800ull, 0xff0, 0x7ffffffffffff7ffull };
	int i; nvs = 0;
	if (k == C_U8 || k == C_U832) { static const int b8[] = { 0, 1, 0x7f, 0x80, 0xff, 0x55 }; static const int b9[] = { -1, -256, -255, -128, -129, -2 };
		for (i = 0; i < (rich ? 6 : 4); i++) addv((u64)b8[i]); if (d < D_ABS) for (i = 0; i < (rich ? 6 : 2); i++) addv((u64)(s64)b9[i]); return; }
	if (rich) for (i = 0; i < (int)(sizeof(base) / 8); i++) addv(k == C_MOV ? base[i] : (u64)(s64)(s32)base[i]);
	else for (i = 0; i < (int)(sizeof(small) / 8); i++) addv(k == C_MOV ? small[i] : (u64)(s64)(s32)small[i]);
}
static int nvals(site_t *s, sw *v, int lim) { int i, n; if (!isc(s->k)) { n = g_nt; for (i = 0; i < n; i++) v[i] = i; if (lim < n) { static const int pick[] = { T_F0, T_X0 + 2, T_B1, T_X0 + 1, T_F1 }; n = lim > 5 ? 5 : lim; for (i = 0; i < n; i++) v[i] = pick[i] < g_nt ? pick[i] : T_B0; v[1] = g_nt - 1; } return n; } values(s->k, s->d, 0); n = nvs < lim ? nvs : lim; for (i = 0; i < n; i++) v[i] = vset[i]; return n; }
/* closed walk over every edge of the product graph */
static sw pv[4][12]; static int pn[4]; static u8 eused[4096][4 * 12];
static int node_of(int *x) { int i, n = 0; for (i = g_ns - 1; i >= 0; i--) n = n * pn[i] + x[i]; return n; }
static int tour(int lim)
{
	int i, q, x[4] = { 0, 0, 0, 0 }; static int stk[60000], path[60000]; int sp = 0, np = 0, tot = 1, deg = 0;
	for (i = 0; i < g_ns; i++) { pn[i] = nvals(&g_s[i], pv[i], lim); tot *= pn[i]; deg += pn[i]; }
	if (tot > 4096) die("tour");
	memset(eused, 0, (size_t)tot * sizeof(eused[0]));
	for (i = 0; i < g_ns; i++) { for (q = 0; q < pn[i]; q++) if (pv[i][q] == g_s[i].cur) break; if (q == pn[i]) q = 0; x[i] = q; }
	stk[sp++] = node_of(x);
	while (sp) { int v = stk[sp - 1], t = v, found = 0; for (i = 0; i < g_ns; i++) { x[i] = t % pn[i]; t /= pn[i]; }
		for (i = 0; i < g_ns && !found; i++) for (q = 0; q < pn[i]; q++) { if (q == x[i] || eused[v][i * 12 + q]) continue; eused[v][i * 12 + q] = 1; x[i] = q; stk[sp++] = node_of(x); found = 1; break; }
		if (!found) { path[np++] = v; sp--; } }
	TICK();
	if (!run()) return 0;
	for (q = np - 1; q >= 0; q--) { int t = path[q]; for (i = 0; i < g_ns; i++) { if (!step(i, pv[i][t % pn[i]])) return 0; t /= pn[i]; } }
	return 1;
}
static site_t *site(int k, int d, sw cur, int fill) { site_t *s = &g_s[g_ns++]; memset(s, 0, sizeof(*s)); s->k = (u8)k; s->d = (u8)d; s->cur = cur; s->fill = fill; return s; }
static int dform_of(int k, int i) { static const int f[] = { D_R0, D_ABS, D_R3, D_M1, D_RL, D_SP, D_S2, D_M2 }; (void)k; return f[i & 7]; }

static void fam_const(void)
{
	int k, d, i, j; sw v[80]; int n;
	for (k = C_MOV; k <= C_U832; k++) for (d = 0; d < D_N; d++) for (i = 0; i < 40; i++) {
		values(k, d, 1); n = nvs; memcpy(v, vset, sizeof(v)); if (i >= n) continue;
		if (!mine()) continue;
		g_cur = g_idx - 1;
		/* from value i to each other value and back; the initial value is i itself or its predecessor */
		g_ns = 0; site(k, d, v[i], 0)->fl = (u8)((i + d) % 3);
		if (!build(16384) || !run()) continue;
		for (j = 0; j < n; j++) if (j != i && (g_thorough || d == D_R0 || d == D_ABS || (i + j) % 4 == d % 4) && (!step(0, v[j]) || !step(0, v[i]))) break;
		/* the first patch of a fresh site */
		if (g_thorough || d == D_R0) for (j = 0; j < n; j++) if (j != i) { g_ns = 0; site(k, d, v[i], 0); if (!build(16384) || !step(0, v[j])) break; }
		/* walking bits */
		if (i == 1) { int b, w = k == C_MOV ? WBITS : k <= C_S32 ? 32 : 8; for (b = 0; b < w; b++) { u64 m = k == C_MOV ? 1ull << b : (u64)(s64)(s32)(1u << b); if (k >= C_U8) m = 1u << b; if (!step(0, (sw)m)) break; if (k >= C_U8) { if (d < D_ABS ? !step(0, (sw)(s64)(~(1 << b) & 0x1ff) - 0x200) : !step(0, (sw)(~(1u << b) & 0xff))) break; } else if (!step(0, (sw)~m)) break; } 
			if (k >= C_U8) for (b = d < D_ABS ? -256 : 0; b < 256; b++) if (!step(0, b)) break; }
	}
}
static void fam_jump(void)
{
	int k, i, f; static const int fills[] = { 0, 1, 600, -600 };
	for (k = J_JUMP; k < S_N; k++) for (i = 0; i < g_nt; i++) for (f = 0; f < 4; f++) {
		if (!mine()) continue;
		g_cur = g_idx - 1; g_ns = 0; site(k, 0, i, fills[f]);
		if (build(65536)) tour(NT);
	}
}
static void fam_pairs(int lim, int thin)
{
	int a, b, f; static const int fills[] = { 0, 1, -1020, 700 };
	for (a = 0; a < S_N; a++) for (b = 0; b < S_N; b++) for (f = 0; f < 4; f++) {
		if (thin && (a * 7 + b + f) % thin) continue;
		if (!mine()) continue;
		g_cur = g_idx - 1; g_ns = 0; { sw v[12]; int n; site_t *s = site(a, dform_of(a, a + b + f), 0, fills[f]); n = nvals(s, v, lim); s->cur = v[b % n]; s = site(b, dform_of(b, 3 * a + b + f), 0, f == 3 ? -300 : 0); n = nvals(s, v, lim); s->cur = v[a % n]; }
		if (build(131072)) tour(lim);
	}
}
static void fam_triples(int thin)
{
	static const int ks[] = { C_MOV, C_U8, C_S32, J_JUMP, J_CBZ_T, J_FAST, J_CALL }; int a, b, c2;
	for (a = 0; a < 7; a++) for (b = 0; b < 7; b++) for (c2 = 0; c2 < 7; c2++) {
		if (thin && (a + b * 3 + c2 * 5) % thin) continue;
		if (!mine()) continue;
		g_cur = g_idx - 1; g_ns = 0; site(ks[a], dform_of(0, a + b + c2), 0, 0); site(ks[b], dform_of(0, a + 3 * b), 0, (a + b + c2) & 1); site(ks[c2], dform_of(0, b + c2), 0, 0);
		if (build(65536)) tour(3);
	}
}
/* many sites in one program: literal pools of every size */
static void fam_many(void)
{
	static const int ns[] = { 10, 100, 240, 300, 390 }; int i, m, q, r;
	for (i = 0; i < 5; i++) for (m = 0; m < 6; m++) {
		if (!mine()) continue;
		g_cur = g_idx - 1; g_ns = 0;
		for (q = 0; q < ns[i]; q++) { int k = m == 0 ? C_MOV : m == 1 ? J_JUMP : m == 2 ? (q & 1 ? C_MOV : J_CALL) : m == 3 ? (q % 3 ? J_CBZ_T : C_U8) : m == 4 ? (q % 5 ? C_S32 : J_FAST) : q % S_N;
			sw v[12]; site_t *s = site(k, dform_of(0, q), 0, (q % 37) == 36 ? (m & 1 ? 40 : -25) : 0); int n = nvals(s, v, 5); s->cur = v[(q * 7 + i) % n]; }
		if (!build(400000) || !run()) continue;
		for (r = 0; r < 2; r++) {
			for (q = 0; q < g_ns; q++) { sw v[12]; int n = nvals(&g_s[q], v, 5); TICK(); if (!patch(q, v[(q + r + 1) % n], 0)) break; if ((g_thorough ? r == 0 || q % 16 == 0 : q % 8 == r) && !run()) break; }
			if (q < g_ns || !run()) break;
		}
	}
}
int main(int argc, char **argv)
{
	static const sw offs[] = { 0x1000000, -0x1000000, 0x4001000, (sw)0x1f0000000ll }; int i;
	parse_args(argc, argv); g_suite = "patch";
	make_ext();
	if (!region((uw)0x30000000, 8u << 20, 0)) die("region");
	fam_const(); fam_jump(); fam_pairs(g_thorough ? 6 : 3, 0); fam_triples(g_thorough ? 0 : 2); fam_many();
	for (i = 0; i < 4; i++) {
		if (WB == 4 && i == 3) break;
		if (!region((uw)0x30000000, 8u << 20, offs[i])) { n_unsup++; continue; }
		fam_pairs(g_thorough ? 4 : 3, g_thorough ? 0 : 3); fam_triples(g_thorough ? 0 : 6); if (i == 0 || g_thorough) { fam_jump(); fam_many(); }
	}
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
