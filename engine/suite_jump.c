/* P07: every layout of jumps, labels, address loads, aligned labels and read-only buffers of a bounded family, with
   paddings that sweep every distance around the range limits of the target's branch and address forms. The path
   taken by the generated code (a position exact hash of the executed blocks) is compared with an interpreter. */
#include <fcntl.h>
#include "eng.h"
#include "maps.h"
#if defined __x86_64__ || defined __i386__
#define ISX86 1
#else
#define ISX86 0
#endif
enum { T_STEP, T_PAD, T_LAB, T_JMP, T_FCB, T_FUN, T_RET, T_MADDR, T_CONST, T_POOL, T_FLD };
typedef struct { u8 k, a, b, c; s32 n; sw w; } it_t;
enum { J_JUMP, J_EQ_T, J_EQ_N, J_CMP_T, J_CMP_N, J_CBZ_T, J_CBZ_N, J_CMPI_T, J_CMP32_T, J_OP2Z_T, J_OP2Z_N, J_F_T, J_F_N, J_C_T, J_O_N, J_UN_T, J_FAST, J_CALL, J_IREG, J_IMEM, J_IFAST, J_FASTMEM, J_N };
static const char *jname[] = { "jump", "eq.taken", "ne.not", "cmp.taken", "cmp.not", "cmp0.taken", "cmp0.not", "cmpimm.taken", "cmp32.taken", "op2cmpz.taken", "op2cmpz.not", "fcmp.taken", "fcmp.not", "carry.taken", "ov.not", "funord.taken", "fast_call", "call", "ijump.reg", "ijump.mem", "ifast", "fast_call(mem)" };
static int not_taken(int k) { return k == J_EQ_N || k == J_CMP_N || k == J_CBZ_N || k == J_OP2Z_N || k == J_F_N || k == J_O_N; }
static int is_fast(int k) { return k == J_FAST || k == J_IFAST || k == J_FASTMEM; }

#define MAXIT 40
static it_t g_p[MAXIT]; static int g_n, g_nlab;
static volatile sw g_out[32], g_exp[32]; static volatile sw g_mem[16]; static volatile uw g_fh;
static const double g_d[2] = { 1.0, 2.0 }; static const u64 g_nan = 0x7ff8000000000000ull;
static int g_nout;
static char g_txt[1500];
#define ABSM(x) SLJIT_MEM0(), (sw)&(x)

static it_t *put(int k, int a, int b, int c, s32 n) { it_t *t = &g_p[g_n++]; t->k = (u8)k; t->a = (u8)a; t->b = (u8)b; t->c = (u8)c; t->n = n; t->w = 0; return t; }
static void text(void)
{
	char *o = g_txt; int i;
	*o = 0;
	for (i = 0; i < g_n; i++) { it_t *t = &g_p[i]; if (o - g_txt > 1350) break;
		switch (t->k) {
		case T_STEP: o += sprintf(o, "S%d ", t->n); break; case T_PAD: o += sprintf(o, "pad*%d ", (int)t->n); break;
		case T_LAB: o += sprintf(o, "L%d:", t->a); if (t->b) o += sprintf(o, "align%d ", 1 << t->b); if (t->c) o += sprintf(o, "(%d buffers,%d) ", t->c, (int)t->n); else *o++ = ' ', *o = 0; break;
		case T_JMP: o += sprintf(o, "%s%s->L%d ", jname[t->a], t->c ? ".rw" : "", t->b); break;
		case T_FCB: o += sprintf(o, "L%d:fast_enter[%d] ", t->a, t->b); break; case T_FUN: o += sprintf(o, "L%d:function ", t->a); break;
		case T_RET: o += sprintf(o, "ret "); break; case T_MADDR: o += sprintf(o, "addr%d[%d](L%d) ", t->a, t->c, t->b); break;
		case T_CONST: o += sprintf(o, "const(%llx) ", (unsigned long long)(uw)t->w); break; case T_POOL: o += sprintf(o, "imm*%d ", (int)t->n); break; case T_FLD: o += sprintf(o, "fset "); break;
		} }
	g_crash_txt = g_txt;
}
static void bad(const char *key, const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); violation(g_cur, key, "%s| %s", g_txt, b); }

/* registers: S0 hash, S1 = &g_mem, R0 = 5, R1 = 7, FR0 = 1.0, FR1 = 2.0, FR2 NaN */
static void ctx(struct sljit_compiler *c) { sljit_set_context(c, 0, SLJIT_ARGS1(W, W), 4 | SLJIT_ENTER_FLOAT(3), 2, 32); }
static void e_step(struct sljit_compiler *c, int id)
{
	sljit_emit_op2(c, SLJIT_MUL, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 37); sljit_emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, id);
}
static void e_regs(struct sljit_compiler *c)
{
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 5); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 7);
	if (IS64) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R2, 0, SLJIT_IMM, 5); }
	sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR0, 0, ABSM(g_d[0])); sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR1, 0, ABSM(g_d[1])); sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR2, 0, ABSM(g_nan));
}
#define MAXL 12
static struct sljit_label *lab[MAXL]; static uw labaddr[MAXL]; static struct { struct sljit_jump *j; int l; } jmp[64]; static int njmp;
static struct sljit_read_only_buffer robuf[MAXL][4]; static int ro_n[MAXL];
static int ro_size(int k, int v) { static const int s[4][4] = { { 1, 16, 3, 8 }, { 17, 5, 64, 2 }, { 4096, 12, 7, 1 }, { 0, 2, 24, 9 } }; return s[v & 3][k & 3]; }
static void addj(struct sljit_jump *j, int l) { jmp[njmp].j = j; jmp[njmp++].l = l; }
static void emit_jump(struct sljit_compiler *c, it_t *t)
{
	s32 rw = t->c ? SLJIT_REWRITABLE_JUMP : 0; struct sljit_jump *j = NULL;
	switch (t->a) {
	case J_JUMP: j = sljit_emit_jump(c, SLJIT_JUMP | rw); break;
	case J_EQ_T: case J_EQ_N: sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_IMM, 5); j = sljit_emit_jump(c, (t->a == J_EQ_T ? SLJIT_EQUAL : SLJIT_NOT_EQUAL) | rw); break;
	case J_CMP_T: j = sljit_emit_cmp(c, SLJIT_LESS | rw, SLJIT_R0, 0, SLJIT_R1, 0); break;
	case J_CMP_N: j = sljit_emit_cmp(c, SLJIT_SIG_GREATER | rw, SLJIT_R0, 0, SLJIT_R1, 0); break;
	case J_CBZ_T: j = sljit_emit_cmp(c, SLJIT_NOT_EQUAL | rw, SLJIT_R0, 0, SLJIT_IMM, 0); break;
	case J_CBZ_N: j = sljit_emit_cmp(c, SLJIT_EQUAL | rw, SLJIT_R0, 0, SLJIT_IMM, 0); break;
	case J_CMPI_T: j = sljit_emit_cmp(c, SLJIT_SIG_LESS_EQUAL | rw, SLJIT_R0, 0, SLJIT_IMM, 5); break;
	case J_CMP32_T: sljit_emit_op1(c, SLJIT_MOV32, SLJIT_R3, 0, SLJIT_IMM, 9); j = sljit_emit_cmp(c, SLJIT_SIG_GREATER | SLJIT_32 | rw, SLJIT_R3, 0, SLJIT_IMM, 8); break;
	case J_OP2Z_T: j = sljit_emit_op2cmpz(c, SLJIT_SUB | SLJIT_SET_Z | (rw ? SLJIT_JUMP_IF_NON_ZERO * 0 : 0), SLJIT_R3, 0, SLJIT_R0, 0, SLJIT_IMM, 5); break;
	case J_OP2Z_N: j = sljit_emit_op2cmpz(c, SLJIT_AND | SLJIT_SET_Z, SLJIT_R3, 0, SLJIT_R0, 0, SLJIT_IMM, 4); break;
	case J_F_T: j = sljit_emit_fcmp(c, SLJIT_F_LESS | rw, SLJIT_FR0, 0, SLJIT_FR1, 0); break;
	case J_F_N: j = sljit_emit_fcmp(c, SLJIT_ORDERED_GREATER | rw, SLJIT_FR0, 0, SLJIT_FR1, 0); break;
	case J_UN_T: j = sljit_emit_fcmp(c, SLJIT_UNORDERED_OR_LESS | rw, SLJIT_FR0, 0, SLJIT_FR2, 0); break;
	case J_C_T: sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_CARRY, SLJIT_R0, 0, SLJIT_R1, 0); j = sljit_emit_jump(c, SLJIT_CARRY | rw); break;
	case J_O_N: sljit_emit_op2u(c, SLJIT_ADD | SLJIT_SET_OVERFLOW, SLJIT_R0, 0, SLJIT_R1, 0); j = sljit_emit_jump(c, SLJIT_OVERFLOW | rw); break;
	case J_FAST: case J_FASTMEM: j = sljit_emit_jump(c, SLJIT_FAST_CALL | rw); break;
	case J_CALL: j = sljit_emit_call(c, SLJIT_CALL | rw, SLJIT_ARGS0V()); break;
	case J_IREG: case J_IMEM: case J_IFAST: {
		j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, t->a == J_IMEM ? SLJIT_MEM1(SLJIT_S1) : SLJIT_R3, t->a == J_IMEM ? 8 * WB : 0); if (j) addj(j, t->b);
		sljit_emit_ijump(c, t->a == J_IFAST ? SLJIT_FAST_CALL : SLJIT_JUMP, t->a == J_IMEM ? SLJIT_MEM1(SLJIT_S1) : SLJIT_R3, t->a == J_IMEM ? 8 * WB : 0); return; }
	}
	if (j) addj(j, t->b);
	if (t->a == J_CALL) e_regs(c);
}
static void fc_form(int f, s32 *t, sw *w) { switch (f) { case 0: *t = SLJIT_R2; *w = 0; break; case 1: *t = SLJIT_MEM1(SLJIT_SP); *w = 8; break; case 2: *t = SLJIT_MEM1(SLJIT_S1); *w = 4 * WB; break; case 3: *t = SLJIT_R3; *w = 0; break; default: *t = SLJIT_MEM0(); *w = (sw)&g_mem[6]; } }
static s32 g_cerr;
static struct sljit_compiler *emit_all(void)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int i, k, o = 0;
	njmp = 0; memset(lab, 0, sizeof(lab)); memset(ro_n, 0, sizeof(ro_n));
	sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4 | SLJIT_ENTER_FLOAT(3), 2, 32);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_IMM, (sw)g_mem); e_regs(c);
	for (i = 0; i < g_n; i++) { it_t *t = &g_p[i]; s32 ft; sw fw;
		switch (t->k) {
		case T_STEP: e_step(c, t->n); break;
		case T_PAD: for (k = 0; k < t->n; k++) sljit_emit_op0(c, SLJIT_NOP); break;
		case T_LAB:
			if (t->c) { for (k = 0; k < t->c; k++) { robuf[t->a][k].size = (uw)ro_size(k, t->n); robuf[t->a][k].next = k + 1 < t->c ? &robuf[t->a][k + 1] : NULL; } ro_n[t->a] = t->c; lab[t->a] = sljit_emit_aligned_label(c, t->b, robuf[t->a]); }
			else lab[t->a] = t->b ? sljit_emit_aligned_label(c, t->b, NULL) : sljit_emit_label(c);
			break;
		case T_JMP: emit_jump(c, t); break;
		case T_FCB: lab[t->a] = sljit_emit_label(c); fc_form(t->b, &ft, &fw); sljit_emit_op_dst(c, SLJIT_FAST_ENTER, ft, fw); e_step(c, 11 + t->a);
			if (t->c) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R3, 0, ft, fw); ft = SLJIT_R3; fw = 0; } sljit_emit_op_src(c, SLJIT_FAST_RETURN, ft, fw); break;
		case T_FUN: lab[t->a] = sljit_emit_label(c); sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 2, 0, 0);
			sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)&g_fh); sljit_emit_op2(c, SLJIT_MUL, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_R1), 0, SLJIT_IMM, 41); sljit_emit_op2(c, SLJIT_ADD, SLJIT_MEM1(SLJIT_R1), 0, SLJIT_R0, 0, SLJIT_IMM, 7 + t->a);
			sljit_emit_return_void(c); ctx(c); break;
		case T_RET: sljit_emit_return(c, SLJIT_MOV, SLJIT_S0, 0); break;
		case T_MADDR: { struct sljit_jump *j; s32 d = t->c == 0 ? SLJIT_R3 : t->c == 1 ? SLJIT_MEM1(SLJIT_S1) : t->c == 2 ? SLJIT_MEM1(SLJIT_SP) : SLJIT_MEM0(); sw dw = t->c == 0 ? 0 : t->c == 1 ? 10 * WB : t->c == 2 ? 16 : (sw)&g_mem[11];
			if (t->a == 2) sljit_emit_op1(c, SLJIT_MOV, d, dw, SLJIT_IMM, 0x1234);
			j = sljit_emit_op_addr(c, t->a == 0 ? SLJIT_MOV_ADDR : t->a == 1 ? SLJIT_MOV_ABS_ADDR : SLJIT_ADD_ABS_ADDR, d, dw); if (j) { if (t->b == 0xff) sljit_set_target(j, (uw)t->w); else addj(j, t->b); }
			sljit_emit_op1(c, SLJIT_MOV, ABSM(g_out[o++]), d, dw); break; }
		case T_CONST: sljit_emit_const(c, SLJIT_MOV, SLJIT_R3, 0, t->w); sljit_emit_op1(c, SLJIT_MOV, ABSM(g_out[o++]), SLJIT_R3, 0); break;
		case T_POOL: for (k = 0; k < t->n; k++) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R3, 0, SLJIT_IMM, (sw)(0x12345671 + k * 0x10001)); sljit_emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_R3, 0); } break;
		case T_FLD: sljit_emit_fset64(c, SLJIT_FR0, 1.0); break;
		} }
	for (i = 0; i < njmp; i++) sljit_set_label(jmp[i].j, lab[jmp[i].l]);
	return c;
}
/* interpreter */
static uw g_refh, g_reffh; static int g_visited;
static int interp(void)
{
	int pc = 0, steps = 0, stk[8], sp = 0, i, o; uw h = 0x1111; int lp[MAXL]; int om[MAXIT];
	for (i = 0, o = 0; i < g_n; i++) { if (g_p[i].k == T_LAB || g_p[i].k == T_FCB || g_p[i].k == T_FUN) lp[g_p[i].a] = i; om[i] = o; if (g_p[i].k == T_MADDR || g_p[i].k == T_CONST) o++; }
	g_nout = o; for (i = 0; i < o; i++) g_exp[i] = -1;
	g_reffh = 3; g_visited = 0;
	while (pc < g_n && steps++ < 400) { it_t *t = &g_p[pc];
		n_steps++;
		switch (t->k) {
		case T_LAB: if (t->c) g_visited = 1; break;
		case T_STEP: h = h * 37 + (uw)t->n; break;
		case T_JMP: if (not_taken(t->a)) break; if (t->a == J_CALL) { g_reffh = g_reffh * 41 + 7 + t->b; break; } if (is_fast(t->a)) stk[sp++] = pc + 1; pc = lp[t->b]; continue;
		case T_FCB: if (!sp) return 0; h = h * 37 + 11 + t->a; pc = stk[--sp]; continue;
		case T_FUN: return 0;
		case T_RET: g_refh = h; return 1;
		case T_MADDR: g_exp[om[pc]] = t->b == 0xff ? t->w : (sw)((t->a ? labaddr[t->b] & (uw)~(uw)(
#if defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
			1
#else
			0
#endif
			) : labaddr[t->b])); if (t->a == 2) g_exp[om[pc]] += 0x1234; break;
		case T_CONST: g_exp[om[pc]] = t->w; break;
		case T_POOL: { int k; for (k = 0; k < t->n; k++) h += (uw)(0x12345671 + k * 0x10001); } break;
		} pc++; }
	return 0;
}
static uw ABSA(uw a) {
#if defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
	return a & ~(uw)1;
#else
	return a;
#endif
}
static u64 g_hs;
static void run_at(u8 *buf, uw bufsz, sw off)
{
	struct sljit_compiler *c; struct sljit_generate_code_buffer b; void *code; uw size; int i, k; sw r; uw bl[MAXL][4];
	TICK(); g_phase = "compile"; c = emit_all();
	if ((g_cerr = sljit_get_compiler_error(c))) { bad("compile", "error %d", g_cerr); sljit_free_compiler(c); return; }
	g_phase = "generate"; b.buffer = buf; b.size = bufsz; b.executable_offset = off;
	code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b);
	if (!code) { bad("generate", "error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
	size = sljit_get_generated_code_size(c); g_pos += size;
	for (i = 0; i < MAXL; i++) if (lab[i]) { labaddr[i] = sljit_get_label_addr(lab[i]); for (k = 0; k < ro_n[i]; k++) bl[i][k] = sljit_get_label_abs_addr(robuf[i][k].u.label); }
	if (sljit_get_executable_offset(c) != off) bad("offset", "executable offset %lld", (long long)sljit_get_executable_offset(c));
	sljit_free_compiler(c);
	n_progs++;
	if (!interp()) { bad("generator", "the layout does not terminate"); return; }
	/* label placement */
	for (i = 0; i < g_n; i++) { it_t *t = &g_p[i];
		if ((t->k == T_LAB || t->k == T_FCB || t->k == T_FUN) && (ABSA(labaddr[t->a]) < (uw)buf + (uw)off || ABSA(labaddr[t->a]) > (uw)buf + (uw)off + size)) { bad("label-range", "label %d at %llx is outside of the code (%llx, %llx bytes)", t->a, (unsigned long long)labaddr[t->a], (unsigned long long)(uw)buf + (unsigned long long)off, (unsigned long long)size); return; }
		if (t->k == T_LAB && t->b && (ABSA(labaddr[t->a]) & (((uw)1 << t->b) - 1))) { bad("align", "label %d at %llx is not aligned to %d", t->a, (unsigned long long)labaddr[t->a], 1 << t->b); return; }
		if (t->k == T_LAB && t->c) for (k = 0; k < t->c; k++) {
			uw e = bl[t->a][k] + (uw)ro_size(k, t->n), nx = k + 1 < t->c ? bl[t->a][k + 1] : (uw)buf + (uw)off + size;
			if (k == 0 && bl[t->a][0] != ABSA(labaddr[t->a])) { bad("buffer", "the first buffer is not at its label"); return; }
			if (e > nx) { bad("buffer", "buffer %d of label %d overlaps the next", k, t->a); return; }
		} }
	/* code between buffers must stay untouched while they are written */
	g_phase = "run";
	for (k = 0; k < 2; k++) {
		int l, q; int any = 0;
		if (off && !k && !ISX86) remap_flush((uw)buf + (uw)off, size);
		for (i = 0; i < 32; i++) g_out[i] = -1; g_fh = 3; for (i = 0; i < 16; i++) g_mem[i] = 0x5a;
		n_runs++;
		if (g_dump) { int fd = creat("/tmp/eng_dump.bin", 0600); if (write(fd, buf, size)) {} close(fd); printf("code %p\n", code); fflush(stdout); }
		r = ((sw (SLJIT_FUNC *)(sw))code)(0x1111);
		if (r != (sw)g_refh || g_fh != g_reffh) { bad("path", "%sexecuted path hash %llx/%llx instead of %llx/%llx", k ? "after writing the buffers: " : "", (unsigned long long)(uw)r, (unsigned long long)g_fh, (unsigned long long)g_refh, (unsigned long long)g_reffh); return; }
		for (i = 0; i < g_nout; i++) if (g_exp[i] != -1 && g_out[i] != g_exp[i]) { bad("value", "value %d is %llx instead of %llx", i, (unsigned long long)(uw)g_out[i], (unsigned long long)(uw)g_exp[i]); return; }
		if (k) break;
		for (l = 0; l < MAXL; l++) for (q = 0; q < ro_n[l]; q++) {
			int sz = ro_size(q, g_p[0].n), m; u8 *w; for (i = 0; i < g_n; i++) if (g_p[i].k == T_LAB && g_p[i].a == l) sz = ro_size(q, g_p[i].n);
			any = 1; w = sljit_read_only_buffer_start_writing(bl[l][q], (uw)sz, off);
			if (w != (u8 *)bl[l][q] - off) { bad("buffer", "writable address"); return; }
			for (m = 0; m < sz; m++) w[m] = (u8)(l * 16 + q * 64 + m + 1);
			sljit_read_only_buffer_end_writing(bl[l][q], (uw)sz, off);
		}
		if (!any) break;
		for (l = 0; l < MAXL; l++) for (q = 0; q < ro_n[l]; q++) {
			int sz = 0, m; for (i = 0; i < g_n; i++) if (g_p[i].k == T_LAB && g_p[i].a == l) sz = ro_size(q, g_p[i].n);
			for (m = 0; m < sz; m++) if (((volatile u8 *)bl[l][q])[m] != (u8)(l * 16 + q * 64 + m + 1)) { bad("buffer", "byte %d of buffer %d of label %d lost", m, q, l); return; }
		}
		if (g_visited) break; /* the buffers do not hold code any more */
	}
	g_hs = g_hs * 31 + (u64)r; n_states++;
	if (g_nsamples < 6 && (g_cur % 997) == 0) { snprintf(g_samples[g_nsamples++], 700, "%s", g_txt); }
}
static void go(uw need)
{
	g_cur = g_idx - 1; text();
	g_pos = (g_pos + 15) & ~(uw)15;
	if (g_regsz - g_pos < need) g_pos = 0;
	run_at(g_reg + g_pos, g_regsz - g_pos, g_execoff);
}
/* ---- layouts */
static void begin(void) { g_n = 0; }
static void lay_fwd(int k, int rw, int n, int al)
{
	begin(); put(T_STEP, 0, 0, 0, 1); put(T_JMP, k, 0, rw, 0); put(T_STEP, 0, 0, 0, 2);
	if (is_fast(k) || k == J_CALL) {
		put(T_JMP, J_JUMP, 1, 0, 0); put(T_PAD, 0, 0, 0, n);
		if (k == J_CALL) put(T_FUN, 0, 0, 0, 0); else put(T_FCB, 0, k == J_FASTMEM ? 1 : 0, 0, 0);
		put(T_LAB, 1, al, 0, 0); put(T_STEP, 0, 0, 0, 3);
	} else { put(T_PAD, 0, 0, 0, n); put(T_STEP, 0, 0, 0, 4); put(T_LAB, 0, al, 0, 0); put(T_STEP, 0, 0, 0, 3); }
	put(T_RET, 0, 0, 0, 0);
}
static void lay_back(int k, int rw, int n, int al)
{
	begin(); put(T_STEP, 0, 0, 0, 1); put(T_JMP, J_JUMP, 1, 0, 0);
	if (k == J_CALL) put(T_FUN, 0, 0, 0, 0); else if (is_fast(k)) put(T_FCB, 0, k == J_FASTMEM ? 1 : 3, 0, 0);
	else { put(T_STEP, 0, 0, 0, 5); put(T_LAB, 0, al, 0, 0); put(T_STEP, 0, 0, 0, 2); put(T_JMP, J_JUMP, 2, 0, 0); }
	put(T_PAD, 0, 0, 0, n); put(T_STEP, 0, 0, 0, 6); put(T_LAB, 1, 0, 0, 0); put(T_STEP, 0, 0, 0, 3); put(T_JMP, k, 0, rw, 0); put(T_STEP, 0, 0, 0, 4); put(T_LAB, 2, 0, 0, 0); put(T_STEP, 0, 0, 0, 7); put(T_RET, 0, 0, 0, 0);
}
static void lay_addr(int op, int fwd, int n, int form)
{
	begin(); put(T_STEP, 0, 0, 0, 1);
	if (fwd) { put(T_MADDR, op, 0, form, 0); put(T_JMP, J_JUMP, 0, 0, 0); put(T_PAD, 0, 0, 0, n); put(T_LAB, 0, 0, 0, 0); put(T_STEP, 0, 0, 0, 2); }
	else { put(T_LAB, 0, 0, 0, 0); put(T_STEP, 0, 0, 0, 2); put(T_JMP, J_JUMP, 1, 0, 0); put(T_PAD, 0, 0, 0, n); put(T_LAB, 1, 0, 0, 0); put(T_MADDR, op, 0, form, 0); }
	put(T_STEP, 0, 0, 0, 3); put(T_RET, 0, 0, 0, 0);
}
/* two jumps whose distances depend on each other */
static void lay_two(int sh, int k1, int k2, int a, int b, int cpad)
{
	begin(); put(T_STEP, 0, 0, 0, 1);
	switch (sh) {
	case 0: put(T_JMP, k1, 0, 0, 0); put(T_STEP, 0, 0, 0, 2); put(T_PAD, 0, 0, 0, a); put(T_JMP, k2, 1, 0, 0); put(T_PAD, 0, 0, 0, b); put(T_STEP, 0, 0, 0, 3); put(T_LAB, 0, 0, 0, 0); put(T_STEP, 0, 0, 0, 4); put(T_JMP, k2, 1, 0, 0); put(T_PAD, 0, 0, 0, cpad); put(T_STEP, 0, 0, 0, 5); put(T_LAB, 1, 0, 0, 0); put(T_STEP, 0, 0, 0, 6); break;
	case 1: /* crossing forward and backward: the backward jump spans the forward one */
		put(T_JMP, J_JUMP, 2, 0, 0); put(T_STEP, 0, 0, 0, 2); put(T_LAB, 0, 0, 0, 0); put(T_STEP, 0, 0, 0, 3); put(T_PAD, 0, 0, 0, a); put(T_JMP, k1, 1, 0, 0); put(T_STEP, 0, 0, 0, 4); put(T_JMP, J_JUMP, 3, 0, 0); put(T_PAD, 0, 0, 0, b); put(T_LAB, 2, 0, 0, 0); put(T_STEP, 0, 0, 0, 5); put(T_JMP, k2, 0, 0, 0); put(T_STEP, 0, 0, 0, 6); put(T_PAD, 0, 0, 0, cpad); put(T_LAB, 1, 0, 0, 0); put(T_STEP, 0, 0, 0, 7); put(T_LAB, 3, 0, 0, 0); put(T_STEP, 0, 0, 0, 8); break;
	case 2: /* a jump across an address load, a constant and an aligned label */
		put(T_JMP, k1, 0, 0, 0); put(T_MADDR, 0, 0, 0, 0); put(T_CONST, 0, 0, 0, 0)->w = 0x123456; put(T_PAD, 0, 0, 0, a); put(T_JMP, k2, 0, 0, 0); put(T_LAB, 1, SLJIT_LABEL_ALIGN_16, 0, 0); put(T_PAD, 0, 0, 0, b); put(T_STEP, 0, 0, 0, 2); put(T_LAB, 0, 0, 0, 0); put(T_STEP, 0, 0, 0, 3); put(T_MADDR, 0, 1, 0, 0); put(T_PAD, 0, 0, 0, cpad); break;
	}
	put(T_RET, 0, 0, 0, 0);
}
#if defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86
#define NOPB 1
static const s32 lims[] = { 127, 0 }; static const s32 big[] = { 0 };
#elif defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64
#define NOPB 4
static const s32 lims[] = { 1 << 20, 0 }; static const s32 big[] = { 1 << 27, 0 };
#elif defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
#define NOPB 2
static const s32 lims[] = { 256, 2048, 4096, 1 << 20, 0 }; static const s32 big[] = { 1 << 24, 0 };
#elif defined SLJIT_CONFIG_ARM_V6 || defined SLJIT_CONFIG_ARM_V7
#define NOPB 4
static const s32 lims[] = { 1024, 4096, 0 }; static const s32 big[] = { 1 << 25, 0 };
#elif defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV
#define NOPB 4
static const s32 lims[] = { 256, 2048, 4096, 1 << 20, 0 }; static const s32 big[] = { 0 };
#elif defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
#define NOPB 2
static const s32 lims[] = { 65536, 0 }; static const s32 big[] = { 0 };
#elif defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH
#define NOPB 4
static const s32 lims[] = { 1 << 17, 1 << 21, 0 }; static const s32 big[] = { 1 << 22, 1 << 27, 0 };
#elif defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC
#define NOPB 4
static const s32 lims[] = { 1 << 15, 0 }; static const s32 big[] = { 1 << 25, 0 };
#else
#define NOPB 4
static const s32 lims[] = { 1 << 15, 1 << 17, 0 }; static const s32 big[] = { 0 };
#endif
static int win_lo(s32 l) { int c = l / NOPB, w = NOPB == 1 ? 127 : NOPB == 2 ? 110 : 56; return c > w ? c - w : 0; }
static int win_hi(s32 l) { return l / NOPB + (NOPB == 1 ? 24 : 8); }

static void fam_dist(void)
{
	int i, n, k, rw, d; 
	for (i = 0; lims[i]; i++) { uw need = (uw)lims[i] * 2 + 65536; int bigl = lims[i] >= 1 << 20;
		for (n = win_lo(lims[i]); n <= win_hi(lims[i]); n++) for (k = 0; k < J_N; k++) for (d = 0; d < 2; d++) for (rw = 0; rw < 2; rw++) {
			if (rw && (k >= J_IREG || k == J_OP2Z_T || k == J_OP2Z_N)) continue;
			if (bigl && !g_thorough && (n + k + d + rw) % 3) continue;
			if (rw && bigl && !g_thorough && (n + k) % 4) continue;
			if (bigl && !g_thorough && (k == J_CMP_N || k == J_CBZ_N || k == J_OP2Z_N || k == J_F_N || k == J_CMPI_T || k == J_CMP32_T) && (n + k) % 4) continue;
			if (!mine()) continue;
			if (d) lay_back(k, rw, n, 0); else lay_fwd(k, rw, n, n % 3 ? 0 : SLJIT_LABEL_ALIGN_8);
			go(need);
		}
		for (n = win_lo(lims[i]); n <= win_hi(lims[i]); n++) for (k = 0; k < 3; k++) for (d = 0; d < 2; d++) {
			if (!mine()) continue;
			lay_addr(k, d, n, (n + k) % 4); go(need);
		}
	}
}
static void fam_big(void)
{
	static const int ks[] = { J_JUMP, J_EQ_T, J_CBZ_T, J_FAST, J_F_N };
	int i, n, q, d;
	for (i = 0; big[i]; i++) for (n = big[i] / NOPB - (g_thorough ? 24 : 10); n <= big[i] / NOPB + 2; n++) for (q = 0; q < 5; q++) for (d = 0; d < 2; d++) {
		if (!g_thorough && (big[i] > 1 << 24 || q > 2 || (n + q + d) % (big[i] < 1 << 24 ? 2 : 8))) continue;
		if (big[i] > 1 << 25 && (q > 2 || n < big[i] / NOPB - 12)) continue;
		if (!mine()) continue;
		if (d) lay_back(ks[q], 0, n, 0); else lay_fwd(ks[q], 0, n, 0);
		go((uw)big[i] + 65536);
	}
}
static void fam_two(void)
{
	static const int ks[] = { J_JUMP, J_EQ_T, J_CBZ_T, J_F_T, J_FAST };
	int i, sh, k1, k2, n, b;
	for (i = 0; lims[i]; i++) { int w = NOPB == 1 ? 1 : NOPB == 2 ? 2 : 1, mid;
		if (lims[i] >= 1 << 20 && !g_thorough) continue;
		for (sh = 0; sh < 3; sh++) for (k1 = 0; k1 < 4; k1++) for (k2 = 0; k2 < 4; k2++) for (n = win_lo(lims[i]); n <= win_hi(lims[i]); n += w) for (b = 0; b < 3; b++) {
			if (!g_thorough && lims[i] > 4096 && (n + b + k1 + k2) % 4) continue;
			if (!mine()) continue;
			mid = b == 0 ? n / 2 : b == 1 ? 3 : n > 3 ? n - 3 : 0;
			lay_two(sh, ks[k1], ks[k2], mid, n - mid, b == 2 ? n / 3 : mid); go((uw)lims[i] * 4 + 65536);
		} }
}
/* every sequence of at most `len` items over the alphabet */
#define NA 18
static void fam_seq(int len, int stride, int ph)
{
	int n, l, e[8]; long x, tot;
	for (l = 1; l <= len; l++) { for (tot = 1, n = 0; n < l; n++) tot *= NA;
		for (x = 0; x < tot; x++) { long y = x; int nl = 0, cur, i, bad_ = 0, fb = -1, open = 0;
			if (stride > 1 && l == len && (x % stride) != ph) continue;
			if (!mine()) continue;
			for (i = 0; i < l; i++) { e[i] = (int)(y % NA); y /= NA; }
			begin(); put(T_STEP, 0, 0, 0, 1); put(T_LAB, 0, 0, 0, 0); nl = 1; cur = 1; (void)open;
			/* label `cur` is the next label to be emitted, cur - 1 the previous one */
			for (i = 0; i < l; i++) switch (e[i]) {
			case 0: put(T_STEP, 0, 0, 0, 20 + i); break;
			case 1: put(T_JMP, J_JUMP, cur, 0, 0); break;
			case 2: put(T_JMP, J_EQ_T, cur, 0, 0); break;
			case 3: put(T_JMP, J_CBZ_N, cur, 0, 0); break;
			case 4: put(T_MADDR, 0, cur, i & 3, 0); break;
			case 5: put(T_MADDR, 1, cur - 1, 0, 0); break;
			case 6: put(T_CONST, 0, 0, 0, 0)->w = (sw)0x89abcdef01234567ll; break;
			case 7: put(T_LAB, cur++, 0, 0, 0); put(T_STEP, 0, 0, 0, 40 + i); break;
			case 8: put(T_LAB, cur++, SLJIT_LABEL_ALIGN_8, 0, 0); break;
			case 9: put(T_LAB, cur++, SLJIT_LABEL_ALIGN_16, 0, 0); put(T_STEP, 0, 0, 0, 40 + i); break;
			case 10: put(T_LAB, cur++, SLJIT_LABEL_ALIGN_16, 2, i); break;
			case 11: put(T_LAB, cur++, SLJIT_LABEL_ALIGN_1, 3, i + 1); break;
			case 12: put(T_JMP, J_FAST, 10, 0, 0); fb = 0; break;
			case 13: put(T_PAD, 0, 0, 0, 1 + (i & 1)); break;
			case 14: put(T_POOL, 0, 0, 0, 1 + i); break;
			case 15: put(T_LAB, cur++, SLJIT_LABEL_ALIGN_4, 0, 0); break;
			case 16: put(T_JMP, J_JUMP, cur, 1, 0); break;
			case 17: put(T_JMP, J_JUMP, 9, 0, 0); break;
			}
			(void)bad_; (void)nl;
			put(T_STEP, 0, 0, 0, 60); put(T_LAB, cur, x % 3 == 0 ? SLJIT_LABEL_ALIGN_16 : 0, 0, 0); put(T_STEP, 0, 0, 0, 61); put(T_LAB, 9, 0, 0, 0); put(T_STEP, 0, 0, 0, 62);
			if (cur >= 9) continue;
			put(T_RET, 0, 0, 0, 0);
			if (fb >= 0) put(T_FCB, 10, (int)(x % 5), (int)(x & 1), 0);
			go(65536);
		} }
}
/* literal pools */
static void fam_pool(void)
{
	int n, k, al, d;
	for (n = 0; n <= (g_thorough ? 2300 : 1300); n++) for (k = 0; k < 4; k++) {
		static const int ks[] = { J_JUMP, J_CBZ_T, J_EQ_N, J_FAST };
		if (!g_thorough && n > 40 && (n < 480 || n > 560) && (n < 1000 || n > 1060) && (n % 16) != k * 4) continue;
		if (!mine()) continue;
		al = (n % 5) == 1 ? SLJIT_LABEL_ALIGN_8 : (n % 5) == 3 ? SLJIT_LABEL_ALIGN_16 : 0; d = n & 1;
		begin(); put(T_STEP, 0, 0, 0, 1); put(T_MADDR, 0, 0, 0, 0); put(T_CONST, 0, 0, 0, 0)->w = 0x13572468;
		if (k == 3) { put(T_JMP, J_FAST, 0, 0, 0); put(T_MADDR, 1, 1, 0, 0); put(T_POOL, 0, 0, 0, n); put(T_JMP, J_JUMP, 1, 0, 0); put(T_FCB, 0, n % 5, 0, 0); put(T_LAB, 1, al, 0, 0); }
		else { put(T_JMP, ks[k], 0, d, 0); put(T_MADDR, 1, 1, 0, 0); put(T_POOL, 0, 0, 0, n); put(T_LAB, 1, al, 0, 0); put(T_MADDR, 0, 1, 0, 0); put(T_STEP, 0, 0, 0, 3); put(T_LAB, 0, 0, 0, 0); }
		put(T_STEP, 0, 0, 0, 2); put(T_MADDR, 0, 1, 1, 0); put(T_CONST, 0, 0, 0, 0)->w = 0x24681357; put(T_RET, 0, 0, 0, 0);
		go((uw)n * 64 + 65536);
	}
}
/* arbitrary addresses loaded by op_addr */
static void fam_values(void)
{
	int i, k, op, f; uw base = (uw)g_reg;
	for (i = 0; i < WBITS; i++) for (k = -3; k <= 3; k++) for (op = 0; op < 3; op++) for (f = 0; f < 6; f++) {
		uw v = ((uw)1 << i) + (uw)((f < 3 ? k : k * 4096));
		if (!g_thorough && f >= 3 && k == 0) continue;
		if (f % 3 == 1) v = (uw)0 - v; if (f % 3 == 2) v += base;
#if defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
		v &= ~(uw)1;
#endif
		if (!mine()) continue;
		begin(); put(T_STEP, 0, 0, 0, 1); put(T_MADDR, op, 0xff, (i + k + 3 + f) & 3, 0)->w = (sw)v; put(T_STEP, 0, 0, 0, 2); put(T_MADDR, op, 0xff, 0, 0)->w = (sw)~v & ~(sw)1; put(T_RET, 0, 0, 0, 0);
		go(65536);
	}
}
/* absolute targets: stub at a fixed place, code at a distance around every limit */
static const u64 dist64[] = { 1u << 12, 1u << 15, 1u << 16, 1u << 17, 1u << 18, 1u << 20, 1u << 21, 1u << 22, 1u << 23, 1u << 24, 1u << 25, 1u << 26, 1u << 27, 1u << 28, 1u << 31, 1ull << 32, 1ull << 33 };
enum { A_JUMP, A_COND, A_CBZ, A_FAST, A_CALL, A_IJUMP, A_IFAST, A_ICALL, A_RWJUMP, A_RWFAST, A_ADDR, A_IREG, A_N };
static const char *aname[] = { "jump", "eq", "cmp0", "fast_call", "call", "ijump imm", "ifast imm", "icall imm", "jump.rw", "fast_call.rw", "op_addr", "ijump reg" };
static void fam_abs(u64 base, int bi)
{
	u8 *tgt0 = map_at(base - (2u << 20), 4u << 20), *tgt = tgt0 ? tgt0 + (2u << 20) : NULL, *m; struct sljit_compiler *c; struct sljit_generate_code_buffer b; void *s_jump, *s_fast, *s_fun, *code; struct sljit_jump *j, *j2; uw used = 0, msz = 65536 * 2; int di, sg, k, st, i; sw r; uw e, ef;
	const int nd = (int)(sizeof(dist64) / 8);
	if (!tgt) { for (i = 0; i < nd * 2; i++) (void)mine(); if (g_idx % 8 == (u64)g_shard) n_unsup++; return; }
#define GEN(var) do { b.buffer = tgt + used; b.size = 65536 - used; b.executable_offset = 0; var = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b); used += (sljit_get_generated_code_size(c) + 63) & ~(uw)63; if (!var) die("stub"); sljit_free_compiler(c); } while (0)
	c = sljit_create_compiler(NULL); ctx(c); e_step(c, 91); sljit_emit_return(c, SLJIT_MOV, SLJIT_S0, 0); GEN(s_jump);
	c = sljit_create_compiler(NULL); ctx(c); sljit_emit_op_dst(c, SLJIT_FAST_ENTER, SLJIT_R2, 0); e_step(c, 92); sljit_emit_op_src(c, SLJIT_FAST_RETURN, SLJIT_R2, 0); GEN(s_fast);
	c = sljit_create_compiler(NULL); sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 2, 0, 0); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)&g_fh); sljit_emit_op2(c, SLJIT_MUL, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_R1), 0, SLJIT_IMM, 41); sljit_emit_op2(c, SLJIT_ADD, SLJIT_MEM1(SLJIT_R1), 0, SLJIT_R0, 0, SLJIT_IMM, 7); sljit_emit_return_void(c); GEN(s_fun);
	for (di = 0; di < nd; di++) for (sg = 0; sg < 2; sg++) {
		u64 want, lo; int span;
		if (!mine()) continue;
		g_cur = g_idx - 1;
		if (sg ? dist64[di] > base : 0) continue;
		want = sg ? base - dist64[di] : base + dist64[di];
		if (WB == 4 && (want >> 32)) continue;
		lo = (want & ~(u64)0xffff) - 65536;
		m = NULL;
		if (dist64[di] > (1u << 20)) { m = map_at(lo, msz); if (!m) { n_unsup++; continue; } }
		span = g_thorough ? 640 : 360; st = 4;
#if defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86
		st = g_thorough ? 1 : dist64[di] >= (1u << 31) ? 2 : 16;
#endif
		for (k = 0; k < A_N; k++) for (i = -span; i <= 64; i += st) {
			TICK(); g_cursub = (u64)(k * 4096 + i + 2048);
			snprintf(g_txt, sizeof(g_txt), "%s from %llx to a target at distance %s2^%d%+d ", aname[k], (unsigned long long)(want + (u64)(s64)i), sg ? "+" : "-", 63 - __builtin_clzll(dist64[di]), i); g_crash_txt = g_txt;
			g_phase = "compile"; c = sljit_create_compiler(NULL); sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4 | SLJIT_ENTER_FLOAT(3), 2, 32); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 5);
			e_step(c, 1); j = j2 = NULL; e = 0x1111 * 37 + 1; ef = 3; g_out[0] = 0;
			switch (k) {
			case A_JUMP: j = sljit_emit_jump(c, SLJIT_JUMP); break; case A_RWJUMP: j = sljit_emit_jump(c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP); break;
			case A_COND: sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_IMM, 5); j2 = sljit_emit_jump(c, SLJIT_NOT_EQUAL); sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_IMM, 5); j = sljit_emit_jump(c, SLJIT_EQUAL); break;
			case A_CBZ: j2 = sljit_emit_cmp(c, SLJIT_EQUAL, SLJIT_R0, 0, SLJIT_IMM, 0); j = sljit_emit_cmp(c, SLJIT_NOT_EQUAL, SLJIT_R0, 0, SLJIT_IMM, 0); break;
			case A_FAST: j = sljit_emit_jump(c, SLJIT_FAST_CALL); break; case A_RWFAST: j = sljit_emit_jump(c, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP); break;
			case A_CALL: j = sljit_emit_call(c, SLJIT_CALL, SLJIT_ARGS0V()); break;
			case A_IJUMP: sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_IMM, (sw)s_jump); break; case A_IFAST: sljit_emit_ijump(c, SLJIT_FAST_CALL, SLJIT_IMM, (sw)s_fast); break; case A_ICALL: sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, (sw)s_fun); break;
			case A_ADDR: j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, ABSM(g_out[0])); break;
			case A_IREG: j = sljit_emit_op_addr(c, SLJIT_MOV_ADDR, SLJIT_R3, 0); sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_R3, 0); break;
			}
			if (j) sljit_set_target(j, (uw)(k == A_FAST || k == A_RWFAST ? s_fast : k == A_CALL ? s_fun : s_jump)); if (j2) sljit_set_target(j2, (uw)s_jump);
			if (k == A_JUMP || k == A_RWJUMP || k == A_COND || k == A_CBZ || k == A_IJUMP || k == A_IREG) e = e * 37 + 91; else { if (k == A_FAST || k == A_RWFAST || k == A_IFAST) e = e * 37 + 92; if (k == A_CALL || k == A_ICALL) ef = ef * 41 + 7; e = e * 37 + 2; }
			e_step(c, 2); sljit_emit_return(c, SLJIT_MOV, SLJIT_S0, 0);
			b.buffer = (void *)(uw)((want + (u64)(s64)i)
#if defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
				& ~(u64)7 /* the pool of words follows the code */
#elif !(defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
				& ~(u64)3
#endif
				); b.size = 4096; b.executable_offset = 0; g_phase = "generate";
			code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b); if (!code) { bad("generate", "error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); continue; } sljit_free_compiler(c);
			n_progs++; n_runs++; n_steps += 3; n_states++; g_fh = 3; g_phase = "run";
			r = ((sw (SLJIT_FUNC *)(sw))code)(0x1111);
			if (r != (sw)e || g_fh != ef) bad("abs-path", "path hash %llx/%llx instead of %llx/%llx", (unsigned long long)(uw)r, (unsigned long long)g_fh, (unsigned long long)e, (unsigned long long)ef);
			if (k == A_ADDR && g_out[0] != (sw)s_jump) bad("abs-value", "address %llx instead of %llx", (unsigned long long)(uw)g_out[0], (unsigned long long)(uw)s_jump);
		}
		if (m) munmap(m, msz);
	}
	munmap(tgt0, 4u << 20); (void)bi;
}
/* return address of the current function lies between the labels around the call */
static void fam_ret(void)
{
	int f, l, s; static const int lo[] = { 0, 8, 64, 504, 4088, 32760, 65544 };
	for (f = 0; f < 5; f++) for (l = 0; l < 7; l++) for (s = 0; s <= 3; s++) {
		struct sljit_compiler *c; struct sljit_label *a, *b2, *fn; struct sljit_jump *j; void *code; struct sljit_generate_code_buffer b; uw la, lb; s32 t; sw w;
		if (!mine()) continue;
		g_cur = g_idx - 1; snprintf(g_txt, sizeof(g_txt), "get_return_address form %d local %d saved %d ", f, lo[l], s); g_crash_txt = g_txt;
		c = sljit_create_compiler(NULL); sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4, 2, 0); a = sljit_emit_label(c); j = sljit_emit_call(c, SLJIT_CALL, SLJIT_ARGS0V()); b2 = sljit_emit_label(c); sljit_emit_return(c, SLJIT_MOV, SLJIT_IMM, 1);
		fn = sljit_emit_label(c); sljit_set_label(j, fn); sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 4 | (s & 1 ? SLJIT_ENTER_FLOAT(2) : 0), s, lo[l] + 16);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)g_mem);
		switch (f) { case 0: t = SLJIT_R0; w = 0; break; case 1: t = SLJIT_R2; w = 0; break; case 2: t = SLJIT_MEM1(SLJIT_SP); w = 8; break; case 3: t = SLJIT_MEM1(SLJIT_R1); w = 4 * WB; break; default: t = SLJIT_MEM0(); w = (sw)&g_mem[6]; }
		sljit_emit_op_dst(c, SLJIT_GET_RETURN_ADDRESS, t, w); sljit_emit_op1(c, SLJIT_MOV, ABSM(g_out[0]), t, w); sljit_emit_return_void(c);
		g_pos = (g_pos + 63) & ~(uw)63; if (g_regsz - g_pos < 65536) g_pos = 0; b.buffer = g_reg + g_pos; b.size = g_regsz - g_pos; b.executable_offset = 0;
		g_phase = "generate"; code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b); if (!code) { bad("generate", "error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); continue; }
		g_pos += sljit_get_generated_code_size(c); la = ABSA(sljit_get_label_addr(a)); lb = ABSA(sljit_get_label_addr(b2)); sljit_free_compiler(c);
		g_out[0] = 0; g_phase = "run"; n_progs++; n_runs++; n_states++; n_steps += 2; ((sw (SLJIT_FUNC *)(sw))code)(0);
		if (ABSA((uw)g_out[0]) <= la || ABSA((uw)g_out[0]) > lb) bad("return-address", "return address %llx is not in (%llx, %llx]", (unsigned long long)(uw)g_out[0], (unsigned long long)la, (unsigned long long)lb);
	}
}
int main(int argc, char **argv)
{
	static const u64 bases[] = { 0x20000000u, 0x80000000u, 0x1234560000ull, 0x200000000000ull };
	int i;
	parse_args(argc, argv); g_suite = "jump";
	if (!region(0, 24u << 20, 0)) die("region");
	fam_ret();
	fam_seq(g_thorough ? 4 : 3, 1, 0); if (!g_thorough) fam_seq(4, 9, (int)(g_seed % 9));
	fam_pool(); fam_values(); fam_dist(); fam_two();
	{ int bigneed = 0; for (i = 0; big[i]; i++) if (big[i] > bigneed && (g_thorough || big[i] <= 1 << 24)) bigneed = big[i]; if (bigneed) { region(0, (uw)bigneed + (4u << 20), 0); fam_big(); } }
	/* separate writable and executable mappings */
	for (i = 0; i < 4; i++) {
		static const sw offs[] = { 0x1000000, -0x1000000, 0x4001000, (sw)0x1f0000000ll };
		if (WB == 4 && i == 3) break;
		if (region((uw)0x30000000, 8u << 20, offs[i])) { fam_seq(2, 1, 0); fam_seq(3, g_thorough ? 2 : 5, i); { int n, k, d; for (n = win_lo(lims[0]); n <= win_hi(lims[0]); n++) for (k = 0; k < J_N; k++) for (d = 0; d < 2; d++) { if (lims[0] > 40000 && !g_thorough && (n + k) % 6 != i) continue; if (!mine()) continue; if (d) lay_back(k, 0, n, 0); else lay_fwd(k, 0, n, 0); go((uw)lims[0] * 2 + 65536); } } fam_values(); }
		else n_unsup++;
	}
	region(0, 1 << 20, 0);
	for (i = 0; i < 4; i++) if (WB == 8 || !(bases[i] >> 32)) fam_abs(bases[i], i);
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
