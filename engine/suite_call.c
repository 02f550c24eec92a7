/* P06: entries, returns and calls. Every program is a small set of generated functions plus C functions of the same type. */
#include "eng.h"
#include "csig.h"
#define KEPT(o) ((o) & 3)

/* ---------------------------------------------------------------- signatures */
/* argument kinds: 0 W, 1 32, 2 F64, 3 F32, 4 P; +8: scratch register variant. return kinds: 0 void, 1 W, 2 32, 3 F64, 4 F32, 5 P */
typedef struct { int n, r; int k[4]; } fsig_t;
static const int ty_arg[] = { SLJIT_ARG_TYPE_W, SLJIT_ARG_TYPE_32, SLJIT_ARG_TYPE_F64, SLJIT_ARG_TYPE_F32, SLJIT_ARG_TYPE_P };
static const int ty_ret[] = { SLJIT_ARG_TYPE_RET_VOID, SLJIT_ARG_TYPE_W, SLJIT_ARG_TYPE_32, SLJIT_ARG_TYPE_F64, SLJIT_ARG_TYPE_F32, SLJIT_ARG_TYPE_P };
static s32 sig_types(const fsig_t *s, int keep_r)
{
	s32 t = ty_ret[s->r]; int i;
	for (i = 0; i < s->n; i++) t |= (s32)(ty_arg[s->k[i] & 7] | (keep_r && (s->k[i] & 8) ? SLJIT_ARG_TYPE_SCRATCH_REG : 0)) << (SLJIT_ARG_SHIFT * (i + 1));
	return t;
}
static const csig_t *sig_c(const fsig_t *s) { int k[4], i; for (i = 0; i < s->n; i++) k[i] = (s->k[i] & 7) == 4 ? 0 : s->k[i] & 7; return &csig[s->r == 5 ? 1 : s->r][csig_index(s->n, k)]; }
static int is_w(int k) { return (k & 7) < 2 || (k & 7) == 4; }
static int n_saved(const fsig_t *s) { int i, n = 0; for (i = 0; i < s->n; i++) if (is_w(s->k[i]) && !(s->k[i] & 8)) n++; return n; }
static int n_scr(const fsig_t *s) { int i, n = 0, m = 0; for (i = 0; i < s->n; i++) if (is_w(s->k[i])) { n++; if (s->k[i] & 8) m = n; } return m; }
static int n_word(const fsig_t *s) { int i, n = 0; for (i = 0; i < s->n; i++) if (is_w(s->k[i])) n++; return n; }
static int n_flt(const fsig_t *s) { return s->n - n_word(s); }
static char *sig_text(char *o, const fsig_t *s)
{
	static const char *rn[] = { "void", "w", "32", "f64", "f32", "p" }, *an[] = { "w", "32", "f64", "f32", "p" }; int i;
	o += sprintf(o, "%s(", rn[s->r]);
	for (i = 0; i < s->n; i++) o += sprintf(o, "%s%s%s", i ? "," : "", an[s->k[i] & 7], s->k[i] & 8 ? "_r" : "");
	return o + sprintf(o, ")");
}
/* arg list number i of the base-`b` enumeration (all lengths) */
static int sig_dec(int i, int b, fsig_t *s)
{
	int n, c = 1;
	for (n = 0; n <= 4; n++) { if (i < c) break; i -= c; c *= b; }
	if (n > 4) return 0;
	s->n = n; for (c = n - 1; c >= 0; c--) { s->k[c] = i % b; i /= b; }
	return 1;
}
static const int k8[] = { 0, 1, 2, 3, 4, 8, 9, 12 };
static int sig_dec8(int i, fsig_t *s) { int j; if (!sig_dec(i, 8, s)) return 0; for (j = 0; j < s->n; j++) s->k[j] = k8[s->k[j]]; return 1; }
static int sig_dec5(int i, fsig_t *s) { return sig_dec(i, 5, s); }

/* ---------------------------------------------------------------- recorded state */
static struct {
	sw aw[4]; double ad[4]; float af[4]; s32 ai[4];
	sw lb, size, sav[32]; double fsav[32];
	sw osav[32]; double ofsav[32]; sw oloc[8], olb, mark, klen; sw kin[4];
	sw rw; s32 ri; double rd; float rf;
	sw tgt, tgt2;
} g_r;
static double g_gar[40];
static sw g_ll; /* local size the C helpers work on */
static int g_local_bad;
#define ABS(p) SLJIT_MEM0(), (sw)&(p)
#define LW(i) ((sw)(0x7100000 + (i) * 0x101))
static void h_fill(void)
{
	sw i; u8 *p = (u8 *)g_r.lb; chk_align(); g_called++;
	if (g_ll >= WB) {
		sw a, b; memcpy(&a, p, (size_t)WB); memcpy(&b, p + ((g_ll - WB) & ~(sw)(WB - 1)), (size_t)WB);
		if (g_ll >= 2 * WB && a != LW(1)) g_local_bad |= 1; if (b != LW(2)) g_local_bad |= 2;
	}
	if (g_ll) for (i = 0; i < g_ll; i++) p[i] = (u8)(i * 7 + (i >> 8) + 3);
	clobber_all();
}
static void h_check(void)
{
	sw i; u8 *p = (u8 *)g_r.lb; chk_align(); clobber_all(); g_called++;
	if (g_ll) for (i = 0; i < g_ll; i++) if (p[i] != (u8)(i * 7 + (i >> 8) + 3)) { g_local_bad |= 4; break; }
}
typedef struct { int opt, scr, sav, fscr, fsav, local; } fr_t;
static void enter(struct sljit_compiler *c, s32 types, const fr_t *f)
{
	sljit_emit_enter(c, f->opt, types, f->scr | SLJIT_ENTER_FLOAT(f->fscr), f->sav | SLJIT_ENTER_FLOAT(f->fsav), f->local);
}
static s32 op_for(int k) { return (k & 7) == 1 ? SLJIT_MOV32 : (k & 7) == 4 ? SLJIT_MOV_P : SLJIT_MOV; }
static void store_args(struct sljit_compiler *c, const fsig_t *s)
{
	int i, si = 0, wi = 0, fi = 0;
	for (i = 0; i < s->n; i++) {
		int k = s->k[i], r;
		if (is_w(k)) {
			if (k & 8) r = SLJIT_R(wi); else r = SLJIT_S(si++);
			wi++;
			if ((k & 7) == 1) sljit_emit_op1(c, SLJIT_MOV32, ABS(g_r.ai[i]), r, 0); else sljit_emit_op1(c, op_for(k), ABS(g_r.aw[i]), r, 0);
		} else if ((k & 7) == 2) sljit_emit_fop1(c, SLJIT_MOV_F64, ABS(g_r.ad[i]), SLJIT_FR(fi), 0), fi++;
		else sljit_emit_fop1(c, SLJIT_MOV_F32, ABS(g_r.af[i]), SLJIT_FR(fi), 0), fi++;
	}
}
static void load_args(struct sljit_compiler *c, const fsig_t *s)
{
	int i, wi = 0, fi = 0;
	for (i = 0; i < s->n; i++) {
		int k = s->k[i];
		if (is_w(k)) { if ((k & 7) == 1) sljit_emit_op1(c, SLJIT_MOV32, SLJIT_R(wi), 0, SLJIT_MEM0(), (sw)&g_arg.i[i]); else sljit_emit_op1(c, op_for(k), SLJIT_R(wi), 0, SLJIT_MEM0(), (sw)&g_arg.w[i]); wi++; }
		else if ((k & 7) == 2) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR(fi), 0, SLJIT_MEM0(), (sw)&g_arg.d[i]), fi++;
		else sljit_emit_fop1(c, SLJIT_MOV_F32, SLJIT_FR(fi), 0, SLJIT_MEM0(), (sw)&g_arg.f[i]), fi++;
	}
}
static void emit_ret(struct sljit_compiler *c, int r)
{
	switch (r) {
	case 0: sljit_emit_return_void(c); break;
	case 1: sljit_emit_return(c, SLJIT_MOV, SLJIT_MEM0(), (sw)&g_rv.w); break;
	case 2: sljit_emit_return(c, SLJIT_MOV32, SLJIT_MEM0(), (sw)&g_rv.i); break;
	case 3: sljit_emit_return(c, SLJIT_MOV_F64, SLJIT_MEM0(), (sw)&g_rv.d); break;
	case 4: sljit_emit_return(c, SLJIT_MOV_F32, SLJIT_MEM0(), (sw)&g_rv.f); break;
	case 5: sljit_emit_return(c, SLJIT_MOV_P, SLJIT_MEM0(), (sw)&g_rv.w); break;
	}
}
static void save_ret(struct sljit_compiler *c, int r)
{
	switch (r) {
	case 1: sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.rw), SLJIT_RETURN_REG, 0); break;
	case 2: sljit_emit_op1(c, SLJIT_MOV32, ABS(g_r.ri), SLJIT_RETURN_REG, 0); break;
	case 3: sljit_emit_fop1(c, SLJIT_MOV_F64, ABS(g_r.rd), SLJIT_RETURN_FREG, 0); break;
	case 4: sljit_emit_fop1(c, SLJIT_MOV_F32, ABS(g_r.rf), SLJIT_RETURN_FREG, 0); break;
	case 5: sljit_emit_op1(c, SLJIT_MOV_P, ABS(g_r.rw), SLJIT_RETURN_REG, 0); break;
	}
}
#define SENT(i) ((sw)0x5e570000 + (i) * 0x123)
#define ISENT(i) ((sw)0x13570000 + (i) * 0x321)
#define KSENT(i) ((sw)0x2b110000 + (i) * 0x211)
/* the body of an entered function: records its arguments, uses every register and the whole local area */
static void inner(struct sljit_compiler *c, const fsig_t *s, const fr_t *f, int helpers)
{
	int i, kept = KEPT(f->opt);
	enter(c, sig_types(s, 1), f);
	store_args(c, s);
	for (i = 0; i < kept; i++) sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.kin[i]), SLJIT_S(i), 0);
	if (f->local) sljit_get_local_base(c, ABS(g_r.lb), 0);
	if (f->local >= 2 * WB) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_IMM, LW(1));
	if (f->local >= WB) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), (f->local - WB) & ~(WB - 1), SLJIT_IMM, LW(2));
	for (i = 0; i < f->scr; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(i), 0, SLJIT_IMM, ISENT(40 + i));
	for (i = 0; i < f->sav; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, ISENT(i));
	for (i = 0; i < f->fscr; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR(i), 0, ABS(g_gar[i]));
	for (i = 0; i < f->fsav; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FS(i), 0, ABS(g_gar[39 - i]));
	if (helpers) {
		sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, SLJIT_FUNC_ADDR(h_fill));
		sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, SLJIT_FUNC_ADDR(h_check));
	}
	for (i = 0; i < f->sav; i++) sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.sav[i]), SLJIT_S(i), 0);
	for (i = 0; i < f->fsav; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, ABS(g_r.fsav[i]), SLJIT_FS(i), 0);
	for (i = 0; i < kept; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, KSENT(i));
	emit_ret(c, s->r);
}
static int o_sav, o_scr, o_fsav, o_fscr; /* register sets of the calling function */
static void outer_begin(struct sljit_compiler *c, int local)
{
	int i; fr_t f; f.opt = 0; f.scr = o_scr; f.sav = o_sav; f.fscr = o_fscr; f.fsav = o_fsav; f.local = local < 32 ? 32 : local;
	enter(c, SLJIT_ARGS0V(), &f);
	for (i = 0; i < o_sav; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, SENT(i));
	for (i = 0; i < o_fsav; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FS(i), 0, ABS(g_gar[20 + i]));
	for (i = 0; i < 32 / WB && i < 4; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), i * WB, SLJIT_IMM, SENT(100 + i));
	sljit_get_local_base(c, ABS(g_r.olb), 0);
}
static void outer_end(struct sljit_compiler *c)
{
	int i;
	for (i = 0; i < o_sav; i++) sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.osav[i]), SLJIT_S(i), 0);
	for (i = 0; i < o_fsav; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, ABS(g_r.ofsav[i]), SLJIT_FS(i), 0);
	for (i = 0; i < 4; i++) sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.oloc[i]), SLJIT_MEM1(SLJIT_SP), i * WB);
	sljit_emit_return_void(c);
}
static int gen_err;
static void *gen(struct sljit_compiler *c)
{
	void *p; g_phase = "generate"; p = arena_gen(c);
	if (!p) gen_err = sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -98;
	if (g_dump) { FILE *fd = fopen("/tmp/eng_dump.bin", "wb"); fwrite(g_arena, 1, g_apos, fd); fclose(fd); { void *bt = p; printf("code %p\n", bt); }; fflush(stdout); }
	return p;
}
static void reset(int salt)
{
	int i; sw b = (sw)0x4d21000000000000ull ^ (sw)0x11223344 ^ (sw)salt * 0x01010101;
	memset(&g_r, 0xa5, sizeof(g_r)); memset((void *)&g_got, 0x5a, sizeof(g_got)); memset((void *)&g_res, 0x33, sizeof(g_res)); g_called = g_bad_align = g_pressure_bad = 0; g_local_bad = 0;
	for (i = 0; i < 4; i++) { g_arg.w[i] = b + i * (sw)0x10203; g_arg.i[i] = (s32)(0x8765432 + i * 0x31415 + salt) * (i & 1 ? -1 : 1); g_arg.d[i] = 1.5 + i * 100.25 + salt; g_arg.f[i] = -7.25f + (float)i * 33.5f + (float)(salt & 255); }
	g_rv.w = b ^ 0x5555; g_rv.i = -1234567 - salt; g_rv.d = -99.125 - salt; g_rv.f = 44.75f;
	g_ll = 0;
}
static char m_txt[1000];
static void bad(const char *key, const char *fmt, ...)
{
	char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	violation(g_cur, key, "%s | %s", m_txt, b);
}
static int cmp_args(const char *key, const fsig_t *s, int from_c)
{
	int i;
	for (i = 0; i < s->n; i++) {
		int k = s->k[i] & 7;
		if (k == 0 || k == 4) { sw v = from_c ? g_got.w[i] : g_r.aw[i]; if (v != g_arg.w[i]) { bad(key, "argument %d is 0x%llx instead of 0x%llx", i, (unsigned long long)(uw)v, (unsigned long long)(uw)g_arg.w[i]); return 1; } }
		if (k == 1) { s32 v = from_c ? g_got.i[i] : g_r.ai[i]; if (v != g_arg.i[i]) { bad(key, "32 bit argument %d is 0x%x instead of 0x%x", i, v, g_arg.i[i]); return 1; } }
		if (k == 2) { double v = from_c ? g_got.d[i] : g_r.ad[i]; if (v != g_arg.d[i]) { bad(key, "f64 argument %d is %g instead of %g", i, v, g_arg.d[i]); return 1; } }
		if (k == 3) { float v = from_c ? g_got.f[i] : g_r.af[i]; if (v != g_arg.f[i]) { bad(key, "f32 argument %d is %g instead of %g", i, v, g_arg.f[i]); return 1; } }
	}
	return 0;
}
static int cmp_ret(const char *key, int r, int to_c)
{
	switch (r) {
	case 1: case 5: { sw v = to_c ? g_res.w : g_r.rw; if (v != g_rv.w) { bad(key, "result 0x%llx instead of 0x%llx", (unsigned long long)(uw)v, (unsigned long long)(uw)g_rv.w); return 1; } break; }
	case 2: { s32 v = to_c ? g_res.i : g_r.ri; if (v != g_rv.i) { bad(key, "32 bit result 0x%x instead of 0x%x", v, g_rv.i); return 1; } break; }
	case 3: { double v = to_c ? g_res.d : g_r.rd; if (v != g_rv.d) { bad(key, "f64 result %g instead of %g", v, g_rv.d); return 1; } break; }
	case 4: { float v = to_c ? g_res.f : g_r.rf; if (v != g_rv.f) { bad(key, "f32 result %g instead of %g", v, g_rv.f); return 1; } break; }
	}
	return 0;
}
static int cmp_inner(const char *key, const fr_t *f)
{
	int i;
	if (g_local_bad) { bad(key, "local area (%s%s%s)", g_local_bad & 1 ? "first word not at the local base " : "", g_local_bad & 2 ? "last word not at its place " : "", g_local_bad & 4 ? "overwritten while the function was active" : ""); return 1; }
	if (g_bad_align) { bad(key, "stack is not aligned in a called C function"); return 1; }
	for (i = 0; i < f->sav; i++) if (g_r.sav[i] != ISENT(i)) { bad(key, "S%d of the function is 0x%llx instead of 0x%llx after a call", i, (unsigned long long)(uw)g_r.sav[i], (unsigned long long)(uw)ISENT(i)); return 1; }
	for (i = 0; i < f->fsav; i++) if (g_r.fsav[i] != g_gar[39 - i]) { bad(key, "FS%d of the function lost its value after a call", i); return 1; }
	if (f->local && (g_r.lb & (WB - 1))) { bad(key, "local base 0x%llx", (unsigned long long)(uw)g_r.lb); return 1; }
	return 0;
}
static int cmp_outer(const char *key, int kept)
{
	int i;
	if (g_bad_align) { bad(key, "stack is not aligned in a called C function"); return 1; }
	for (i = 0; i < o_sav; i++) { sw e = i < kept ? KSENT(i) : SENT(i); if (g_r.osav[i] != e) { bad(key, "S%d of the caller is 0x%llx instead of 0x%llx", i, (unsigned long long)(uw)g_r.osav[i], (unsigned long long)(uw)e); return 1; } }
	for (i = 0; i < o_fsav; i++) if (g_r.ofsav[i] != g_gar[20 + i]) { bad(key, "FS%d of the caller is %g instead of %g", i, g_r.ofsav[i], g_gar[20 + i]); return 1; }
	for (i = 0; i < 4; i++) if (g_r.oloc[i] != SENT(100 + i)) { bad(key, "local word %d of the caller is 0x%llx instead of 0x%llx", i, (unsigned long long)(uw)g_r.oloc[i], (unsigned long long)(uw)SENT(100 + i)); return 1; }
	return 0;
}
static u64 h_state(void) { u64 h = 1469598103934665603ull; const u8 *p = (const u8 *)&g_r; unsigned i; for (i = 0; i < sizeof(g_r); i++) h = (h ^ p[i]) * 0x100000001b3ull; return h; }
static void done_run(void) { n_runs++; n_states++; n_steps += 3; (void)h_state; }
static void begin(void) { TICK(); g_cur = g_idx - 1; gen_err = 0; g_apos = 0; g_phase = "compile"; if (g_deadline_s > 0 && (n_progs & 63) == 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); } n_progs++; }
static void sample(void) { if (g_nsamples < 3 && n_progs % 977 == 1) strncpy(g_samples[g_nsamples++], m_txt, 600); }
static char *fr_text(char *o, const fr_t *f) { return o + sprintf(o, " scratches=%d saveds=%d fscratches=%d fsaveds=%d local_size=%d%s", f->scr, f->sav, f->fscr, f->fsav, f->local, f->opt ? " reg_arg" : ""); }
static int fr_ok(const fr_t *f) { return f->scr >= 0 && f->sav >= 0 && f->scr + f->sav <= NR && f->sav <= SLJIT_NUMBER_OF_SAVED_REGISTERS && f->fscr >= 0 && f->fsav >= 0 && f->fsav <= SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS && f->fscr + f->fsav <= NF && f->local >= 0 && f->local <= SLJIT_MAX_LOCAL_SIZE; }

/* (1) a generated function entered from C, and from a generated caller whose saved registers are watched */
static void do_entry(const fsig_t *s, const fr_t *f0)
{
	struct sljit_compiler *c; void *fi, *fo; fr_t f = *f0; const csig_t *cs = sig_c(s);
	if (f.scr < n_scr(s) || f.sav < n_saved(s) || f.fscr < n_flt(s)) return;
	if (s->r && !f.scr && s->r != 3 && s->r != 4) return;
	if ((s->r == 3 || s->r == 4) && !f.fscr) return;
	if (!fr_ok(&f)) return;
	begin(); fr_text(sig_text(m_txt, s), &f);
	c = sljit_create_compiler(NULL); inner(c, s, &f, 1); fi = gen(c); sljit_free_compiler(c);
	if (!fi) { bad("entry-compile", "error %d", gen_err); return; }
	sample();
	reset((int)(g_cur & 63)); g_ll = f.local; g_phase = "run";
	call_pressure(cs->call, fi); done_run();
	if (g_called != 2) { bad("entry", "function body not executed"); return; }
	if (cmp_args("entry", s, 0) || cmp_inner("entry", &f) || cmp_ret("entry", s->r, 1)) return;
	if (g_pressure_bad) { bad("entry-saved", "a callee saved %s register of the C caller is not preserved", g_pressure_bad == 1 ? "integer" : "floating point"); return; }
	g_phase = "compile";
	c = sljit_create_compiler(NULL); outer_begin(c, (int)(g_cur % 7) * 8); load_args(c, s);
	sljit_emit_icall(c, SLJIT_CALL, sig_types(s, 0), SLJIT_IMM, (sw)fi); save_ret(c, s->r); outer_end(c); fo = gen(c); sljit_free_compiler(c);
	if (!fo) { bad("call-compile", "error %d", gen_err); return; }
	reset((int)(g_cur & 63)); g_ll = f.local; g_phase = "run";
	direct_v(fo); done_run();
	if (cmp_args("call-generated", s, 0) || cmp_inner("call-generated", &f) || cmp_ret("call-generated", s->r, 0) || cmp_outer("call-generated", 0)) return;
}
/* (2) calls of C functions: kinds and target forms */
enum { F_IMM, F_REG, F_REG_S, F_MEM_SP, F_MEM_S, F_MEM0, F_MEM2, F_TARGET, F_REWR, F_N };
static const char *form_name[] = { "imm", "reg", "saved reg", "[sp]", "[saved]", "[abs]", "[saved+scratch]", "set_target", "rewritable" };
static int emit_the_call(struct sljit_compiler *c, int form, s32 type, s32 types, void *fn, int nw)
{
	struct sljit_jump *j; int r = SLJIT_R(nw);
	g_r.tgt = (sw)fn;
#if defined(__i386__)
	if (form == F_MEM2 && nw >= 3) form = F_MEM_S; /* R3 and above cannot be part of an address here */
#endif
	switch (form) {
	case F_IMM: return sljit_emit_icall(c, type, types, SLJIT_IMM, (sw)fn);
	case F_REG: sljit_emit_op1(c, SLJIT_MOV, r, 0, SLJIT_IMM, (sw)fn); return sljit_emit_icall(c, type, types, r, 0);
	case F_REG_S: sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sw)fn); return sljit_emit_icall(c, type, types, SLJIT_S0, 0);
	case F_MEM_SP: sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 2 * WB, SLJIT_IMM, (sw)fn); return sljit_emit_icall(c, type, types, SLJIT_MEM1(SLJIT_SP), 2 * WB);
	case F_MEM_S: sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sw)&g_r); return sljit_emit_icall(c, type, types, SLJIT_MEM1(SLJIT_S0), (sw)((u8 *)&g_r.tgt - (u8 *)&g_r));
	case F_MEM0: return sljit_emit_icall(c, type, types, SLJIT_MEM0(), (sw)&g_r.tgt);
	case F_MEM2: sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sw)&g_r.tgt - 4 * WB); sljit_emit_op1(c, SLJIT_MOV, r, 0, SLJIT_IMM, 4); return sljit_emit_icall(c, type, types, SLJIT_MEM2(SLJIT_S0, r), WB == 8 ? 3 : 2);
	case F_TARGET: j = sljit_emit_call(c, type, types); if (!j) return sljit_get_compiler_error(c); sljit_set_target(j, (uw)fn); return 0;
	case F_REWR: j = sljit_emit_call(c, type | SLJIT_REWRITABLE_JUMP, types); if (!j) return sljit_get_compiler_error(c); sljit_set_target(j, (uw)fn); return 0;
	}
	return 0;
}
static void *fn_addr(void *f) { return (void *)SLJIT_FUNC_UADDR(f); }
static void do_ccall(const fsig_t *s, int form, int local)
{
	struct sljit_compiler *c; void *fo; const csig_t *cs = sig_c(s); int kept; sw e;
	begin(); { char *o = sig_text(m_txt, s); sprintf(o, " call of a C function, target %s, caller local_size=%d", form_name[form], local < 32 ? 32 : local); }
	reset((int)(g_cur & 63));
	c = sljit_create_compiler(NULL); outer_begin(c, local); load_args(c, s);
	e = emit_the_call(c, form, SLJIT_CALL, sig_types(s, 0), (void *)fn_addr(cs->callee), n_word(s));
	save_ret(c, s->r); outer_end(c); fo = gen(c); sljit_free_compiler(c);
	if (!fo) { bad("ccall-compile", "error %d", gen_err); return; }
	sample(); (void)e;
	{ sw t = g_r.tgt; reset((int)(g_cur & 63)); g_r.tgt = t; } g_phase = "run";
	direct_v(fo); done_run();
	kept = 0;
	if (g_called != 1) { bad("ccall", "the function was called %d times", (int)g_called); return; }
	if (form == F_REG_S || form == F_MEM_S || form == F_MEM2) g_r.osav[0] = SENT(0);
	if (form == F_MEM_SP) g_r.oloc[2] = SENT(102);
	if (cmp_args("ccall", s, 1) || cmp_ret("ccall", s->r, 0) || cmp_outer("ccall", kept)) return;
}
/* (3) tail calls: caller -> middle function (entered with signature A) -> C function with signature B */
static void do_tail(const fsig_t *a, const fsig_t *b, int form, const fr_t *f0, int jit_target)
{
	struct sljit_compiler *c; void *fm, *fo, *ft; fr_t f = *f0; const csig_t *cs = sig_c(b); int i, nw = n_word(b);
	if (f.sav < n_saved(a) || f.scr < n_scr(a) || f.fscr < n_flt(a)) return;
	if (f.scr < nw + 1) f.scr = nw + 1; if (f.fscr < n_flt(b)) f.fscr = n_flt(b); if (f.scr < 1) f.scr = 1; if (f.fscr < 1) f.fscr = 1; if (f.sav < 1) f.sav = 1;
	if (form == F_MEM_SP && f.local < 3 * WB) f.local = 3 * WB;
	if (!fr_ok(&f)) return;
	begin(); { char *o = sig_text(m_txt, a); o = fr_text(o, &f); o += sprintf(o, " tail calls "); o = sig_text(o, b); sprintf(o, " %s target %s", jit_target ? "generated" : "C", form_name[form]); }
	reset((int)(g_cur & 63));
	ft = fn_addr(cs->callee);
	if (jit_target) { fr_t g; g.opt = 0; g.scr = 3; g.sav = n_saved(b) > 2 ? n_saved(b) : 2; g.fscr = 4; g.fsav = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS ? 1 : 0; g.local = 40; if (g.scr < n_scr(b)) g.scr = n_scr(b);
		c = sljit_create_compiler(NULL); inner(c, b, &g, 0); ft = gen(c); sljit_free_compiler(c); if (!ft) { bad("tail-compile", "error %d", gen_err); return; } }
	g_phase = "compile";
	c = sljit_create_compiler(NULL); enter(c, sig_types(a, 1), &f);
	for (i = 0; i < f.scr; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(i), 0, SLJIT_IMM, ISENT(40 + i));
	for (i = 0; i < f.sav; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, ISENT(i));
	for (i = 0; i < f.fscr; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR(i), 0, ABS(g_gar[i]));
	for (i = 0; i < f.fsav; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FS(i), 0, ABS(g_gar[39 - i]));
	load_args(c, b);
	emit_the_call(c, form, SLJIT_CALL | SLJIT_CALL_RETURN, sig_types(b, 0), ft, nw);
	fm = gen(c); sljit_free_compiler(c);
	if (!fm) { bad("tail-compile", "error %d", gen_err); return; }
	c = sljit_create_compiler(NULL); outer_begin(c, (int)(g_cur % 5) * 16); load_args(c, a);
	sljit_emit_icall(c, SLJIT_CALL, sig_types(a, 0), SLJIT_IMM, (sw)fm); save_ret(c, a->r); outer_end(c); fo = gen(c); sljit_free_compiler(c);
	if (!fo) { bad("tail-compile", "error %d", gen_err); return; }
	sample();
	{ sw t = g_r.tgt; reset((int)(g_cur & 63)); g_r.tgt = t; } g_phase = "run";
	direct_v(fo); done_run();
	if (!jit_target && g_called != 1) { bad("tail", "the function was called %d times", (int)g_called); return; }
	if (cmp_args("tail", b, !jit_target) || cmp_ret("tail", a->r, 0) || cmp_outer("tail", 0)) return;
	{ sw t = g_r.tgt; reset((int)(g_cur & 63)); g_r.tgt = t; }
	call_pressure(sig_c(a)->call, fm); done_run();
	if (cmp_args("tail", b, !jit_target) || cmp_ret("tail", a->r, 1)) return;
	if (g_pressure_bad) bad("tail-saved", "a callee saved register of the C caller is not preserved");
}
/* (4) register argument convention: caller -> [middle ->] function, kept saved registers */
enum { G_LABEL_F, G_LABEL_B, G_IMM, G_REG, G_MEM, G_TARGET, G_N };
static const char *gform[] = { "forward label", "backward label", "imm", "reg", "[sp]", "set_target" };
static void reg_call(struct sljit_compiler *c, int form, s32 type, s32 types, void *fn, struct sljit_label *lb, struct sljit_jump **fw, int nw)
{
	struct sljit_jump *j;
	switch (form) {
	case G_LABEL_F: case G_LABEL_B: case G_TARGET: j = sljit_emit_call(c, type, types); if (!j) return; if (form == G_LABEL_F) *fw = j; else if (form == G_LABEL_B) sljit_set_label(j, lb); else sljit_set_target(j, (uw)fn); break;
	case G_IMM: sljit_emit_icall(c, type, types, SLJIT_IMM, (sw)fn); break;
	case G_REG: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(nw), 0, SLJIT_IMM, (sw)fn); sljit_emit_icall(c, type, types, SLJIT_R(nw), 0); break;
	case G_MEM: sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 16, SLJIT_IMM, (sw)fn); sljit_emit_icall(c, type, types, SLJIT_MEM1(SLJIT_SP), 16); break;
	}
}
/* kind: 0 CALL_REG_ARG to a reg_arg function; 1 through a reg_arg middle function by a tail call; 2 plain SLJIT_CALL to a label in the same code; 3 middle reg_arg function making a normal reg_arg call */
static void do_regarg(const fsig_t *s, int kind, int form, const fr_t *f0, const fr_t *m0)
{
	struct sljit_compiler *c, *cx; struct sljit_label *li = NULL, *lm = NULL, *lo = NULL; struct sljit_jump *fw = NULL, *fw2 = NULL; void *fo, *fi = NULL, *fm = NULL; fr_t f = *f0, m = *m0; int i, nw = n_word(s), kept, km; fsig_t a; s32 ctype, types = sig_types(s, 0);
	int sep = form == G_IMM || form == G_REG || form == G_MEM || form == G_TARGET;
	if (kind == 2) f.opt = 0;
	if (f.opt && n_saved(s)) return;
	if (f.scr < n_scr(s) || f.sav < n_saved(s) || f.fscr < n_flt(s)) return;
	if (s->r && !f.scr) f.scr = 1; if ((s->r == 3 || s->r == 4) && !f.fscr) f.fscr = 1;
	if (m.scr < nw + 1) m.scr = nw + 1; if (m.fscr < n_flt(s)) m.fscr = n_flt(s); if (m.fscr < 1) m.fscr = 1; if (m.local < 16 + WB) m.local = 16 + WB;
	if (!fr_ok(&f) || !fr_ok(&m)) return;
	if (KEPT(f.opt) > f.sav || KEPT(m.opt) > m.sav) return;
	kept = KEPT(f.opt); km = KEPT(m.opt);
	if (kind == 3 && kept > m.sav) return; /* a caller has to own the registers its callee keeps */
	ctype = kind == 2 ? SLJIT_CALL : SLJIT_CALL_REG_ARG;
	a = *s; a.n = 0;
	begin(); { char *o = sig_text(m_txt, s); o = fr_text(o, &f); o += sprintf(o, " keep=%d kind=%d by %s", kept, kind, gform[form]); if (kind == 1 || kind == 3) { o += sprintf(o, " middle:"); o = fr_text(o, &m); sprintf(o, " keep=%d", km); } }
	reset((int)(g_cur & 63));
	c = sljit_create_compiler(NULL);
	if (sep) { cx = sljit_create_compiler(NULL); inner(cx, s, &f, 1); fi = gen(cx); sljit_free_compiler(cx); if (!fi) { bad("regarg-compile", "error %d", gen_err); return; } }
	else if (form == G_LABEL_B) { li = sljit_emit_label(c); inner(c, s, &f, 1); }
	if (kind == 1 || kind == 3) {
		if (sep) cx = sljit_create_compiler(NULL); else cx = c;
		if (form == G_LABEL_B) lm = sljit_emit_label(cx);
		if (form == G_LABEL_F) goto skip_mid;
mid:
		enter(cx, sig_types(&a, 1), &m);
		for (i = 0; i < km; i++) sljit_emit_op1(cx, SLJIT_MOV, ABS(g_r.tgt2), SLJIT_S(i), 0);
		for (i = km; i < m.sav; i++) sljit_emit_op1(cx, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, ISENT(60 + i));
		for (i = 0; i < m.fscr; i++) sljit_emit_fop1(cx, SLJIT_MOV_F64, SLJIT_FR(i), 0, ABS(g_gar[i]));
		for (i = 0; i < m.fsav; i++) sljit_emit_fop1(cx, SLJIT_MOV_F64, SLJIT_FS(i), 0, ABS(g_gar[38 - i]));
		load_args(cx, s);
		reg_call(cx, form, ctype | (kind == 1 ? SLJIT_CALL_RETURN : 0), types, fi, li, &fw2, nw);
		if (kind == 3) {
			if (s->r == 0) sljit_emit_return_void(cx);
			else if (s->r < 3) sljit_emit_return(cx, s->r == 1 ? SLJIT_MOV : SLJIT_MOV32, SLJIT_R0, 0);
			else if (s->r == 5) sljit_emit_return(cx, SLJIT_MOV_P, SLJIT_R0, 0);
			else sljit_emit_return(cx, s->r == 3 ? SLJIT_MOV_F64 : SLJIT_MOV_F32, SLJIT_FR0, 0);
		}
		if (sep) { fm = gen(cx); sljit_free_compiler(cx); if (!fm) { bad("regarg-compile", "error %d", gen_err); return; } }
		if (form == G_LABEL_F) goto mid_done;
	}
skip_mid:
	lo = sljit_emit_label(c);
	outer_begin(c, 48);
	if (kind == 0 || kind == 2) { load_args(c, s); reg_call(c, form, ctype, types, fi, li, &fw, nw); }
	else reg_call(c, form, SLJIT_CALL_REG_ARG, sig_types(&a, 0), fm, lm, &fw, 0);
	save_ret(c, s->r); outer_end(c);
	if (form == G_LABEL_F) {
		if (kind == 1 || kind == 3) { sljit_set_label(fw, sljit_emit_label(c)); cx = c; goto mid; }
mid_done:
		sljit_set_label((kind == 1 || kind == 3) ? fw2 : fw, sljit_emit_label(c)); inner(c, s, &f, 1);
	}
	fo = gen(c);
	if (!fo) { bad("regarg-compile", "error %d", gen_err); sljit_free_compiler(c); return; }
	fo = (void *)sljit_get_label_addr(lo);
#if defined(SLJIT_INDIRECT_CALL) && SLJIT_INDIRECT_CALL
#error "function descriptors are not supported by this harness"
#endif
	sljit_free_compiler(c);
	sample();
	reset((int)(g_cur & 63)); g_ll = f.local; g_phase = "run";
	direct_v(fo); done_run();
	if (form == G_MEM && (kind == 0 || kind == 2)) g_r.oloc[16 / WB] = SENT(100 + 16 / WB);
	if (form == G_MEM && 16 / WB < 4) g_r.oloc[16 / WB] = SENT(100 + 16 / WB);
	if (g_called != 2) { bad("regarg", "function body not executed"); return; }
	if (cmp_args("regarg", s, 0) || cmp_inner("regarg", &f) || cmp_ret("regarg", s->r, 0)) return;
	for (i = 0; i < kept; i++) {
		sw e = (kind == 1 || kind == 3) && (i >= km) && kind == 3 ? ISENT(60 + i) : SENT(i);
		if (g_r.kin[i] != e) { bad("regarg-keep", "kept S%d is 0x%llx instead of 0x%llx on entry", i, (unsigned long long)(uw)g_r.kin[i], (unsigned long long)(uw)e); return; }
	}
	/* what the caller may see afterwards */
	for (i = 0; i < 3 && i < o_sav; i++) {
		int chg = kind == 0 || kind == 1 ? i < kept : kind == 3 ? i < kept && i < km : 0;
		sw e = chg ? KSENT(i) : SENT(i);
		if (g_r.osav[i] != e) { bad("regarg-keep", "S%d of the caller is 0x%llx instead of 0x%llx", i, (unsigned long long)(uw)g_r.osav[i], (unsigned long long)(uw)e); return; }
		g_r.osav[i] = SENT(i);
	}
	cmp_outer("regarg", 0);
}
/* (5) return operands */
static void do_return(int rk, int form)
{
	static const s32 wops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32 };
	static const s32 iops[] = { SLJIT_MOV32, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16 };
	static u8 src[64] __attribute__((aligned(16))); struct sljit_compiler *c; void *fi; fsig_t s; fr_t f; s32 op; opn o; sw v = (sw)0x8182838495a6b7c8ull, e = 0; s32 e32; int kind, t, fl; double ed = -12.625; float ef = 3.375f;
	if (rk < 7) { kind = 1; op = wops[rk]; } else if (rk < 12) { kind = 2; op = iops[rk - 7]; } else if (rk == 12) { kind = 5; op = SLJIT_MOV_P; } else if (rk == 13) { kind = 3; op = SLJIT_MOV_F64; } else { kind = 4; op = SLJIT_MOV_F32; }
	fl = kind == 3 || kind == 4;
#if !(defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
	if (rk == 5 || rk == 6) op = wops[rk];
#endif
	f.opt = 0; f.scr = NR - 4; f.sav = 4; f.fscr = NF - (SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS ? 1 : 0); f.fsav = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS ? 1 : 0; f.local = 64;
	if (SLJIT_NUMBER_OF_SAVED_REGISTERS < 4) f.sav = SLJIT_NUMBER_OF_SAVED_REGISTERS;
	s.n = 0; s.r = kind;
	{ int nf = fl ? 12 : f.scr + f.sav + 8; if (form >= nf) return; }
	begin(); sprintf(m_txt, "return op 0x%x form %d kind %d", (unsigned)op, form, kind);
	reset(1); memcpy(src, &v, (size_t)WB);
	if (kind == 3) memcpy(src, &ed, 8); if (kind == 4) memcpy(src, &ef, 4);
	c = sljit_create_compiler(NULL); enter(c, sig_types(&s, 0), &f);
	t = form;
	if (fl) {
		static const int fr[] = { 1, 2, 3, 4, 5, 6 }; int r = fr[t % 6] <= f.fscr ? fr[t % 6] : 1;
		if (t < 6) { sljit_emit_fop1(c, op, r, 0, ABS(src)); o = rg(r); }
		else if (t == 6 && f.fsav) { sljit_emit_fop1(c, op, SLJIT_FS0, 0, ABS(src)); o = rg(SLJIT_FS0); }
		else if (t == 7) { sljit_emit_fop1(c, op, SLJIT_MEM1(SLJIT_SP), 8, ABS(src)); o = m1(SLJIT_SP, 8); }
		else if (t == 8) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sw)src - 16); o = m1(SLJIT_R0, 16); }
		else if (t == 9) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)src - 16); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 4); o = m2(SLJIT_R1, SLJIT_R0, 2); }
		else if (t == 10) { sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sw)src); o = m1(SLJIT_S0, 0); }
		else o = m0(src);
	} else {
		if (t < f.scr) { if (kind == 2) sljit_emit_op1(c, SLJIT_MOV32, SLJIT_R(t), 0, ABS(src)); else sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(t), 0, ABS(src)); o = rg(SLJIT_R(t)); }
		else if (t < f.scr + f.sav) { t -= f.scr; if (kind == 2) sljit_emit_op1(c, SLJIT_MOV32, SLJIT_S(t), 0, ABS(src)); else sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(t), 0, ABS(src)); o = rg(SLJIT_S(t)); }
		else switch (t - f.scr - f.sav) {
		case 0: o = im(kind == 2 ? (sw)(s32)0x95a6b7c8 : v); break;
		case 1: sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 8, ABS(src)); if (IS64) {} o = m1(SLJIT_SP, 8); break;
		case 2: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sw)src - 16); o = m1(SLJIT_R0, 16); break;
		case 3: sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)src - 16); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 4); o = m2(SLJIT_R1, SLJIT_R0, 2); break;
		case 4: sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sw)src); o = m1(SLJIT_S0, 0); break;
		case 5: o = m0(src); break;
		case 6: o = im(0); v = 0; break;
		case 7: o = im(-1); v = -1; break;
		default: o = im(0); v = 0; }
	}
	sljit_emit_return(c, op, o.t, o.w); fi = gen(c); sljit_free_compiler(c);
	if (!fi) { bad("return-compile", "error %d", gen_err); return; }
	g_phase = "run"; call_pressure(sig_c(&s)->call, fi); done_run();
	if (fl) { if (kind == 3 ? g_res.d != ed : g_res.f != ef) bad("return", "floating point result"); return; }
	{
		int w = 0, big, k; u8 b[8]; sw x = v; const u8 *p; int len;
		{ u16 one = 1; big = *(u8 *)&one == 0; }
		switch (rk) { case 0: case 12: len = WB; break; case 1: case 2: case 8: case 9: len = 1; break; case 3: case 4: case 10: case 11: len = 2; break; default: len = 4; }
		if (!isr(o) && o.t != SLJIT_IMM) { memcpy(b, src, 8); p = b; x = len == 1 ? (sw)p[0] : 0; if (len == 2) { u16 q; memcpy(&q, p, 2); x = q; } if (len == 4) { u32 q; memcpy(&q, p, 4); x = (sw)q; } if (len == WB) memcpy(&x, p, (size_t)WB); }
		else if (isr(o) && kind == 2) { s32 q; memcpy(&q, src, 4); x = q; }
		(void)w; (void)big; (void)k;
		if (o.t == SLJIT_MEM1(SLJIT_SP)) {}
		switch (rk) { case 0: case 12: e = x; break; case 1: case 8: e = (u8)x; break; case 2: case 9: e = (s8)x; break; case 3: case 10: e = (u16)x; break; case 4: case 11: e = (s16)x; break; case 5: e = (sw)(uw)(u32)x; break; default: e = (s32)x; }
		e32 = (s32)e;
		if (kind == 2 ? g_res.i != e32 : g_res.w != e) bad("return", "result 0x%llx instead of 0x%llx", (unsigned long long)(uw)(kind == 2 ? g_res.i : g_res.w), (unsigned long long)(uw)e);
	}
	if (g_pressure_bad) bad("return-saved", "a callee saved register is not preserved");
}
/* (6) return_to */
static void do_return_to(int form, const fr_t *f0, int nested)
{
	struct sljit_compiler *c; void *fo, *fi; fr_t f = *f0; struct sljit_label *l; int i; fsig_t s; struct sljit_jump *j;
	s.n = 0; s.r = 0;
	if (!fr_ok(&f)) return;
	if (form < 6) { if (form >= f.scr) return; } else if (form < 10) { if (form - 6 >= f.sav) return; }
	if (form == 10 && f.local < 4 * WB) return; if ((form == 12 || form == 13) && f.scr < 2) return; if (form == 14 && f.sav < 1) return;
	begin(); { char *o = m_txt + sprintf(m_txt, "return_to form %d", form); fr_text(o, &f); }
	reset(3);
	c = sljit_create_compiler(NULL); enter(c, SLJIT_ARGS0V(), &f);
	for (i = 0; i < f.scr; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R(i), 0, SLJIT_IMM, ISENT(40 + i));
	for (i = 0; i < f.sav; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_S(i), 0, SLJIT_IMM, ISENT(i));
	for (i = 0; i < f.fscr; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR(i), 0, ABS(g_gar[i]));
	for (i = 0; i < f.fsav; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FS(i), 0, ABS(g_gar[39 - i]));
	if (nested) sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, SLJIT_FUNC_ADDR(clobber_all));
	if (f.scr) sljit_emit_op1(c, SLJIT_MOV, SLJIT_RETURN_REG, 0, SLJIT_IMM, 0x5a17);
	{ int t = SLJIT_IMM; sw w = 0;
	if (form < 6) { t = SLJIT_R(form); sljit_emit_op1(c, SLJIT_MOV, t, 0, ABS(g_r.tgt)); }
	else if (form < 10) { t = SLJIT_S(form - 6); sljit_emit_op1(c, SLJIT_MOV, t, 0, ABS(g_r.tgt)); }
	else if (form == 10) { t = SLJIT_MEM1(SLJIT_SP); w = 3 * WB; sljit_emit_op1(c, SLJIT_MOV, t, w, ABS(g_r.tgt)); }
	else if (form == 11) { t = SLJIT_MEM0(); w = (sw)&g_r.tgt; }
	else if (form == 12) { t = SLJIT_MEM1(SLJIT_R1); w = 0; sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)&g_r.tgt); }
	else if (form == 13) { t = SLJIT_MEM2(SLJIT_R1, SLJIT_R0); w = 1; sljit_emit_op1(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, (sw)&g_r.tgt - 16); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 8); }
	else if (form == 14) { t = SLJIT_MEM1(SLJIT_S0); w = -64; sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_IMM, (sw)&g_r.tgt + 64); }
	else { sljit_free_compiler(c); return; }
	sljit_emit_return_to(c, t, w); }
	fi = gen(c); sljit_free_compiler(c);
	if (!fi) { bad("return_to-compile", "error %d", gen_err); return; }
	c = sljit_create_compiler(NULL); outer_begin(c, 48);
	sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS0V(), SLJIT_IMM, (sw)fi);
	sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.mark), SLJIT_IMM, 1); j = sljit_emit_jump(c, SLJIT_JUMP);
	l = sljit_emit_label(c); sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.mark), SLJIT_IMM, 2); sljit_emit_op1(c, SLJIT_MOV, ABS(g_r.rw), SLJIT_RETURN_REG, 0);
	sljit_set_label(j, sljit_emit_label(c)); outer_end(c); fo = gen(c);
	if (!fo) { bad("return_to-compile", "error %d", gen_err); return; }
	g_r.tgt = (sw)sljit_get_label_addr(l); sljit_free_compiler(c);
	{ sw t = g_r.tgt; reset(3); g_r.tgt = t; } g_phase = "run";
	call_pressure(direct_v, fo); done_run();
	if (g_r.mark != 2) { bad("return_to", "execution did not continue at the given address (mark %d)", (int)g_r.mark); return; }
	if (f.scr && form != 0 && form != 13 && g_r.rw != 0x5a17) { bad("return_to", "return register is 0x%llx", (unsigned long long)(uw)g_r.rw); return; }
	if (cmp_outer("return_to", 0)) return;
	if (g_pressure_bad) bad("return_to", "a callee saved register of the C caller is not preserved");
}
int main(int argc, char **argv)
{
	int i, j, k, q, l; fsig_t s, b; fr_t f, m;
	static const int locs[] = { 0, 1, 4, 7, 8, 12, 16, 24, 32, 40, 48, 56, 64, 72, 80, 88, 96, 104, 112, 120, 128, 136, 144, 152, 160, 200, 216, 232, 240, 248, 256, 264, 272, 384, 400, 416, 432, 440, 448, 456, 464, 472, 480, 488, 496, 504, 512, 520, 528, 544, 560, 576, 640, 720, 800, 880, 896, 912, 928, 936, 944, 952, 960, 968, 976, 984, 992, 1000, 1008, 1016, 1024, 1032, 1040, 1056,
		1888, 1904, 1920, 1936, 1952, 1968, 1984, 2000, 2008, 2016, 2024, 2032, 2040, 2048, 2056, 2064, 2080, 3904, 3936, 3952, 3968, 3984, 4000, 4016, 4024, 4032, 4040, 4048, 4056, 4064, 4072, 4080, 4088, 4096, 4104, 4112, 4128, 4160, 4352, 6000, 7936, 8000, 8032, 8064, 8128, 8160, 8176, 8184, 8192, 8200, 8208, 8288, 12200, 12288, 12296, 16128, 16256, 16320, 16360, 16376, 16384, 16392, 20480, 32000, 32256, 32384, 32512, 32600, 32640, 32704, 32736, 32752, 32760, 32768, 32776, 32784, 32800, 32832, 32900, 36864,
		40000, 49152, 61440, 65280, 65400, 65472, 65504, 65520, 65528, 65536, 65544, 65552, 65600, 69632, 98304, 131040, 131072, 131088, 200000, 262144, 524288, 1000000, 1048544, 1048576 };
	const int nlocs = (int)(sizeof(locs) / sizeof(*locs));
	parse_args(argc, argv);
	g_suite = "call"; g_crash_txt = m_txt;
	g_arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	for (i = 0; i < 40; i++) g_gar[i] = 3000.25 + i * 17;
	o_sav = SLJIT_NUMBER_OF_SAVED_REGISTERS; o_scr = NR - o_sav; if (o_scr < 6) { o_scr = 6; o_sav = NR - 6; }
	o_fsav = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS; o_fscr = NF - o_fsav; if (o_fscr < 5) { o_fscr = 5; o_fsav = NF - 5; }
	if (o_sav > 31) o_sav = 31; if (o_fsav > 16) o_fsav = 16;
	TICK();
	/* entries: every signature; every result type for short ones */
	for (i = 0; i < 4681; i++) {
		int full; sig_dec8(i, &s); full = g_thorough || s.n <= 2;
		for (k = 0; k < 6; k++) for (q = 0; q < 2; q++) {
			if (!full && (k != i % 6 || q != (i / 6) % 2)) continue;
			if (!mine()) continue;
			s.r = k; f.opt = 0; f.scr = n_scr(&s); f.sav = n_saved(&s); f.fscr = n_flt(&s); f.fsav = 0; f.local = (i % 5) * 8;
			if (q) { f.scr += 2; f.sav += 2; f.fscr += 1; f.fsav = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS ? 1 : 0; f.local += 40; }
			if (f.sav > SLJIT_NUMBER_OF_SAVED_REGISTERS) f.sav = SLJIT_NUMBER_OF_SAVED_REGISTERS;
			if (k && !f.scr) f.scr = 1; if (k >= 3 && !f.fscr) f.fscr = 1;
			do_entry(&s, &f);
		}
	}
	/* entries: every split of the integer and of the float registers */
	for (q = 0; q < 3; q++) {
		static const int sg[3][5] = { { 0, 0 }, { 2, 1, 8, 2 }, { 4, 3, 0, 2, 9, 3 } };
		if (q == 0) { s.n = 0; s.r = 0; } else if (q == 1) { s.n = 2; s.r = 1; s.k[0] = 8; s.k[1] = 2; } else { s.n = 4; s.r = 3; s.k[0] = 0; s.k[1] = 2; s.k[2] = 9; s.k[3] = 3; }
		(void)sg;
		for (i = 0; i <= NR; i++) for (j = 0; j <= SLJIT_NUMBER_OF_SAVED_REGISTERS && i + j <= NR; j++) for (k = 0; k < 3; k++) for (l = 0; l < (g_thorough ? 6 : 2); l++) {
			if (!mine()) continue;
			f.opt = 0; f.scr = i; f.sav = j; f.fscr = k == 0 ? n_flt(&s) + (s.r >= 3) : k == 1 ? NF - o_fsav : NF; f.fsav = k == 1 ? o_fsav : 0; f.local = l == 0 ? 0 : l == 1 ? 24 : l == 2 ? 480 : l == 3 ? 4080 : l == 4 ? 40 : 32700;
			if (k == 0 && f.fscr < n_flt(&s)) continue;
			do_entry(&s, &f);
		}
		for (i = 0; i <= NF; i++) for (j = 0; j <= SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS && i + j <= NF; j++) for (k = 0; k < 4; k++) {
			if (!mine()) continue;
			f.opt = 0; f.scr = k & 1 ? NR - o_sav : 3; f.sav = k & 1 ? o_sav : 1 + (k >> 1); f.fscr = i; f.fsav = j; f.local = k < 2 ? 16 : 0;
			do_entry(&s, &f);
		}
	}
	/* entries: local sizes */
	for (i = 0; i < 320 + nlocs; i++) for (k = 0; k < 8; k++) {
		if (!mine()) continue;
		s.n = 2; s.r = 1; s.k[0] = k & 1 ? 8 : 0; s.k[1] = 2;
		f.opt = 0; f.scr = k & 2 ? o_scr : 2; f.sav = k & 4 ? o_sav : 2 + (k & 1); f.fscr = k & 2 ? o_fscr : 1; f.fsav = k & 4 ? o_fsav : 0; f.local = i < 320 ? i : locs[i - 320];
		do_entry(&s, &f);
	}
	/* calls of C functions: every signature and target form */
	for (i = 0; i < 781; i++) for (q = 0; q < F_N; q++) for (k = 0; k < 6; k++) for (l = 0; l < 4; l++) {
		sig_dec5(i, &s);
		if (!g_thorough && s.n > 2 && (k != (i + q) % 6 || l != (i + q + i / 7) % 4)) continue;
		if (s.n <= 2 && !g_thorough && l != (i + k) % 4) continue;
		if (!mine()) continue;
		s.r = k; do_ccall(&s, q, l * 8 + 32);
	}
	for (i = 0; i < nlocs; i++) for (k = 0; k < 4; k++) {
		static const int kk[4][4] = { { 0, 0, 0, 0 }, { 2, 2, 2, 2 }, { 0, 2, 1, 2 }, { 3, 0, 3, 2 } };
		if (!mine()) continue;
		s.n = 4; s.r = k + 1; memcpy(s.k, kk[k], sizeof(s.k)); do_ccall(&s, i % F_N, locs[i]);
	}
	/* tail calls */
	for (i = 0; i < 781; i++) for (j = 0; j < 6; j++) for (q = 0; q < F_N; q++) for (k = 0; k < 4; k++) {
		static const fsig_t as[6] = { { 0, 0, { 0 } }, { 4, 0, { 0, 0, 0, 0 } }, { 4, 0, { 2, 2, 2, 2 } }, { 2, 0, { 8, 2 } }, { 4, 0, { 8, 9, 0, 8 } }, { 3, 0, { 2, 0, 3 } } };
		fsig_t a; sig_dec5(i, &b);
		if (!g_thorough && (b.n > 2 ? ((i + q) % 6 != j || k != (i / 6 + q + j) % 4) : k != (i + q + j) % 4)) continue;
		if (!mine()) continue;
		a = as[j]; a.r = b.r = (i + j + q + k) % 6; f.opt = 0; f.scr = k & 1 ? o_scr : 2; if (f.scr < n_scr(&a)) f.scr = n_scr(&a); f.sav = k & 2 ? o_sav : n_saved(&a); f.fscr = k & 1 ? o_fscr : n_flt(&a); f.fsav = k == 3 ? o_fsav : k == 1 && o_fsav ? 1 : 0; f.local = k == 0 ? 0 : k == 1 ? 64 : k == 2 ? 4096 : 24;
		do_tail(&a, &b, q, &f, (i + j) % 3 == 0 && b.n && n_saved(&b) <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
	}
	for (i = 0; i < nlocs; i++) for (q = 0; q < F_N; q++) {
		if (!mine()) continue;
		sig_dec5(600 + i % 181, &b); b.r = i % 6; s.n = 1; s.r = b.r; s.k[0] = 0; f.opt = 0; f.scr = 3; f.sav = 1 + i % 3; f.fscr = 4; f.fsav = i & 1 && o_fsav ? 1 : 0; f.local = locs[i];
		do_tail(&s, &b, q, &f, 0);
	}
	/* register argument convention and calls to labels */
	for (i = 0; i < 4681; i++) for (k = 0; k < 4; k++) for (q = 0; q < G_N; q++) {
		int v; sig_dec8(i, &s);
		if (k != 2 && n_saved(&s)) continue;
		if (!g_thorough && (k == 2 ? s.n > 2 && (i + i / 6) % 6 != q : s.n > 3 && (i + i / 6) % 6 != q)) continue;
		for (v = 0; v < 4; v++) {
			if (!g_thorough && v != (i + k + q) % 4 && (k == 2 || s.n > 1)) continue;
			if (!mine()) continue;
			s.r = (i + k + q + v) % 6;
			f.opt = k == 2 ? 0 : SLJIT_ENTER_REG_ARG | SLJIT_ENTER_KEEP(v); f.scr = n_scr(&s) + (v & 1); f.sav = v + (i % 3); if (f.sav < n_saved(&s)) f.sav = n_saved(&s); f.fscr = n_flt(&s) + (v >> 1); f.fsav = v == 2 && o_fsav ? 1 : 0; f.local = v == 0 ? 0 : v * 24;
			m.opt = SLJIT_ENTER_REG_ARG | SLJIT_ENTER_KEEP((i + q) % 4); m.scr = 1; m.sav = (i + q) % 4 + (i % 2); m.fscr = 1; m.fsav = (i & 1) && o_fsav ? 1 : 0; m.local = (i % 3) * 40;
			if (f.sav > SLJIT_NUMBER_OF_SAVED_REGISTERS || m.sav > SLJIT_NUMBER_OF_SAVED_REGISTERS) continue;
			do_regarg(&s, k, q, &f, &m);
		}
	}
	for (i = 0; i < nlocs; i++) for (q = 0; q < G_N; q++) for (k = 0; k < 2; k++) {
		if (!mine()) continue;
		sig_dec5(0, &s); s.n = 2; s.k[0] = 8; s.k[1] = 2; s.r = 1; f.opt = SLJIT_ENTER_REG_ARG | (i & 3); f.scr = 2; f.sav = 3; f.fscr = 1; f.fsav = 0; f.local = k ? 24 : locs[i];
		m = f; m.opt = SLJIT_ENTER_REG_ARG | ((i >> 1) & 3); m.local = k ? locs[i] : 24; m.scr = 3;
		do_regarg(&s, 1 + 2 * ((i + q) & 1), q, &f, &m);
	}
	/* returns */
	for (i = 0; i < 15; i++) for (j = 0; j < NR + 8; j++) { if (!mine()) continue; do_return(i, j); }
	for (i = 0; i < 15; i++) for (j = 0; j <= NR; j += g_thorough ? 1 : 2) for (k = 0; k <= SLJIT_NUMBER_OF_SAVED_REGISTERS && k + j <= NR; k++) for (q = 0; q < 6; q++) {
		static const int ll[] = { 0, 32, 500, 4090, 32760, 70000 };
		if (!mine()) continue;
		f.opt = 0; f.scr = j; f.sav = k; f.fscr = q & 1 ? o_fscr : 0; f.fsav = q & 2 ? o_fsav : 0; f.local = ll[q];
		do_return_to(i, &f, q & 1);
	}
	/* every frame size: the limits of the instruction forms are hit exactly */
	for (i = 0; i < (g_thorough ? 9000 : 1600); i += 8) for (k = 0; k < 4; k++) {
		if (!mine()) continue;
		f.opt = 0; f.scr = k & 1 ? o_scr : 2; f.sav = k & 2 ? o_sav : 1; f.fscr = k & 1 ? o_fscr : 0; f.fsav = k & 2 ? o_fsav : 0; f.local = i; do_return_to((i / 8 + k) % 2 ? 2 : 1, &f, 0);
		s.n = 2; s.r = 1; s.k[0] = k & 1 ? 8 : 0; s.k[1] = 2; if (f.scr < n_scr(&s)) f.scr = n_scr(&s); if (f.sav < n_saved(&s)) f.sav = n_saved(&s); if (f.fscr < n_flt(&s)) f.fscr = n_flt(&s);
		if (i >= 320) do_entry(&s, &f);
	}
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
