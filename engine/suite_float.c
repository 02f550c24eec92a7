/* P05: floating point */
#include "eng.h"
#include "common.h"

static int ftr[400][3], n_ftr;
static void ftr_init(void)
{
	int pool[4] = { FR(0), FR(1), FR(2), FR(NF - 1) }, i, j, k;
	for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) for (k = 0; k < 4; k++) { ftr[n_ftr][0] = pool[i]; ftr[n_ftr][1] = pool[j]; ftr[n_ftr++][2] = pool[k]; }
	for (i = 3; i < NF - 1; i++) for (j = 0; j < 6; j++) { int r = FR(i);
		ftr[n_ftr][0] = j == 0 || j >= 3 ? r : FR(0); ftr[n_ftr][1] = j == 1 || j == 3 || j == 5 ? r : FR(1); ftr[n_ftr++][2] = j == 2 || j == 4 || j == 5 ? r : FR(2); }
}
/* makes register r hold the value of the slot (single precision registers are loaded by the program itself) */
static int ld_n;
static void freg_slot(prog_t *p, int r, int w, int sl)
{
	if (!w) { init_slot(p, I_FREG, r, sl); return; }
	init_slot(p, I_MEMF32, 192 + 8 * ld_n, sl); add(p, K_FOP1, SLJIT_MOV_F32, rg(r), m1(ST, O_MEM + 192 + 8 * ld_n), no()); p->fv[r] = 1; ld_n++;
}
/* operand forms: 0 register r, 1 [S0+mem], 2 [base+off], 3 [base+idx<<3], 4 absolute, 5 local */
#define NFO 6
static opn fop(prog_t *p, int form, int r, int w, int sl, int pos, int src)
{
	int off = 32 + pos * 32; opn o; int kind = w ? I_MEMF32 : I_MEMF;
	if (form == 0) { if (src) freg_slot(p, r, w, sl); return rg(r); }
	if (form == 5) {
		o = m1(SLJIT_SP, 8 + pos * 16);
		if (src) { init_slot(p, kind, off, sl); add(p, K_FOP1, SLJIT_MOV_F64 | (w ? SLJIT_32 : 0), o, m1(ST, O_MEM + off), no()); }
		return o;
	}
	if (src) init_slot(p, kind, off, sl);
	switch (form) {
	case 1: return m1(ST, O_MEM + off);
	case 2: ptr_init(p, R(pos), (sw)g_st->mem + off - 0x1238); return m1(R(pos), 0x1238);
	case 3: ptr_init(p, R(pos), (sw)g_st->mem + off + 24); ptr_init(p, IS_VIRT(R(3)) ? SLJIT_R2 : R(3), -3); return m2(R(pos), IS_VIRT(R(3)) ? SLJIT_R2 : R(3), 3);
	default: return m0(g_st->mem + off);
	}
}
static int form_ok(int f, int pos) { return !(f == 3 && IS_VIRT(R(3)) && pos == 2); }
static void setfv(prog_t *p, opn d, int w) { if (isr(d)) p->fv[d.t] = w ? 1 : 2; }
static void pn(prog_t *p) { pnew(p); ld_n = 0; }

static void unary(void)
{
	static const s32 ops[] = { SLJIT_MOV_F64, SLJIT_NEG_F64, SLJIT_ABS_F64 }; int o, w, i, a, d; prog_t p;
	for (o = 0; o < 3; o++) for (w = 0; w < 2; w++) {
		s32 op = ops[o] | (w ? SLJIT_32 : 0);
		for (i = 0; i < NF * NF; i++) { int x = FR(i / NF), y = FR(i % NF); if (!mine()) continue; pn(&p); freg_slot(&p, y, w, slot(&p, w ? VS_X32 : VS_X64)); add(&p, K_FOP1, op, rg(x), rg(y), no()); setfv(&p, rg(x), w); submit(&p); }
		for (a = 0; a < NFO; a++) for (d = 0; d < NFO; d++) { opn A, D;
			if (!mine()) continue;
			if ((!a && !d) || !form_ok(a, 1) || !form_ok(d, 0)) continue;
			pn(&p); A = fop(&p, a, FR(1), w, slot(&p, w ? VS_X32 : VS_X64), 1, 1); D = fop(&p, d, FR(0), w, 0, 0, 0); add(&p, K_FOP1, op, D, A, no()); setfv(&p, D, w); submit(&p); }
	}
	for (w = 0; w < 2; w++) { s32 op = SLJIT_CONV_F64_FROM_F32 | (w ? SLJIT_32 : 0); /* w: single from double */
		for (i = 0; i < NF * NF; i++) { int x = FR(i / NF), y = FR(i % NF); if (!mine()) continue; pn(&p); freg_slot(&p, y, !w, slot(&p, w ? VS_X64 : VS_X32)); add(&p, K_FOP1, op, rg(x), rg(y), no()); setfv(&p, rg(x), w); submit(&p); }
		for (a = 0; a < NFO; a++) for (d = 0; d < NFO; d++) { opn A, D;
			if (!mine()) continue;
			if (!form_ok(a, 1) || !form_ok(d, 0)) continue;
			pn(&p); A = fop(&p, a, FR(1), !w, slot(&p, w ? VS_X64 : VS_X32), 1, 1); D = fop(&p, d, FR(0), w, 0, 0, 0); add(&p, K_FOP1, op, D, A, no()); setfv(&p, D, w); submit(&p); }
	}
}
static void binary(void)
{
	static const s32 ops[] = { SLJIT_ADD_F64, SLJIT_SUB_F64, SLJIT_MUL_F64, SLJIT_DIV_F64, SLJIT_COPYSIGN_F64 }; int o, w, i, a, b, d; prog_t p;
	for (o = 0; o < 5; o++) for (w = 0; w < 2; w++) {
		s32 op = ops[o] | (w ? SLJIT_32 : 0); int vs = w ? VS_X32 : VS_X64;
		for (i = 0; i < n_ftr; i++) { int s1, x = ftr[i][0], y = ftr[i][1], z = ftr[i][2];
			if (!mine()) continue;
			pn(&p); s1 = slot(&p, vs); freg_slot(&p, y, w, s1); if (y != z) freg_slot(&p, z, w, slot(&p, vs));
			add(&p, o == 4 ? K_FOP2R : K_FOP2, op, rg(x), rg(y), rg(z)); setfv(&p, rg(x), w); submit(&p); }
		for (a = 0; a < NFO; a++) for (b = 0; b < NFO; b++) for (d = 0; d < NFO + 4; d++) { opn A, B, D;
			if (!mine()) continue;
			if (!form_ok(a, 1) || !form_ok(b, 2) || !form_ok(d < NFO ? d : 0, 0) || (o == 4 && d && d < NFO)) continue;
			if (IS_VIRT(R(3)) && (a == 3 || d == 3) && b == 2) continue;
			pn(&p); A = fop(&p, a, FR(1), w, slot(&p, vs), 1, 1); B = fop(&p, b, FR(2), w, slot(&p, vs), 2, 1);
			if (d < NFO) D = fop(&p, d, FR(0), w, 0, 0, 0); else if (d == NFO) D = A; else if (d == NFO + 1) D = B; else if (d == NFO + 2) D = rg(FR(1)); else D = rg(FR(2));
			if (o == 4 && !isr(D)) continue;
			if ((p.n + 1) > MAXINS) continue;
			add(&p, o == 4 ? K_FOP2R : K_FOP2, op, D, A, B); setfv(&p, D, w); submit(&p); }
	}
}
static void conversions(void)
{
	static const s32 fi[] = { SLJIT_CONV_SW_FROM_F64, SLJIT_CONV_S32_FROM_F64 }, tf[] = { SLJIT_CONV_F64_FROM_SW, SLJIT_CONV_F64_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F64_FROM_U32 };
	int o, w, i, j, k, d, a; prog_t p;
	for (o = 0; o < 2; o++) for (w = 0; w < 2; w++) for (k = 0; k < 2; k++) {
		int vs = w ? VS_OUT32 : k ? VS_OUT64 : VS_CONV; s32 op = fi[o] | (w ? SLJIT_32 : 0);
		if (w && k) continue;
		for (i = 0; i < NR_SCR; i++) for (j = 0; j < NF; j++) { opn D = rg(R(i));
			if (!mine()) continue;
			pn(&p); freg_slot(&p, FR(j), w, slot(&p, vs)); add(&p, K_FOP1, op, D, rg(FR(j)), no()); if (o && IS64) p.rv[D.t] = 32; submit(&p); }
		for (a = 0; a < NFO; a++) for (d = 0; d < 8; d++) { opn A, D;
			if (!mine()) continue;
			if (!form_ok(a, 1)) continue;
			pn(&p); A = fop(&p, a, FR(1), w, slot(&p, vs), 1, 1);
			if (d == 0) D = rg(a == 2 || a == 3 ? R(1) : R(2)); else if (d == 6) D = rg(IS_VIRT(R(3)) ? R(2) : R(3)); else if (d == 7) D = m1(a == 2 || a == 3 ? R(0) : R(1), 0x12348); else D = fop(&p, d, 0, 0, 0, 0, 0);
			if (d == 7) ptr_init(&p, a == 2 || a == 3 ? R(0) : R(1), (sw)g_st->mem + 64 - 0x12348 + (a == 1 || a == 4 || a == 5 ? 96 : 96));
			add(&p, K_FOP1, op, D, A, no()); if (o && IS64 && isr(D)) p.rv[D.t] = 32; submit(&p); }
	}
	for (o = 0; o < 4; o++) for (w = 0; w < 2; w++) {
		s32 op = tf[o] | (w ? SLJIT_32 : 0); int s32b = (o & 1) && IS64;
		for (i = 0; i < NR_SCR; i++) for (j = 0; j < NF; j++) {
			if (!mine()) continue;
			pn(&p); init_slot(&p, I_REG, R(i), slot(&p, VS_RND)); if (s32b) need32(&p, rg(R(i))); add(&p, K_FOP1, op, rg(FR(j)), rg(R(i)), no()); setfv(&p, rg(FR(j)), w); submit(&p); }
		for (d = 0; d < NFO; d++) for (a = 0; a < 6; a++) { opn A, D; int sl;
			if (!mine()) continue;
			if (!form_ok(d, 0)) continue;
			pn(&p); sl = slot(&p, VS_RND);
			if (a == 0) { init_slot(&p, I_REG, R(1), sl); if (s32b) need32(&p, rg(R(1))); A = rg(R(1)); }
			else if (a == 5) { A = m1(SLJIT_SP, 24); if (s32b) { init_slot(&p, I_REG, R(1), sl); add(&p, K_OP1, SLJIT_MOV32, A, rg(R(1)), no()); } else init_slot(&p, I_LOC, 24, sl); }
			else { A = a == 1 ? m1(ST, O_MEM + 96) : a == 2 ? m1(R(1), 0x1238) : a == 3 ? m2(R(1), R(2), 3) : m0(g_st->mem + 96);
				if (a == 2) ptr_init(&p, R(1), (sw)g_st->mem + 96 - 0x1238);
				if (a == 3) { if (d == 3 && IS_VIRT(R(3))) continue; ptr_init(&p, R(1), (sw)g_st->mem + 96 - 40); ptr_init(&p, R(2), 5); }
				if (s32b) { int q = IS_VIRT(R(3)) ? R(3) : R(4); init_slot(&p, I_REG, q, sl); add(&p, K_OP1, SLJIT_MOV32, m1(ST, O_MEM + 96), rg(q), no()); } else init_slot(&p, I_MEM, 96, sl); }
			D = fop(&p, d, FR(0), w, 0, 0, 0); add(&p, K_FOP1, op, D, A, no()); setfv(&p, D, w); submit(&p); }
		for (i = 0; i < vs_n[VS_RND]; i++) for (d = 0; d < 2; d++) { opn D;
			if (!mine()) continue;
			pn(&p); D = fop(&p, d, FR(0), w, 0, 0, 0); add(&p, K_FOP1, op, D, im((sw)vs_vals[VS_RND][i]), no()); setfv(&p, D, w); submit(&p); }
	}
}
/* comparisons as jumps */
static void fcmps(void)
{
	int t, w, a, b, i, k; prog_t p; ins_t *x;
	for (t = SLJIT_F_EQUAL; t <= SLJIT_ORDERED_LESS_EQUAL; t++) for (w = 0; w < 2; w++) {
		int vs = w ? VS_X32 : VS_X64;
		for (a = 0; a < NFO; a++) for (b = 0; b < NFO; b++) for (k = 0; k < 2; k++) { opn A, B;
			if (!mine()) continue;
			if (!form_ok(a, 1) || !form_ok(b, 2)) continue;
			if (IS_VIRT(R(3)) && a == 3 && b == 2) continue;
			pn(&p); A = fop(&p, a, FR(1), w, slot(&p, vs), 1, 1); B = fop(&p, b, FR(2), w, slot(&p, vs), 2, 1);
			x = add(&p, K_FCMP, 0, no(), A, B); x->type = t | (w ? SLJIT_32 : 0) | (k ? SLJIT_REWRITABLE_JUMP : 0); x->skip = 1;
			add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(5), no()); submit(&p); }
		for (i = 0; i < n_ftr; i++) { int y = ftr[i][1], z = ftr[i][2];
			if (!mine()) continue;
			if (ftr[i][0] != FR(0)) continue;
			pn(&p); freg_slot(&p, y, w, slot(&p, vs)); if (y != z) freg_slot(&p, z, w, slot(&p, vs));
			x = add(&p, K_FCMP, 0, no(), rg(y), rg(z)); x->type = t | (w ? SLJIT_32 : 0); x->skip = 1;
			add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(5), no()); submit(&p); }
	}
}
/* comparison flags and all their consumers */
static void cmpflags(void)
{
	int t, w, a, b, k, q; prog_t p; ins_t *x;
	for (t = SLJIT_F_EQUAL; t <= SLJIT_ORDERED_LESS_EQUAL; t += 2) for (w = 0; w < 2; w++) for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) for (k = 0; k < 18; k++) for (q = 0; q < 3; q++) {
		int vs = w ? VS_X32 : VS_X64, inv = k & 1; opn A, B;
		if (!mine()) continue;
		if ((a || b) && q) continue;
		pn(&p);
		/* operands in different registers per q */
		A = fop(&p, a, q == 0 ? FR(1) : q == 1 ? FR(0) : FR(NF - 1), w, slot(&p, vs), 1, 1); B = fop(&p, b, q == 0 ? FR(2) : q == 1 ? FR(NF - 1) : FR(3), w, slot(&p, vs), 2, 1);
		if (k >= 10 && k < 14) { int ww = k >= 12; add(&p, K_FOP1, SLJIT_MOV_F64 | (ww ? SLJIT_32 : 0), rg(FR(4)), m1(ST, O_MEM + 16), no()); p.fv[FR(4)] = ww ? 1 : 2; if (ww) { add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(5)), m1(ST, O_MEM + 24), no()); p.fv[FR(5)] = 1; } }
		add(&p, K_FOP1, SLJIT_CMP_F64 | (w ? SLJIT_32 : 0) | SLJIT_SET(t), A, B, no());
		switch (k >> 1) {
		case 0: B_capf(&p, 0, t | inv); B_capf(&p, 1, t | (inv ^ 1)); break;
		case 1: x = add(&p, K_JMPF, 0, no(), no(), no()); x->type = t | inv; x->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(5), no()); B_capf(&p, 1, t); p.n--; break;
		case 2: x = add(&p, K_SEL, 0, rg(R(4)), rg(R(5)), rg(R(4))); x->type = t | inv; break;
		case 3: x = add(&p, K_SEL, 0, rg(R(4)), im(0x123456), rg(R(5))); x->type = t | inv; break;
		case 4: x = add(&p, K_SEL, 0, rg(R(5)), m1(ST, O_MEM + 8), rg(R(5))); x->type = t | inv; B_capf(&p, 1, t); break;
		case 5: x = add(&p, K_FSEL, 0, rg(FR(4)), m1(ST, O_MEM + 16), rg(FR(4))); x->type = t | inv; break;
		case 6: x = add(&p, K_FSEL, 0, rg(FR(4)), rg(FR(5)), rg(FR(4))); x->type = t | inv | SLJIT_32; break;
		case 7: x = add(&p, K_OPF, SLJIT_AND, rg(R(4)), no(), no()); x->type = t | inv; break;
		case 8: x = add(&p, K_OPF, SLJIT_XOR | SLJIT_SET_Z, rg(R(5)), no(), no()); x->type = t | inv; B_capf(&p, 1, SLJIT_ZERO); break;
		}
		submit(&p);
	}
}
/* float select: all aliasing, float and integer conditions */
static void fselects(void)
{
	int i, w, c, f; prog_t p; ins_t *x;
	for (i = 0; i < n_ftr; i++) for (w = 0; w < 2; w++) for (c = 0; c < 6; c++) {
		int d = ftr[i][0], y = ftr[i][1], z = ftr[i][2], vs = w ? VS_X32 : VS_X64;
		if (!mine()) continue;
		pn(&p); freg_slot(&p, y, w, slot(&p, vs)); if (z != y) freg_slot(&p, z, w, slot(&p, vs));
		if (c < 2) B_op2u(&p, SLJIT_SUB | SLJIT_SET_LESS, m1(ST, O_MEM), im(c ? 0x7fffffff : 0)); else if (c < 4) B_op2u(&p, SLJIT_AND | SLJIT_SET_Z, m1(ST, O_MEM), im(c == 2 ? 0 : -1));
		else { add(&p, K_FOP1, SLJIT_CMP_F64 | (w ? SLJIT_32 : 0) | (c == 4 ? SLJIT_SET_ORDERED_LESS : SLJIT_SET_UNORDERED), rg(y), rg(z), no()); }
		x = add(&p, K_FSEL, 0, rg(d), rg(y), rg(z)); x->type = (c < 2 ? SLJIT_LESS : c < 4 ? SLJIT_NOT_EQUAL : c == 4 ? SLJIT_ORDERED_LESS : SLJIT_UNORDERED) | (w ? SLJIT_32 : 0);
		setfv(&p, rg(d), w); submit(&p);
	}
	for (i = 0; i < n_ftr; i++) for (w = 0; w < 2; w++) for (c = 0; c < 4; c++) for (f = 1; f < NFO; f++) {
		int d = ftr[i][0], z = ftr[i][2], vs = w ? VS_X32 : VS_X64; opn A;
		if (!mine()) continue;
		if (ftr[i][1] != FR(1) || !form_ok(f, 1)) continue;
		pn(&p); freg_slot(&p, z, w, slot(&p, vs)); A = fop(&p, f, 0, w, slot(&p, vs), 1, 1);
		B_op2u(&p, SLJIT_SUB | (c < 2 ? SLJIT_SET_SIG_GREATER : SLJIT_SET_Z), m1(ST, O_MEM), c & 1 ? m1(ST, O_MEM) : im(-1));
		x = add(&p, K_FSEL, 0, rg(d), A, rg(z)); x->type = (c < 2 ? SLJIT_SIG_GREATER : SLJIT_EQUAL) | (w ? SLJIT_32 : 0);
		setfv(&p, rg(d), w); submit(&p);
	}
}
/* constants and bit copies */
static void consts(void)
{
	int i, j, k; prog_t p; ins_t *x; static const double more[] = { 0.5, 2.0, -2.0, 10.0, 31.0, -31.0, 0.125, 1.9375, 0.1328125, 33.0, 1e-5, 123456789.0, 1.0000001, 65536.0, 4294967296.0, -1e100 };
	for (i = 0; i < NF; i++) for (j = 0; j < vs_n[VS_X64] + 16; j++) { double v = j < vs_n[VS_X64] ? bf(vs_vals[VS_X64][j]) : more[j - vs_n[VS_X64]];
		if (!mine()) continue;
		pn(&p); x = add(&p, K_FSET64, 0, rg(FR(i)), no(), no()); x->f = v; submit(&p); }
	for (i = 0; i < NF; i++) for (j = 0; j < vs_n[VS_X32] + 16; j++) { double v = j < vs_n[VS_X32] ? (double)bf32((u32)vs_vals[VS_X32][j]) : (double)(float)more[j - vs_n[VS_X32]];
		if (!mine()) continue;
		pn(&p); x = add(&p, K_FSET32, 0, rg(FR(i)), no(), no()); x->f = v; p.fv[FR(i)] = 1; submit(&p); }
	for (i = 0; i < NF; i++) for (j = 0; j < NR_SCR; j++) for (k = 0; k < 4; k++) {
		if (!mine()) continue;
		pn(&p);
		if (k == 0) { init_slot(&p, I_REG, R(j), slot(&p, VS_INT)); add(&p, K_FCOPY, SLJIT_COPY_TO_F64, rg(FR(i)), rg(R(j)), no()); }
		else if (k == 1) { init_slot(&p, I_REG, R(j), slot(&p, VS_X32)); add(&p, K_FCOPY, SLJIT_COPY32_TO_F32, rg(FR(i)), rg(R(j)), no()); p.fv[FR(i)] = 1; }
		else if (k == 2) { freg_slot(&p, FR(i), 0, slot(&p, VS_X64)); add(&p, K_FCOPY, SLJIT_COPY_FROM_F64, rg(FR(i)), rg(R(j)), no()); }
		else { freg_slot(&p, FR(i), 1, slot(&p, VS_X32)); add(&p, K_FCOPY, SLJIT_COPY32_FROM_F32, rg(FR(i)), rg(R(j)), no()); if (IS64) p.rv[R(j)] = 32; }
		submit(&p);
	}
	if (!IS64) for (i = 0; i < NF; i++) for (j = 0; j < NR_SCR * NR_SCR; j++) for (k = 0; k < 2; k++) {
		int a = R(j / NR_SCR), b = R(j % NR_SCR);
		if (!mine()) continue;
		if (a == b) continue;
		pn(&p);
		if (k == 0) { init_slot(&p, I_REG, a, slot(&p, VS_INT)); init_slot(&p, I_REG, b, slot(&p, VS_INT)); } else freg_slot(&p, FR(i), 0, slot(&p, VS_X64));
		x = add(&p, K_FCOPY, k ? SLJIT_COPY_FROM_F64 : SLJIT_COPY_TO_F64, rg(FR(i)), no(), no()); x->a.t = SLJIT_REG_PAIR(a, b); submit(&p);
	}
}
/* chains: the result of one operation feeds the next (double rounding, stale representations) */
static void chains(void)
{
	int i, j, w, q; prog_t p;
	for (i = 0; i < 12; i++) for (j = 0; j < 12; j++) for (w = 0; w < 2; w++) for (q = 0; q < 3; q++) {
		int s, k, ks[2]; int vs = w ? VS_X32 : VS_X64; s32 W = w ? SLJIT_32 : 0; int cur = FR(0), oth = FR(1); int curw = w;
		if (!mine()) continue;
		pn(&p); s = slot(&p, vs); freg_slot(&p, cur, w, s); freg_slot(&p, oth, w, slot(&p, vs));
		ks[0] = i; ks[1] = j;
		for (k = 0; k < 2; k++) {
			int d = q == 0 ? cur : q == 1 ? FR(2 + k) : oth; int o = ks[k]; s32 CW = curw ? SLJIT_32 : 0;
			if (o < 4) { if (curw != w) { add(&p, K_FOP1, SLJIT_CONV_F64_FROM_F32 | W, rg(cur), rg(cur), no()); curw = w; p.fv[cur] = w ? 1 : 2; }
				add(&p, K_FOP2, (SLJIT_ADD_F64 + o) | W, rg(d), rg(cur), rg(oth)); setfv(&p, rg(d), w); cur = d; if (d == oth) oth = FR(0) == d ? FR(1) : FR(0); }
			else switch (o) {
			case 4: add(&p, K_FOP1, SLJIT_NEG_F64 | CW, rg(d), rg(cur), no()); setfv(&p, rg(d), curw); cur = d; break;
			case 5: add(&p, K_FOP1, SLJIT_ABS_F64 | CW, rg(d), rg(cur), no()); setfv(&p, rg(d), curw); cur = d; break;
			case 6: add(&p, K_FOP1, SLJIT_CONV_F64_FROM_F32 | (curw ? 0 : SLJIT_32), rg(d), rg(cur), no()); curw = !curw; setfv(&p, rg(d), curw); cur = d; break;
			case 7: add(&p, K_FOP1, SLJIT_MOV_F64 | CW, m1(SLJIT_SP, 32), rg(cur), no()); add(&p, K_FOP1, SLJIT_MOV_F64 | CW, rg(d), m1(SLJIT_SP, 32), no()); setfv(&p, rg(d), curw); cur = d; break;
			case 8: if (curw || IS64) { add(&p, K_FCOPY, curw ? SLJIT_COPY32_FROM_F32 : SLJIT_COPY_FROM_F64, rg(cur), rg(R(4)), no()); p.rv[R(4)] = curw ? 32 : 64; add(&p, K_FCOPY, curw ? SLJIT_COPY32_TO_F32 : SLJIT_COPY_TO_F64, rg(d), rg(R(4)), no()); setfv(&p, rg(d), curw); cur = d; B_op1(&p, SLJIT_MOV, rg(R(4)), im(4)); } break;
			case 9: add(&p, K_FOP1, SLJIT_CONV_SW_FROM_F64 | CW, rg(R(5)), rg(cur), no()); break;
			case 10: add(&p, K_FOP1, SLJIT_CONV_S32_FROM_F64 | CW, rg(R(6)), rg(cur), no()); if (IS64) p.rv[R(6)] = 32; add(&p, K_FOP1, SLJIT_CONV_F64_FROM_S32 | CW, rg(d), rg(R(6)), no()); setfv(&p, rg(d), curw); cur = d; break;
			case 11: add(&p, K_FOP1, SLJIT_CONV_F64_FROM_UW | CW, rg(d), m1(ST, O_MEM + 16), no()); setfv(&p, rg(d), curw); cur = d; break;
			}
			if (cur == oth) { oth = cur == FR(0) ? FR(1) : FR(0); }
			if (p.fv[oth] != (w ? 1 : 2)) { add(&p, K_FOP1, SLJIT_MOV_F64 | W, rg(oth), m1(ST, O_MEM + 40), no()); p.fv[oth] = w ? 1 : 2; }
		}
		submit(&p);
	}
}
/* both halves of a double precision register used as single precision registers */
static void halves(void)
{
	int i, j, k, o; prog_t p; static const int vals[4] = { 0, 2, 12, 14 };
	if (!sljit_has_cpu_feature(SLJIT_HAS_F64_AS_F32_PAIR)) return;
#ifdef SLJIT_CONFIG_MIPS_32
	g_pair = 2;
#else
	g_pair = 1;
#endif
	for (i = 0; i < 2 * NF; i++) for (j = 0; j < 2 * NF; j++) for (o = 0; o < 12; o++) for (k = 0; k < 2; k++) {
		int d = i < NF ? FR(i) : SLJIT_F64_SECOND(FR(i - NF)), s = j < NF ? FR(j) : SLJIT_F64_SECOND(FR(j - NF)), bd = FR(i % NF), bs = FR(j % NF); ins_t *x;
		if (!mine()) continue;
		pn(&p); init_const(&p, I_MEM, 32, (sw)0x3f9d70a4); init_const(&p, I_MEM, 64, (sw)vs_vals[VS_X32][vals[(i + j) & 3]]);
		add(&p, K_FOP1, SLJIT_MOV_F32, rg(s), m1(ST, O_MEM + 32), no());
		if (d != s) add(&p, K_FOP1, SLJIT_MOV_F32, rg(d), m1(ST, O_MEM + 64), no());
		(void)bd; (void)bs;
		switch (o) {
		case 0: add(&p, K_FOP1, SLJIT_MOV_F32, rg(d), rg(s), no()); break;
		case 1: add(&p, K_FOP1, SLJIT_NEG_F32, rg(d), rg(s), no()); break;
		case 2: add(&p, K_FOP1, SLJIT_ABS_F32, rg(d), rg(s), no()); break;
		case 3: add(&p, K_FOP2, SLJIT_ADD_F32, rg(d), rg(s), rg(d)); break;
		case 4: add(&p, K_FOP2, SLJIT_SUB_F32, rg(d), m1(ST, O_MEM + 64), rg(s)); break;
		case 5: add(&p, K_FOP1, SLJIT_MOV_F32, m1(ST, O_MEM + 96), rg(s), no()); break;
		case 6: add(&p, K_FOP2R, SLJIT_COPYSIGN_F32, rg(d), rg(d), rg(s)); break;
		case 7: add(&p, K_FOP1, SLJIT_CONV_S32_FROM_F32, rg(R(0)), rg(s), no()); break;
		case 8: add(&p, K_FOP1, SLJIT_CONV_F32_FROM_S32, rg(d), im(77), no()); break;
		case 9: x = add(&p, K_FCMP, 0, no(), rg(d), rg(s)); x->type = SLJIT_ORDERED_LESS | SLJIT_32; x->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(5), no()); break;
		case 10: x = add(&p, K_FSET32, 0, rg(d), no(), no()); x->f = k ? 1.5 : 3.1415927410125732; break;
		case 11: if (!k) { B_op2u(&p, SLJIT_SUB | SLJIT_SET_Z, rg(R(1)), rg(R(2))); x = add(&p, K_FSEL, 0, rg(d), rg(s), rg(d)); x->type = SLJIT_NOT_EQUAL | SLJIT_32; }
			else add(&p, K_FMEM, SLJIT_MOV_F32 | SLJIT_MEM_UNALIGNED, rg(d), m1(ST, O_MEM + 33), no()); break;
		}
#ifdef SLJIT_CONFIG_MIPS_32
		/* see the known finding: the two parts are independent registers, they are captured one by one */
		add(&p, K_FOP1, SLJIT_MOV_F32, m1(ST, O_MEM + 128), rg(d), no()); add(&p, K_FOP1, SLJIT_MOV_F32, m1(ST, O_MEM + 136), rg(s), no());
		p.fv[bd] = p.fv[bs] = 1;
#endif
		submit(&p);
	}
	flush_batch(); g_pair = 1;
	if (mine()) { /* both parts written, the register is read as a double */
		pn(&p); init_const(&p, I_MEM, 32, (sw)0x3f9d70a4); init_const(&p, I_MEM, 64, (sw)0x408f5e00);
		add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), m1(ST, O_MEM + 32), no()); add(&p, K_FOP1, SLJIT_MOV_F32, rg(SLJIT_F64_SECOND(FR(1))), m1(ST, O_MEM + 64), no());
		add(&p, K_FOP1, SLJIT_MOV_F64, m1(ST, O_MEM + 128), rg(FR(1)), no()); submit(&p);
	}
	flush_batch(); g_pair = 0;
}
int main(int argc, char **argv)
{
	parse_args(argc, argv);
	eng_init("float", 1, 1);
	common_init(); ftr_init();
	unary(); binary(); conversions(); fcmps(); cmpflags(); fselects(); consts(); chains(); halves();
	eng_done();
	return 0;
}
