/* P01: integer operations */
#include "eng.h"
#include "common.h"

static s32 mv_ops[20]; static int n_mv;
static void movs(void)
{
	int i, d, a, k, v;
	n_mv = 0;
	for (i = SLJIT_MOV; i <= SLJIT_MOV_P; i++) {
		if (!IS64 && (i == SLJIT_MOV_U32 || i == SLJIT_MOV_S32 || i == SLJIT_MOV32)) {}
		mv_ops[n_mv++] = i;
		if (i >= SLJIT_MOV_U8 && i <= SLJIT_MOV_S16) mv_ops[n_mv++] = i | SLJIT_32;
	}
	for (i = 0; i < n_mv; i++) {
		/* register to register, all registers */
		for (d = 1; d <= NR_SCR; d++) for (a = 1; a <= NR_SCR; a++) {
			if (!mine()) continue;
			prog_t p; pnew(&p); init_slot(&p, I_REG, a, slot(&p, (mv_ops[i] & SLJIT_32) || mv_ops[i] == SLJIT_MOV32 ? VS_INT : VS_INT));
			B_op1(&p, mv_ops[i], rg(d), rg(a)); submit(&p);
		}
		/* immediates to registers and memory */
		for (v = 0; v < n_imms; v++) for (k = 0; k < n_dforms; k++) {
			if (!mine()) continue;
			prog_t p; opn o; pnew(&p); if (!dform(&p, k, &o, 64, 0)) continue;
			sw iv = (sw)imms[v]; if (mv_ops[i] & SLJIT_32) iv = (sw)(s32)iv; if (mv_ops[i] == SLJIT_MOV32) iv = (sw)(s32)iv;
			B_op1(&p, mv_ops[i], o, im(iv)); submit(&p);
		}
		/* memory forms */
		for (d = 0; d < n_dforms; d++) for (a = 0; a < n_dforms; a++) for (k = 0; k < 2; k++) {
			prog_t p; opn o, q; int s;
			if (!mine()) continue;
			pnew(&p); if (!dform(&p, d, &o, 64, 0) || !dform(&p, a, &q, k ? 64 : 96, 1)) continue;
			s = slot(&p, VS_INT);
			if (isr(q)) { init_slot(&p, I_REG, q.t, s); if (reg_is_ptr(&p, q.t)) continue; }
			else { init_slot(&p, I_MEM, k ? 64 : 96, s); init_slot(&p, I_LOC, k ? 16 : 32, s); }
			B_op1(&p, mv_ops[i], o, q); submit(&p);
		}
	}
}
static void op1s(void)
{
	static const s32 ops[] = { SLJIT_CLZ, SLJIT_CTZ, SLJIT_REV, SLJIT_REV_U16, SLJIT_REV_S16, SLJIT_REV_U32, SLJIT_REV_S32,
		SLJIT_CLZ32, SLJIT_CTZ32, SLJIT_REV32, SLJIT_REV32_U16, SLJIT_REV32_S16 };
	unsigned i; int d, a, k;
	for (i = 0; i < sizeof(ops) / sizeof(*ops); i++) {
		for (d = 1; d <= NR_SCR; d++) for (a = 1; a <= NR_SCR; a++) {
			if (!mine()) continue;
			prog_t p; pnew(&p); init_slot(&p, I_REG, a, slot(&p, VS_INT)); B_op1(&p, ops[i], rg(d), rg(a)); submit(&p);
		}
		for (d = 0; d < n_dforms; d++) for (a = 0; a < n_dforms; a++) for (k = 0; k < 2; k++) {
			prog_t p; opn o, q; int s;
			if (!mine()) continue;
			pnew(&p); if (!dform(&p, d, &o, 64, 0) || !dform(&p, a, &q, k ? 64 : 96, 1)) continue;
			s = slot(&p, VS_INT);
			if (isr(q)) { if (reg_is_ptr(&p, q.t)) continue; init_slot(&p, I_REG, q.t, s); }
			else { init_slot(&p, I_MEM, k ? 64 : 96, s); init_slot(&p, I_LOC, k ? 16 : 32, s); }
			B_op1(&p, ops[i], o, q); submit(&p);
		}
		/* single-bit inputs */
		for (d = 0; d < 2; d++) for (k = 0; k < WBITS; k++) for (a = 0; a < 3; a++) {
			sw v; if (!mine()) continue;
			v = (sw)((uw)1 << k); if (a == 1) v = ~v; if (a == 2) v = (sw)((uw)v - 1);
			prog_t p; pnew(&p); init_const(&p, I_REG, R(1), v); B_op1(&p, ops[i], rg(d ? R(1) : R(2)), rg(R(1))); submit(&p);
		}
	}
}
static int vs_second(s32 op) { int c = opc(op); if (c == SLJIT_SHL || c == SLJIT_LSHR || c == SLJIT_ASHR) return (op & SLJIT_32) ? VS_SHIFT32 : VS_SHIFT; return VS_INT; }

static void op2_carry(prog_t *p, s32 op)
{
	/* carry-in for ADDC/SUBC from a third value: 0 or 1 */
	int c = opc(op);
	if (c == SLJIT_ADDC || c == SLJIT_SUBC) {
		s32 w = op & SLJIT_32;
		if (c == SLJIT_ADDC) add(p, K_OP2U, SLJIT_ADD | w | SLJIT_SET_CARRY, no(), m1(ST, O_CAP(NCAP - 1)), im(-1));
		else add(p, K_OP2U, SLJIT_SUB | w | SLJIT_SET_CARRY, no(), im(0), m1(ST, O_CAP(NCAP - 1)));
	}
}
static sw carry_in;
static void carry_init(prog_t *p, st_t *s) { (void)p; { sw v = carry_in; if (WB == 8) { u64 q = (u64)v | ((u64)v << 32); v = (sw)q; } s->cap[NCAP - 1] = p->tag ? v : 0; } }

static void op2_canon(prog_t *p, s32 op, opn a, opn b) { need(p, a, op); need(p, b, op); op2_carry(p, op); }
static void op2s(void)
{
	int o, w, d, a, b, k, f, ci;
	carry_in = 1; g_extra_init = carry_init;
	for (o = SLJIT_ADD; o <= SLJIT_ROTR; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (ci = 0; ci <= ((o == SLJIT_ADDC || o == SLJIT_SUBC) ? 1 : 0); ci++) {
		s32 op = o | (w ? SLJIT_32 : 0);
		/* all triples from a pool, plus every register in every position */
		for (k = 0; k < n_triples; k++) {
			prog_t p; int s0;
			if (!mine()) continue;
			d = triples[k][0]; a = triples[k][1]; b = triples[k][2];
			pnew(&p); p.tag = (u8)ci; s0 = slot(&p, a == b ? vs_second(op) : VS_INT); init_slot(&p, I_REG, a, s0);
			if (a != b) init_slot(&p, I_REG, b, slot(&p, vs_second(op)));
			op2_canon(&p, op, rg(a), rg(b)); B_op2(&p, op, rg(d), rg(a), rg(b)); submit(&p);
		}
		/* immediates on either side */
		for (k = 0; k < n_imms; k++) for (f = 0; f < 6; f++) {
			prog_t p; sw iv = (sw)imms[k]; opn D, A, B;
			if (!mine()) continue;
			if (w) iv = (sw)(s32)iv;
			pnew(&p); p.tag = (u8)ci;
			D = rg(f % 3 == 0 ? R(0) : f % 3 == 1 ? R(1) : R(3)); A = rg(f % 3 == 2 ? R(3) : R(1)); B = im(iv);
			if (f >= 3) { opn t = A; A = B; B = t; }
			init_slot(&p, I_REG, f % 3 == 2 ? R(3) : R(1), slot(&p, f >= 3 ? vs_second(op) : VS_INT));
			op2_canon(&p, op, A, B); B_op2(&p, op, D, A, B); submit(&p);
		}
		/* two immediates */
		for (k = 0; k < n_imms; k += 3) for (f = 0; f < n_imms; f += 5) {
			prog_t p; sw x = (sw)imms[k], y = (sw)imms[f]; if (!mine()) continue;
			if (w) { x = (sw)(s32)x; y = (sw)(s32)y; }
			pnew(&p); p.tag = (u8)ci; op2_canon(&p, op, im(x), im(y)); B_op2(&p, op, rg(R(2)), im(x), im(y)); submit(&p);
		}
		/* memory operands in any position; same or different locations */
		for (d = 0; d < n_dforms; d++) for (a = 0; a <= n_dforms; a++) for (b = 0; b <= n_dforms; b++) for (k = 0; k < 2; k++) {
			prog_t p; opn D, A, B; int s;
			if (!mine()) continue;
			pnew(&p); p.tag = (u8)ci;
			if (!dform(&p, d, &D, 64, 0)) continue;
			if (a == n_dforms) { A = im(0x1234); } else if (!dform(&p, a, &A, k ? 64 : 96, 1)) continue;
			if (b == n_dforms) { B = im(w ? 29 : WBITS - 3); } else if (!dform(&p, b, &B, 128, 2)) continue;
			if (!(D.t & SLJIT_MEM) && !(A.t & SLJIT_MEM) && !(B.t & SLJIT_MEM)) continue;
			if ((isr(A) && reg_is_ptr(&p, A.t)) || (isr(B) && reg_is_ptr(&p, B.t))) continue;
			s = slot(&p, VS_SMALL);
			if (isr(A)) init_slot(&p, I_REG, A.t, s);
			else if (A.t & SLJIT_MEM) { init_slot(&p, I_MEM, k ? 64 : 96, s); init_slot(&p, I_LOC, k ? 16 : 32, s); }
			s = slot(&p, vs_second(op) == VS_INT ? VS_SMALL : vs_second(op));
			if (isr(B)) init_slot(&p, I_REG, B.t, s);
			else if (B.t & SLJIT_MEM) { init_slot(&p, I_MEM, 128, s); init_slot(&p, I_LOC, 48, s); if (w && IS64 && s == 1) {} }
			op2_canon(&p, op, A, B); B_op2(&p, op, D, A, B); submit(&p);
		}
	}
	flush_batch();
	g_extra_init = NULL;
}
/* immediate encoders: +-2^i+-2^j and byte patterns */
static void immgen(void)
{
	static const s32 ops[] = { SLJIT_MOV, SLJIT_ADD, SLJIT_SUB, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_MUL };
	int o, i, j, k, w;
	for (o = 0; o < 7; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (i = 0; i < (w ? 32 : WBITS); i++) for (j = 0; j <= i; j++) for (k = 0; k < 6; k++) {
		uw v = (uw)1 << i, x = (uw)1 << j; prog_t p;
		if (!g_thorough && (o == 6 || k >= 4) && (i + j) % 5) continue;
		if (!mine()) continue;
		switch (k) { case 0: v += x; break; case 1: v -= x; break; case 2: v = ~(v + x); break; case 3: v = ~(v - x); break;
		case 4: v = (uw)0x9d << i; v ^= x; break; default: v = ((uw)0xabcdef0123456789ull >> (WBITS - 1 - i)) ^ x; }
		if (w) v = (uw)(sw)(s32)v;
		pnew(&p);
		if (o == 0) { if (w) B_op1(&p, SLJIT_MOV32, rg(R((i + j) % NR_SCR)), im((sw)v)); else B_op1(&p, SLJIT_MOV, rg(R((i + j) % NR_SCR)), im((sw)v)); }
		else { int r = R((i * 3 + j) % 5); init_slot(&p, I_REG, r, slot(&p, VS_SMALL));
			B_op2(&p, ops[o] | (w ? SLJIT_32 : 0), rg((k & 1) ? r : R(5)), rg(r), im((sw)v)); }
		submit(&p);
	}
}
static void shifts(void)
{
	/* every shift amount, register and immediate, in-place and not; both shift_into directions */
	int o, w, n, f; static const int so[] = { SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR, SLJIT_ASHR, SLJIT_MASHR, SLJIT_ROTL, SLJIT_ROTR };
	for (o = 0; o < 8; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (n = -3; n < 2 * WBITS; n++) for (f = 0; f < 8; f++) {
		s32 op = so[o] | (w ? SLJIT_32 : 0); prog_t p; int d, a, b; int bits = w ? 32 : WBITS;
		if (f >= 4 && !(so[o] == SLJIT_MSHL || so[o] == SLJIT_MLSHR || so[o] == SLJIT_MASHR || so[o] >= SLJIT_ROTL) && (n < 0 || n >= bits)) continue;
		if (!mine()) continue;
		pnew(&p);
		switch (f & 3) { case 0: d = R(0); a = R(1); b = R(2); break; case 1: d = R(1); a = R(1); b = R(3); break; case 2: d = R(3); a = R(2); b = R(3); break; default: d = R(4); a = R(3); b = R(1); }
		init_slot(&p, I_REG, a, slot(&p, VS_INT));
		if (f < 4) B_op2(&p, op, rg(d), rg(a), im(n));
		else { init_const(&p, I_REG, b, n); B_op2(&p, op, rg(d), rg(a), rg(b)); }
		submit(&p);
	}
	/* shift_into */
	for (o = 0; o < 4; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (n = 0; n < WBITS + 3; n++) for (f = 0; f < 14; f++) {
		s32 op = so[o] | (w ? SLJIT_32 : 0); prog_t p; int d, s1, s2, s3; ins_t *x; int bits = w ? 32 : WBITS, imm = f >= 7, nz;
		for (nz = 0; nz < 2; nz++) {
		if (!imm && (o == 0 || o == 2) && n >= bits) continue;
		if (nz && (n & (bits - 1)) == 0) continue;
		if (!mine()) continue;
		switch (f % 7) { case 0: d = R(0); s1 = R(1); s2 = R(2); s3 = R(3); break; case 1: d = R(0); s1 = R(0); s2 = R(1); s3 = R(2); break; case 2: d = R(3); s1 = R(0); s2 = R(2); s3 = R(3); break;
		case 3: d = R(1); s1 = R(3); s2 = R(0); s3 = R(3); break; case 4: d = R(2); s1 = R(3); s2 = R(3); s3 = R(1); break; case 5: d = R(4); s1 = R(1); s2 = R(3); s3 = R(0); break;
		default: d = R(1); s1 = R(2); s2 = R(4); s3 = R(1); break; }
		if (!imm && (s3 == s1 || s3 == s2)) { }
		pnew(&p);
		init_slot(&p, I_REG, s1, slot(&p, VS_INT)); if (s2 != s1) init_slot(&p, I_REG, s2, slot(&p, VS_INT));
		if (!imm) { if (s3 == s1 || s3 == s2) { p.ni = 0; p.ns = 0; if (s1 != s3) init_slot(&p, I_REG, s1, slot(&p, VS_INT)); if (s2 != s3 && s2 != s1) init_slot(&p, I_REG, s2, slot(&p, VS_INT)); } init_const(&p, I_REG, s3, n); }
		need(&p, rg(s1), op); need(&p, rg(s2), op); if (!imm) need(&p, rg(s3), op);
		x = add(&p, K_SHI, op | (nz ? SLJIT_SHIFT_INTO_NON_ZERO : 0), rg(d), rg(s1), imm ? im(n) : rg(s3)); x->type = s2; setrv(&p, rg(d), op);
		submit(&p);
		}
	}
	/* shift_into: every assignment of five registers to the four operands */
	for (o = 0; o < 4; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (n = 0; n < 5; n++) for (f = 0; f < 625; f++) {
		static const int am[] = { 0, 1, 13, 31, 32 }; s32 op = so[o] | (w ? SLJIT_32 : 0); prog_t p; ins_t *x; int bits = w ? 32 : WBITS;
		int pool[5] = { R(0), R(1), R(2), R(3), R(5) }, d = pool[f % 5], s1 = pool[f / 5 % 5], s2 = pool[f / 25 % 5], s3 = pool[f / 125], nz = am[n] & (bits - 1) & 1;
		if (am[n] >= bits && (o == 0 || o == 2)) continue;
		if (d == s2 && s1 != s2) continue;
		if (!mine()) continue;
		if (d == s2) continue;
		pnew(&p);
		if (s1 != s3) init_slot(&p, I_REG, s1, slot(&p, VS_SMALL));
		if (s2 != s3 && s2 != s1) init_slot(&p, I_REG, s2, slot(&p, VS_SMALL));
		init_const(&p, I_REG, s3, am[n]);
		need(&p, rg(s1), op); need(&p, rg(s2), op); need(&p, rg(s3), op);
		x = add(&p, K_SHI, op | (nz ? SLJIT_SHIFT_INTO_NON_ZERO : 0), rg(d), rg(s1), rg(s3)); x->type = s2; setrv(&p, rg(d), op);
		submit(&p);
	}
	/* shift_into with a memory amount */
	for (o = 0; o < 4; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (n = 0; n < 8; n++) for (f = 0; f < n_dforms; f++) {
		static const int am[] = { 0, 1, 5, 16, 30, 31, 33, 63 }; s32 op = so[o] | (w ? SLJIT_32 : 0); prog_t p; opn A; ins_t *x; int bits = w ? 32 : WBITS;
		if (am[n] >= bits && (o == 0 || o == 2)) continue;
		if (!mine()) continue;
		pnew(&p); if (!dform(&p, f, &A, 96, 1) || isr(A)) continue;
		{ int q, s1 = R(1), s2 = R(2); for (q = 0; q < NR_SCR; q++) if (!reg_is_ptr(&p, R(q))) { s1 = R(q); break; } for (q++; q < NR_SCR; q++) if (!reg_is_ptr(&p, R(q))) { s2 = R(q); break; }
		init_slot(&p, I_REG, s1, slot(&p, VS_SMALL)); init_slot(&p, I_REG, s2, slot(&p, VS_SMALL));
		if (w) { u32 a2[2]; a2[0] = a2[1] = (u32)am[n]; sw v; memcpy(&v, a2, WB); init_const(&p, I_MEM, 96, v); init_const(&p, I_LOC, 32, v); } else { init_const(&p, I_MEM, 96, am[n]); init_const(&p, I_LOC, 32, am[n]); }
		need(&p, rg(s1), op); need(&p, rg(s2), op);
		x = add(&p, K_SHI, op, rg(s1), rg(s1), A); x->type = s2; setrv(&p, rg(s1), op); }
		submit(&p);
	}
}
static void muldiv(void)
{
	static const s32 ops[] = { SLJIT_LMUL_UW, SLJIT_LMUL_SW, SLJIT_DIVMOD_UW, SLJIT_DIVMOD_U32, SLJIT_DIVMOD_SW, SLJIT_DIVMOD_S32, SLJIT_DIV_UW, SLJIT_DIV_U32, SLJIT_DIV_SW, SLJIT_DIV_S32 };
	int i, k, f, d, a, b, w;
	for (i = 0; i < 10; i++) {
		prog_t p; if (!mine()) continue;
		pnew(&p); init_slot(&p, I_REG, R(0), slot(&p, VS_DIV)); init_slot(&p, I_REG, R(1), slot(&p, VS_DIV));
		need(&p, rg(R(0)), ops[i]); need(&p, rg(R(1)), ops[i]);
		add(&p, K_OP0, ops[i], no(), no(), no()); submit(&p);
	}
	for (w = 0; w <= (IS64 ? 1 : 0); w++) {
		s32 op = SLJIT_MULADD | (w ? SLJIT_32 : 0);
		for (k = 0; k < n_triples; k++) {
			prog_t p; if (!mine()) continue;
			d = triples[k][0]; a = triples[k][1]; b = triples[k][2]; pnew(&p);
			init_slot(&p, I_REG, a, slot(&p, VS_SMALL)); if (b != a) init_slot(&p, I_REG, b, slot(&p, VS_SMALL)); if (d != a && d != b) init_slot(&p, I_REG, d, slot(&p, VS_SMALL));
			need(&p, rg(a), op); need(&p, rg(b), op); need(&p, rg(d), op);
			add(&p, K_OP2R, op, rg(d), rg(a), rg(b)); setrv(&p, rg(d), op); submit(&p);
		}
		for (a = 0; a <= n_dforms; a++) for (b = 0; b <= n_dforms; b++) for (f = 0; f < 2; f++) {
			prog_t p; opn A, B; int s, q; if (!mine()) continue;
			pnew(&p); if (a == n_dforms) A = im(-7); else if (!dform(&p, a, &A, 96, 1)) continue;
			if (b == n_dforms) B = im(0x12345); else if (!dform(&p, b, &B, f ? 96 : 128, 2)) continue;
			if ((isr(A) && reg_is_ptr(&p, A.t)) || (isr(B) && reg_is_ptr(&p, B.t))) continue;
			for (d = 0; d < NR_SCR; d++) if (!reg_is_ptr(&p, R(d))) break;
			s = slot(&p, VS_SMALL); if (isr(A)) init_slot(&p, I_REG, A.t, s); init_slot(&p, I_MEM, 96, s); init_slot(&p, I_LOC, 32, s);
			q = slot(&p, VS_SMALL); if (isr(B)) init_slot(&p, I_REG, B.t, q); if (!f) { init_slot(&p, I_MEM, 128, q); init_slot(&p, I_LOC, 48, q); }
			if (isr(A) && isr(B) && A.t == B.t) {}
			init_const(&p, I_REG, R(d), 0x55aa);
			need(&p, A, op); need(&p, B, op); need(&p, rg(R(d)), op);
			add(&p, K_OP2R, op, rg(R(d)), A, B); setrv(&p, rg(R(d)), op); submit(&p);
		}
	}
}
/* every destination against every address register of the sources: base, index, shift register, and the sources themselves */
static int al_src(int k, opn *o, int w)
{
	int y = IS_VIRT(R(3)) ? R(2) : R(3);
	switch (k) {
	case 0: *o = rg(w ? R(5) : R(0)); return 1; case 1: *o = rg(w ? R(5) : R(1)); return !w; case 2: *o = rg(w ? R(5) : R(2)); return !w; case 3: *o = rg(w ? R(5) : y); return !w;
	case 4: *o = m1(R(0), 8); return 1; case 5: *o = m1(R(1), 16); return 1; case 6: *o = m1(R(2), (sw)g_st->mem - 16); return 1;
	case 7: *o = m2(R(0), R(2), WB == 8 ? 3 : 2); return 1; case 8: *o = m2(R(1), y, 2); return 1; case 9: *o = m2(y, R(1), 0); return 1; case 10: *o = m2(R(2), R(0), 0); return 1;
	case 11: *o = im(5); return 1; case 12: *o = im((sw)0x12345678); return 1; case 13: *o = m2(R(0), R(2), 0); return 1; case 14: *o = m1(R(1), -0x12340 + 8); return 1; }
	return 0;
}
static int al_dst(int k, opn *o)
{
	int y = IS_VIRT(R(3)) ? R(2) : R(3);
	switch (k) { case 0: *o = rg(R(0)); return 1; case 1: *o = rg(R(1)); return 1; case 2: *o = rg(R(2)); return 1; case 3: *o = rg(y); return 1; case 4: *o = rg(R(5)); return 1;
	case 5: *o = m1(R(0), 8); return 1; case 6: *o = m2(R(0), R(2), WB == 8 ? 3 : 2); return 1; case 7: *o = m2(R(1), y, 2); return 1; case 8: *o = m1(ST, O_MEM + 160); return 1; }
	return 0;
}
static void al_new(prog_t *p, opn A, opn B, int sh)
{
	int y = IS_VIRT(R(3)) ? R(2) : R(3), far = (A.t & SLJIT_MEM && A.w == -0x12340 + 8) || (B.t & SLJIT_MEM && B.w == -0x12340 + 8), q;
	pnew(p); ptr_init(p, R(0), (sw)g_st->mem + 32); ptr_init(p, R(1), (sw)g_st->mem + 96 + (far ? 0x12340 : 0)); ptr_init(p, R(2), 16); if (y != R(2)) ptr_init(p, y, 8);
	init_const(p, I_REG, R(5), sh ? 3 : (sw)0x1357);
	/* small values everywhere, so that a memory operand can be a shift amount too */
	for (q = 0; q < 224; q += 8) { u32 v2[2]; sw v; v2[0] = v2[1] = 1 + (u32)(q / 8 * 5) % 29; memcpy(&v, v2, WB); if (!IS64) v = 1 + (q / 8 * 5) % 29; if (p->ni < (int)(sizeof(p->it) / sizeof(p->it[0])) - 1) init_const(p, I_MEM, q, v); }
}
static void aliases(void)
{
	int o, w, d, a, b, i; prog_t p; opn D, A, B; ins_t *x;
	for (o = SLJIT_ADD; o <= SLJIT_ROTR; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (d = 0; d < 9; d++) for (a = 0; a < 15; a++) for (b = 0; b < 15; b++) {
		int c = opc(o), sh = c >= SLJIT_SHL;
		if (!mine()) continue;
		if (!al_dst(d, &D) || !al_src(a, &A, w) || !al_src(b, &B, w)) continue;
		if ((a == 14 && (b == 5 || b == 8 || b == 9)) || (b == 14 && (a == 5 || a == 8 || a == 9)) || ((a == 14 || b == 14) && d == 7)) continue;
		if (sh && B.t == SLJIT_IMM && (c == SLJIT_SHL || c == SLJIT_LSHR || c == SLJIT_ASHR)) B = im(5);
		if (sh && (c == SLJIT_SHL || c == SLJIT_LSHR || c == SLJIT_ASHR) && !w && (b == 0 || b == 1)) continue;
		if (sh && !IS64 && (b == 6)) {}
		al_new(&p, A, B, sh); op2_canon(&p, o | (w ? SLJIT_32 : 0), A, B); B_op2(&p, o | (w ? SLJIT_32 : 0), D, A, B); submit(&p);
	}
	for (i = 0; i < n_mv + 12; i++) for (d = 0; d < 9; d++) for (a = 0; a < 15; a++) {
		static const s32 ops[] = { SLJIT_CLZ, SLJIT_CTZ, SLJIT_REV, SLJIT_REV_U16, SLJIT_REV_S16, SLJIT_REV_U32, SLJIT_REV_S32, SLJIT_CLZ32, SLJIT_CTZ32, SLJIT_REV32, SLJIT_REV32_U16, SLJIT_REV32_S16 };
		s32 op = i < n_mv ? mv_ops[i] : ops[i - n_mv]; int w2 = (op & SLJIT_32) != 0 || op == SLJIT_MOV32;
		if (!mine()) continue;
		if (!al_dst(d, &D) || !al_src(a, &A, w2)) continue;
		if (A.t == SLJIT_IMM && i >= n_mv) continue;
		if (a == 14 && d == 7) continue;
		al_new(&p, A, A, 0); B_op1(&p, op, D, A); submit(&p);
	}
	for (w = 0; w <= (IS64 ? 1 : 0); w++) for (d = 0; d < 5; d++) for (a = 0; a < 15; a++) for (b = 0; b < 15; b++) {
		s32 op = SLJIT_MULADD | (w ? SLJIT_32 : 0);
		if (!mine()) continue;
		if (!al_dst(d, &D) || !al_src(a, &A, w) || !al_src(b, &B, w)) continue;
		if ((a == 14 && (b == 5 || b == 8 || b == 9)) || (b == 14 && (a == 5 || a == 8 || a == 9)) || (w && d != 4)) continue;
		al_new(&p, A, B, 0); need(&p, A, op); need(&p, B, op); need(&p, D, op); add(&p, K_OP2R, op, D, A, B); setrv(&p, D, op); submit(&p);
	}
	/* select and shift_into with a memory operand addressed by the other operands */
	for (w = 0; w <= (IS64 ? 1 : 0); w++) for (d = 0; d < 5; d++) for (a = 4; a < 15; a++) for (b = 0; b < 5; b++) for (i = 0; i < 4; i++) {
		if (!mine()) continue;
		if (!al_dst(d, &D) || !al_src(a, &A, w) || !al_dst(b, &B) || (w && b != 4)) continue;
		al_new(&p, A, A, 0); need(&p, B, w ? SLJIT_32 : 0);
		B_op2u(&p, SLJIT_SUB | (i < 2 ? SLJIT_SET_Z : SLJIT_SET_LESS), m1(ST, O_MEM + 200), im(i & 1 ? 3 : 1000)); x = add(&p, K_SEL, 0, D, A, B); x->type = (i < 2 ? SLJIT_NOT_EQUAL : SLJIT_LESS) | (w ? SLJIT_32 : 0); setrv(&p, D, w ? SLJIT_32 : 0);
		submit(&p);
	}
	for (o = 0; o < 4; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (d = 0; d < 5; d++) for (a = 0; a < 5; a++) for (b = 0; b < 5; b++) for (i = 4; i < 15; i++) {
		static const int so[] = { SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR }; opn C; s32 op = so[o] | (w ? SLJIT_32 : 0);
		if (!mine()) continue;
		if (!al_dst(d, &D) || !al_dst(a, &A) || !al_dst(b, &B) || !al_src(i, &C, w) || D.t == B.t || C.t == SLJIT_IMM || (w && (a != 4 || b != 4))) continue;
		al_new(&p, C, C, 1); need(&p, A, op); need(&p, B, op);
		x = add(&p, K_SHI, op, D, A, C); x->type = B.t; setrv(&p, D, op); submit(&p);
	}
}
int main(int argc, char **argv)
{
	parse_args(argc, argv);
	eng_init("int", 0, 1);
	common_init();
	movs(); op1s(); op2s(); shifts(); muldiv(); immgen(); aliases();
	eng_done();
	return 0;
}
