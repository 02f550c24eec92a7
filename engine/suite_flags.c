/* P02: status flags */
#include "eng.h"
#include "common.h"

static int fl_imm[32], n_fl_imm;
static const s32 prod_ops[] = { SLJIT_ADD, SLJIT_SUB, SLJIT_MUL, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR, SLJIT_ASHR, SLJIT_MASHR };
static int legal_flags(int op, s32 *out)
{
	static const int sv[] = { SLJIT_LESS, SLJIT_GREATER, SLJIT_SIG_LESS, SLJIT_SIG_GREATER, SLJIT_OVERFLOW, SLJIT_CARRY }; int n = 0, i;
	if (op == SLJIT_MUL) { out[n++] = SLJIT_SET_OVERFLOW; return n; }
	out[n++] = SLJIT_SET_Z;
	if (op == SLJIT_ADD) { for (i = 4; i < 6; i++) { out[n++] = SLJIT_SET(sv[i]); out[n++] = SLJIT_SET(sv[i]) | SLJIT_SET_Z; } }
	if (op == SLJIT_SUB) { for (i = 0; i < 6; i++) { out[n++] = SLJIT_SET(sv[i]); out[n++] = SLJIT_SET(sv[i]) | SLJIT_SET_Z; } }
	return n;
}
static int shifty(int c) { return c >= SLJIT_SHL && c <= SLJIT_MASHR; }
static int vs2(s32 op) { int c = opc(op); if (c == SLJIT_SHL || c == SLJIT_LSHR || c == SLJIT_ASHR) return (op & SLJIT_32) ? VS_SHIFT32 : VS_SHIFT; return shifty(c) ? VS_SHIFT : VS_INT; }

/* operand forms; returns 0 if not applicable. iv: the immediate of the form */
#define NFORMS 19
static int form_imm(int f) { return f == 4 || f == 5 || f == 6 || f == 7 || f == 13 || f == 15 || f == 18; }
static int producer(prog_t *p, s32 op, int f, sw iv)
{
	opn D, A, B; int s = -1, q = -1, u = 0, mem = R(3), hi = R(NR_SCR - 1), mid = R(NR_SCR / 2);
	int w = op & SLJIT_32;
	if (w) iv = (sw)(s32)iv;
	if (IS_VIRT(R(3))) mem = R(2);
	#define MA m1(ST, O_MEM + 64)
	#define MB m1(ST, O_MEM + 96)
	#define MD m1(ST, O_MEM + 128)
	(void)mem;
	D = rg(R(2)); A = rg(R(0)); B = rg(R(1));
	switch (f) {
	case 0: break;
	case 1: D = A; break;
	case 2: D = B; break;
	case 3: u = 1; break;
	case 4: u = 1; B = im(iv); break;
	case 5: u = 1; A = im(iv); B = rg(R(0)); break;
	case 6: B = im(iv); break;
	case 7: D = A; B = im(iv); break;
	case 8: D = MD; break;
	case 9: D = MA; A = MA; break;
	case 10: A = MA; break;
	case 11: u = 1; A = MA; break;
	case 12: u = 1; B = MB; break;
	case 13: u = 1; A = MA; B = im(iv); break;
	case 14: u = 1; A = MA; B = MB; break;
	case 15: A = im(iv); B = rg(R(1)); break;
	case 16: B = A; break;
	case 17: D = rg(mid); A = rg(hi); B = rg(R(3)); break;
	case 18: D = MA; A = MA; B = im(iv); break;
	}
	if (A.t != SLJIT_IMM) { s = slot(p, f == 16 && shifty(opc(op)) ? vs2(op) : VS_INT); if (isr(A)) init_slot(p, I_REG, A.t, s); else init_slot(p, I_MEM, 64, s); }
	if (B.t != SLJIT_IMM && f != 16) { q = slot(p, vs2(op)); if (isr(B)) init_slot(p, I_REG, B.t, q); else init_slot(p, I_MEM, 96, q); }
	/* 32 bit values in memory on big-endian machines: the word at the address is the high half; any 32 bit pattern does */
	need(p, A, op); need(p, B, op);
	if (u) B_op2u(p, op, A, B); else B_op2(p, op, D, A, B);
	(void)s; (void)q;
	return 1;
}
static int caps(prog_t *p, s32 op, int i)
{
	int ft = (op >> 10) & 0x3f;
	if (op & SLJIT_SET_Z) { B_capf(p, i++, SLJIT_EQUAL); B_capf(p, i++, SLJIT_NOT_EQUAL); }
	if (ft) { B_capf(p, i++, ft); B_capf(p, i++, ft | 1); }
	if (op & SLJIT_SET_Z) B_capf(p, i++, SLJIT_EQUAL);
	return i;
}
static int setz_ok(int w) { return w; }

static void prods(void)
{
	int o, w, k, f, v, n; s32 fl[20];
	for (o = 0; o < 12; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) {
		n = legal_flags(prod_ops[o], fl);
		for (k = 0; k < n; k++) for (f = 0; f < NFORMS; f++) for (v = 0; v < (form_imm(f) ? n_imms : 1); v++) {
			prog_t p; s32 op = prod_ops[o] | (w ? SLJIT_32 : 0) | fl[k];
			sw iv = (sw)imms[v];
			if (shifty(prod_ops[o]) && form_imm(f)) { if (f == 5 || f == 15) { if (v > 12) continue; } else { if (v > 6) continue; iv = v == 5 ? 31 : v == 6 ? 32 : v; } }
			if (!mine()) continue;
			pnew(&p);
			if (!producer(&p, op, f, iv)) continue;
			caps(&p, op, 0); submit(&p);
		}
	}
	(void)setz_ok;
}
/* instructions that must leave the flags alone */
#define NNEUT 30
static int neutral(prog_t *p, int k)
{
	int a = R(4), b = R(5), m = IS_VIRT(R(3)) ? R(2) : R(3); ins_t *x;
	switch (k) {
	case 0: add(p, K_OP1, SLJIT_MOV, rg(a), rg(b), no()); break;
	case 1: add(p, K_OP1, SLJIT_MOV, rg(a), im(0), no()); break;
	case 2: add(p, K_OP1, SLJIT_MOV, rg(b), im(1), no()); break;
	case 3: add(p, K_OP1, SLJIT_MOV, rg(R(1)), im(0), no()); p->rv[R(1)] = 64; break;
	case 4: add(p, K_OP1, SLJIT_MOV, rg(b), im((sw)0x123456789abcdef0ull), no()); break;
	case 5: add(p, K_OP1, SLJIT_MOV, rg(a), m1(ST, O_MEM + 160), no()); break;
	case 6: add(p, K_OP1, SLJIT_MOV, m1(ST, O_MEM + 168), rg(b), no()); break;
	case 7: add(p, K_OP1, SLJIT_MOV, m1(ST, O_MEM + 176), m1(ST, O_MEM + 160), no()); break;
	case 8: add(p, K_OP1, SLJIT_MOV, m1(ST, O_MEM + 176), im(0), no()); break;
	case 9: add(p, K_OP1, SLJIT_MOV_U8, rg(a), m1(ST, O_MEM + 161), no()); break;
	case 10: add(p, K_OP1, SLJIT_MOV_S16, rg(a), rg(b), no()); break;
	case 11: add(p, K_OP1, SLJIT_MOV_U8, rg(a), rg(b), no()); break;
	case 12: add(p, K_OP1, SLJIT_MOV_S8, m1(ST, O_MEM + 176), rg(b), no()); break;
	case 13: add(p, K_OP1, SLJIT_MOV_U32, rg(a), rg(b), no()); break;
	case 14: add(p, K_OP1, SLJIT_MOV32, rg(a), rg(b), no()); p->rv[a] = IS64 ? 32 : 64; break;
	case 15: add(p, K_OP1, SLJIT_MOV_S32, rg(a), m1(ST, O_MEM + 160), no()); break;
	case 16: add(p, K_OP1, SLJIT_MOV, rg(a), m0((void *)(g_st->mem + 160)), no()); break;
	case 17: add(p, K_OP1, SLJIT_MOV, m0((void *)(g_st->mem + 168)), im(0), no()); break;
	case 18: add(p, K_OP1, SLJIT_MOV, rg(a), m1(SLJIT_SP, 8), no()); break;
	case 19: add(p, K_OP1, SLJIT_MOV, m1(SLJIT_SP, 8), im(-1), no()); break;
	case 20: add(p, K_FOP1, SLJIT_MOV_F64, rg(FR(1)), rg(FR(2)), no()); break;
	case 21: add(p, K_FOP1, SLJIT_MOV_F64, rg(FR(1)), m1(ST, O_MEM + 0), no()); break;
	case 22: add(p, K_FOP1, SLJIT_MOV_F64, m1(ST, O_MEM + 0), rg(FR(3)), no()); break;
	case 23: add(p, K_OP0, SLJIT_NOP, no(), no(), no()); break;
	case 24: add(p, K_MEM, SLJIT_MOV | SLJIT_MEM_UNALIGNED, rg(a), m1(ST, O_MEM + 161), no()); break;
	case 25: add(p, K_MEM, SLJIT_MOV | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED, rg(b), m1(ST, O_MEM + 171), no()); break;
	case 26: x = add(p, K_MEM, SLJIT_MOV, rg(0), m1(ST, O_MEM + 160), no()); x->d.t = SLJIT_REG_PAIR(a, b); break;
	case 27: if (IS_VIRT(R(3))) return 0; init_const(p, I_REG, m, (sw)g_st->mem - 4000); add(p, K_OP1, SLJIT_MOV, rg(a), m1(m, 4000 + 160), no()); break;
	case 28: if (IS_VIRT(R(3))) return 0; init_const(p, I_REG, m, (sw)g_st->mem + 100000); add(p, K_OP1, SLJIT_MOV, m1(m, 168 - 100000), rg(b), no()); break;
	case 29: add(p, K_OP0, SLJIT_MEMORY_BARRIER, no(), no(), no()); p->allow_unsup = 1; break;
	}
	return 1;
}
#define NCONS 37
/* consumer forms for condition `t`; returns 0 when the form ends the flags */
static int consumer(prog_t *p, int k, int t)
{
	ins_t *x; int a = R(4), b = R(5), w = IS64 ? SLJIT_32 : SLJIT_32;
	switch (k) {
	case 0: x = add(p, K_OPF, SLJIT_MOV, rg(a), no(), no()); x->type = t; return 1;
	case 1: x = add(p, K_OPF, SLJIT_MOV, rg(R(1)), no(), no()); x->type = t; p->rv[R(1)] = 64; return 1;
	case 2: x = add(p, K_OPF, SLJIT_MOV, m1(ST, O_MEM + 200), no(), no()); x->type = t; return 1;
	case 3: x = add(p, K_OPF, SLJIT_MOV32, rg(b), no(), no()); x->type = t; if (IS64) p->rv[b] = 32; return 1;
	case 4: x = add(p, K_OPF, SLJIT_MOV32, m1(ST, O_MEM + 204), no(), no()); x->type = t; return 1;
	case 5: case 6: case 7: { static const s32 o[] = { SLJIT_AND, SLJIT_OR, SLJIT_XOR }; x = add(p, K_OPF, o[k - 5], rg(a), no(), no()); x->type = t; return 0; }
	case 8: case 9: case 10: { static const s32 o[] = { SLJIT_AND, SLJIT_OR, SLJIT_XOR }; x = add(p, K_OPF, o[k - 8], m1(ST, O_MEM + 200), no(), no()); x->type = t; return 0; }
	case 11: case 12: case 13: { static const s32 o[] = { SLJIT_AND, SLJIT_OR, SLJIT_XOR }; x = add(p, K_OPF, o[k - 11] | w, m1(ST, O_MEM + 200), no(), no()); x->type = t; return 0; }
	case 14: case 15: case 16: { static const s32 o[] = { SLJIT_AND, SLJIT_OR, SLJIT_XOR }; x = add(p, K_OPF, o[k - 14] | SLJIT_SET_Z, rg(b), no(), no()); x->type = t; B_capf(p, 8, SLJIT_EQUAL); B_capf(p, 9, SLJIT_NOT_EQUAL); return 0; }
	case 17: x = add(p, K_OPF, SLJIT_OR | SLJIT_SET_Z, m1(ST, O_MEM + 200), no(), no()); x->type = t; B_capf(p, 8, SLJIT_EQUAL); return 0;
	case 18: x = add(p, K_SEL, 0, rg(a), rg(b), rg(R(6))); x->type = t; return 1;
	case 19: x = add(p, K_SEL, 0, rg(a), rg(a), rg(b)); x->type = t; return 1;
	case 20: x = add(p, K_SEL, 0, rg(a), rg(b), rg(a)); x->type = t; return 1;
	case 21: x = add(p, K_SEL, 0, rg(a), im(0x1234567), rg(b)); x->type = t; return 1;
	case 22: x = add(p, K_SEL, 0, rg(a), im(-1), rg(a)); x->type = t; return 1;
	case 23: x = add(p, K_SEL, 0, rg(a), m1(ST, O_MEM + 192), rg(b)); x->type = t; return 1;
	case 24: x = add(p, K_SEL, 0, rg(a), m1(ST, O_MEM + 192), rg(a)); x->type = t; return 1;
	case 25: x = add(p, K_SEL, 0, rg(a), m0((void *)(g_st->mem + 192)), rg(b)); x->type = t; return 1;
	case 26: if (IS_VIRT(a)) { x = add(p, K_SEL, 0, rg(a), m1(ST, O_MEM + 192), rg(b)); x->type = t; return 1; } x = add(p, K_SEL, 0, rg(a), m1(a, 0), rg(b)); init_const(p, I_REG, a, (sw)(g_st->mem + 192)); x->type = t; return 1;
	case 27: x = add(p, K_SEL, 0, rg(a), rg(a), rg(a)); x->type = t; return 1;
	case 28: x = add(p, K_FSEL, 0, rg(FR(0)), rg(FR(1)), rg(FR(2))); x->type = t; return 1;
	case 29: x = add(p, K_FSEL, 0, rg(FR(0)), rg(FR(1)), rg(FR(0))); x->type = t; return 1;
	case 30: x = add(p, K_FSEL, 0, rg(FR(0)), m1(ST, O_MEM + 192), rg(FR(2))); x->type = t; return 1;
	case 31: x = add(p, K_FSEL, 0, rg(FR(0)), rg(FR(0)), rg(FR(2))); x->type = t; return 1;
	case 32: x = add(p, K_JMPF, 0, no(), no(), no()); x->type = t; x->skip = 1; add(p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(20)), im(77), no()); return 0;
	case 33: x = add(p, K_JMPF, 0, no(), no(), no()); x->type = t; x->skip = 2; add(p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(20)), im(77), no());
		x = add(p, K_JUMP, 0, no(), no(), no()); x->skip = 1; add(p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(21)), im(78), no()); return 0;
	/* 32 bit select whose result must be a valid 32 bit source operand */
	case 34: case 35: case 36:
		add(p, K_OP1, SLJIT_MOV32, rg(b), rg(b), no());
		x = add(p, K_SEL, 0, rg(a), k == 36 ? rg(b) : m1(ST, O_MEM + 192), rg(b));
		if (k == 35) { x->d = x->b = rg(b); x->a = m1(ST, O_MEM + 196); a = b; }
		x->type = t | SLJIT_32; if (IS64) p->rv[a] = p->rv[b] = 32;
		x = add(p, K_CMP, 0, no(), rg(a), im(0)); x->type = SLJIT_SIG_LESS | SLJIT_32; x->skip = 1;
		add(p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(20)), im(77), no()); 
		x = add(p, K_CMP, 0, no(), rg(a), rg(b)); x->type = SLJIT_GREATER | SLJIT_32; x->skip = 1;
		add(p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(21)), im(78), no()); return 0;
	}
	return 0;
}
/* a reduced list of producers: (op, flags) x few forms */
static int red_n; static struct { s32 op; s8 f; sw iv; } red[400];
static void mkred(void)
{
	int o, w, k, n; s32 fl[20]; static const int forms[] = { 0, 3, 4, 11, 7 };
	for (o = 0; o < 12; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) {
		n = legal_flags(prod_ops[o], fl);
		for (k = 0; k < n; k++) { int f; for (f = 0; f < 5; f++) {
			if (o >= 6 && o != 7 && o != 10) continue;
			if ((o == 3 || o == 4 || o == 5) && f > 2) continue;
			if (shifty(prod_ops[o]) && f != 0 && f != 2) continue;
			red[red_n].op = prod_ops[o] | (w ? SLJIT_32 : 0) | fl[k]; red[red_n].f = (s8)forms[f]; red[red_n++].iv = f == 2 ? (shifty(prod_ops[o]) ? 1 : 0) : 5;
			if (red_n >= 398) die("red");
		} }
	}
}
static int conds(s32 op, int *t) { int n = 0, ft = (op >> 10) & 0x3f; if (op & SLJIT_SET_Z) { t[n++] = 0; t[n++] = 1; } if (ft) { t[n++] = ft; t[n++] = ft | 1; } return n; }
static void small_slots(prog_t *p) { int i; for (i = 0; i < p->ns; i++) if (p->vs[i] == VS_INT) p->vs[i] = VS_SMALL; }
static void neutrals(void)
{
	int i, k, j;
	for (i = 0; i < red_n; i++) for (k = 0; k < NNEUT; k++) for (j = -1; j < (g_thorough ? NNEUT : 4); j++) {
		prog_t p; static const int second[] = { 1, 7, 5, 20 };
		if (j >= 0 && !g_thorough && (i + k + j) % 4) continue;
		if (!mine()) continue;
		pnew(&p); producer(&p, red[i].op, red[i].f, red[i].iv); small_slots(&p);
		if (!neutral(&p, k)) continue;
		if (j >= 0) { if ((g_thorough ? j : second[j]) >= 27) continue; if (!neutral(&p, g_thorough ? j : second[j])) continue; }
		caps(&p, red[i].op, 0); submit(&p);
	}
}
static void consumers(void)
{
	int i, k, c, n, t[8], k2;
	for (i = 0; i < red_n; i++) { n = conds(red[i].op, t);
		for (c = 0; c < n; c++) for (k = 0; k < NCONS; k++) for (k2 = -1; k2 < NCONS; k2++) {
			prog_t p; int alive;
			if (k2 >= 0 && (g_thorough ? 0 : (i * 7 + k * 3 + k2 + c) % 16)) continue;
			if (!mine()) continue;
			pnew(&p); producer(&p, red[i].op, red[i].f, red[i].iv); small_slots(&p);
			if (k >= 11 && k <= 13) {}
			init_const(&p, I_REG, R(4), 0x0f0f0f01); init_const(&p, I_REG, R(6), (sw)0xfedcba9876543210ull);
			alive = consumer(&p, k, t[c]);
			if (k >= 18 && k <= 31 && (t[c] & ~1) == SLJIT_CARRY) alive = 0; /* ends the carry flag */
			if (k2 < 0) { if (alive) caps(&p, red[i].op, 10); }
			else {
				if (!alive || k == 26 || k2 == 26 || p.rv[R(4)] == 32 || p.rv[R(5)] == 32) continue;
				if (k == 3) continue;
				consumer(&p, k2, t[(c + k2) % n]);
			}
			submit(&p);
		}
	}
}
/* multi-word arithmetic: ADD/ADDC/.. and SUB/SUBC/.. with limbs in registers and memory and neutral instructions in between */
static void chains(void)
{
	int sub, w, k, len, f, last;
	for (sub = 0; sub < 2; sub++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (k = -1; k < NNEUT; k++) for (len = 2; len <= 4; len++) for (f = 0; f < 8; f++) for (last = 0; last < 2; last++) {
		prog_t p; int i, s0, s1, s2, ws = w ? SLJIT_32 : 0;
		if (k >= 27) continue;
		if (!mine()) continue;
		pnew(&p);
		s0 = slot(&p, VS_SMALL); s1 = slot(&p, VS_SMALL); s2 = slot(&p, VS_SMALL);
		for (i = 0; i < 4; i++) { init_slot(&p, I_MEM, 64 + i * 8, (i & 1) ? s1 : s0); init_slot(&p, I_MEM, 96 + i * 8, i == 2 ? s0 : i == 1 ? s2 : s1); }
		init_slot(&p, I_REG, R(0), s0); init_slot(&p, I_REG, R(1), s2); init_slot(&p, I_REG, R(2), s1);
		need(&p, rg(R(0)), ws); need(&p, rg(R(1)), ws); need(&p, rg(R(2)), ws);
		for (i = 0; i < len; i++) {
			opn D, A, B; s32 op = (i == 0 ? (sub ? SLJIT_SUB : SLJIT_ADD) : (sub ? SLJIT_SUBC : SLJIT_ADDC)) | ws | (i + 1 < len || last ? SLJIT_SET_CARRY : 0);
			int o8 = i * 8;
			switch (f) {
			case 0: D = A = rg(i == 0 ? R(0) : i == 1 ? R(1) : R(2)); B = m1(ST, O_MEM + 96 + o8); break;
			case 1: D = m1(ST, O_MEM + 64 + o8); A = D; B = m1(ST, O_MEM + 96 + o8); break;
			case 2: D = rg(R(3)); A = rg(R(0)); B = rg(R(1)); break;
			case 3: D = A = rg(i & 1 ? R(1) : R(0)); B = im(i == 0 ? -1 : i == 1 ? 0 : i == 2 ? 0x7fffffff : 1); break;
			case 4: D = m1(ST, O_MEM + 64 + o8); A = D; B = im(i == 0 ? 1 : i == 1 ? -1 : i == 2 ? 0 : 0x12345678); break;
			case 5: D = rg(R(1)); A = im(i == 0 ? 0 : -1); B = rg(R(1)); break;
			case 6: D = rg(R(NR_SCR - 1)); A = m1(ST, O_MEM + 64 + o8); B = rg(R(2)); break;
			default: D = rg(R(2)); A = rg(R(0)); B = rg(R(2)); break;
			}
			if (k == 3 && (f == 0 || f == 2 || f == 3 || f == 5)) { k = 3; }
			add(&p, K_OP2, op, D, A, B); setrv(&p, D, op);
			if (f == 2 || f == 6) add(&p, K_OP1, w ? SLJIT_MOV32 : SLJIT_MOV, m1(ST, O_MEM + 192 + o8), D, no());
			if (k >= 0 && i + 1 < len) { if (k == 3 && w) { add(&p, K_OP1, SLJIT_MOV, rg(R(4)), im(0), no()); } else if (neutral(&p, k)) {} }
		}
		if (last) { B_capf(&p, 0, SLJIT_CARRY); B_capf(&p, 1, SLJIT_NOT_CARRY); }
		submit(&p);
	}
	/* carry in x all values, every operand form */
	for (sub = 0; sub < 2; sub++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (k = 0; k < 2; k++) for (f = 0; f < NFORMS; f++) for (last = 0; last < 2; last++) {
		int v; for (v = 0; v < (form_imm(f) ? n_imms : 1); v++) {
		prog_t p; s32 ws = w ? SLJIT_32 : 0, op = (sub ? SLJIT_SUBC : SLJIT_ADDC) | ws | (last ? SLJIT_SET_CARRY : 0);
		int u = f == 3 || f == 4 || f == 5 || (f >= 11 && f <= 14);
		if (u && !last) continue;
		if (!mine()) continue;
		pnew(&p);
		/* produce the carry after the operands are canonical: build once, then splice */
		producer(&p, op, f, (sw)imms[v]);
		{ ins_t t = p.in[p.n - 1]; p.n--;
		init_const(&p, I_MEM, 232, k ? (sw)(WB == 8 ? 0x100000001ull : 1) : 0);
		if (sub) add(&p, K_OP2U, SLJIT_SUB | ws | SLJIT_SET_CARRY, no(), im(0), m1(ST, O_MEM + 232));
		else add(&p, K_OP2U, SLJIT_ADD | ws | SLJIT_SET_CARRY, no(), m1(ST, O_MEM + 232), im(-1));
		p.in[p.n++] = t; }
		if (last) { B_capf(&p, 0, SLJIT_CARRY); B_capf(&p, 1, SLJIT_NOT_CARRY); }
		submit(&p);
		} }
}
static opn cmpop(prog_t *p, int k, int pos, sw iv)
{
	opn o; int s;
	if (k == 4) return im(iv);
	o = k == 0 ? rg(pos ? R(1) : R(0)) : k == 1 ? rg(pos ? R(NR_SCR - 2) : R(3)) : k == 2 ? m1(ST, O_MEM + (pos ? 96 : 64)) : m0((void *)(g_st->mem + (pos ? 96 : 64)));
	s = slot(p, VS_INT); if (isr(o)) init_slot(p, I_REG, o.t, s); else init_slot(p, I_MEM, pos ? 96 : 64, s);
	return o;
}
static void cmps(void)
{
	int t, w, a, b, v, sk;
	for (t = SLJIT_EQUAL; t <= SLJIT_SIG_LESS_EQUAL; t++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (a = 0; a < 5; a++) for (b = 0; b < 5; b++) for (v = 0; v < (a == 4 || b == 4 ? n_imms : 1); v++) for (sk = 0; sk < 2; sk++) {
		prog_t p; opn A, B; ins_t *x; sw iv;
		if (a == 4 && b == 4) continue;
		if (!mine()) continue;
		pnew(&p); iv = (sw)imms[v]; if (w) iv = (sw)(s32)iv;
		A = cmpop(&p, a, 0, iv); B = cmpop(&p, b, 1, iv);
		need(&p, A, w ? SLJIT_32 : 0); need(&p, B, w ? SLJIT_32 : 0);
		x = add(&p, K_CMP, 0, no(), A, B); x->type = t | (w ? SLJIT_32 : 0) | (sk ? SLJIT_REWRITABLE_JUMP : 0); x->skip = 1;
		add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(5), no());
		submit(&p);
	}
	/* the same register on both sides */
	for (t = SLJIT_EQUAL; t <= SLJIT_SIG_LESS_EQUAL; t++) for (w = 0; w <= (IS64 ? 1 : 0); w++) for (a = 0; a < NR_SCR; a++) {
		prog_t p; ins_t *x; if (!mine()) continue;
		pnew(&p); init_slot(&p, I_REG, R(a), slot(&p, VS_INT)); need(&p, rg(R(a)), w ? SLJIT_32 : 0);
		x = add(&p, K_CMP, 0, no(), rg(R(a)), rg(R(a))); x->type = t | (w ? SLJIT_32 : 0); x->skip = 1;
		add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(5), no()); submit(&p);
	}
}
static void op2cmpzs(void)
{
	int o, w, k, f, v, n, jz, after; s32 fl[20];
	for (o = 0; o < 12; o++) for (w = 0; w <= (IS64 ? 1 : 0); w++) {
		if (prod_ops[o] == SLJIT_MUL) continue;
		n = legal_flags(prod_ops[o], fl);
		for (k = -1; k < n; k++) for (f = 0; f < NFORMS; f++) for (v = 0; v < (form_imm(f) ? 12 : 1); v++) for (jz = 0; jz < 2; jz++) for (after = 0; after < 3; after++) {
			prog_t p; s32 vf = k < 0 ? 0 : (fl[k] & ~SLJIT_SET_Z), op = prod_ops[o] | (w ? SLJIT_32 : 0); ins_t *x; int ft = vf >> 10;
			sw iv = (sw)imms[(v * 5) % n_imms];
			if (k >= 0 && (fl[k] & SLJIT_SET_Z)) continue;
			if (after && !vf) continue;
			if (shifty(prod_ops[o]) && form_imm(f)) { if (f == 5 || f == 15) { if (v > 5) continue; } else { if (v > 6) continue; iv = v == 5 ? 31 : v == 6 ? 32 : v; } }
			if (!mine()) continue;
			pnew(&p); producer(&p, op | SLJIT_SET_Z, f, iv); small_slots(&p);
			x = &p.in[p.n - 1];
			if (x->k == K_OP2U) { x->d = rg(R(5)); setrv(&p, x->d, op); }
			x->k = K_OP2Z; x->op = op | vf | (jz ? SLJIT_JUMP_IF_ZERO : SLJIT_JUMP_IF_NON_ZERO);
			if (ft == SLJIT_CARRY && after) continue; /* jumps may destroy the carry flag */
			if (after == 0) { x->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(9), no()); }
			else if (after == 1) { x->skip = 2; B_capf(&p, 0, ft); B_capf(&p, 1, ft | 1); }
			else { /* variable flag on both paths, re-declared after the label */
				x->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(0)), im(9), no());
				add(&p, K_SETF, vf | (op & SLJIT_32) | SLJIT_CURRENT_FLAGS_OP2CMPZ | (opc(op) == SLJIT_ADD ? SLJIT_CURRENT_FLAGS_ADD : opc(op) == SLJIT_SUB ? SLJIT_CURRENT_FLAGS_SUB : 0), no(), no(), no());
				B_capf(&p, 1, ft); B_capf(&p, 2, ft | 1); }
			submit(&p);
		}
	}
}
/* flags declared across a label */
static void setflags(void)
{
	int i, k;
	for (i = 0; i < red_n; i++) for (k = 0; k < 3; k++) {
		prog_t p; int c = opc(red[i].op), u = 0; s32 cur;
		if (!mine()) continue;
		pnew(&p); producer(&p, red[i].op, red[i].f, red[i].iv); small_slots(&p);
		u = p.in[p.n - 1].k == K_OP2U;
		cur = (red[i].op & (SLJIT_32 | SLJIT_SET_Z | (0x3f << 10))) | (c == SLJIT_ADD ? SLJIT_CURRENT_FLAGS_ADD : c == SLJIT_SUB ? SLJIT_CURRENT_FLAGS_SUB | (u ? SLJIT_CURRENT_FLAGS_COMPARE : 0) : 0);
		if (k == 1) { ins_t *x; if (((red[i].op >> 10) & 0x3f) == SLJIT_CARRY) continue; x = add(&p, K_JUMP, 0, no(), no(), no()); x->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(20)), im(1), no()); }
		add(&p, K_LABEL, 0, no(), no(), no());
		add(&p, K_SETF, cur, no(), no(), no());
		if (k == 2) neutral(&p, 5);
		caps(&p, red[i].op, 0); submit(&p);
	}
}
int main(int argc, char **argv)
{
	parse_args(argc, argv);
	eng_init("flags", 1, 1);
	common_init(); mkred();
	prods(); neutrals(); consumers(); chains(); cmps(); op2cmpzs(); setflags();
	eng_done();
	return 0;
}
