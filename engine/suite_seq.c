/* P03: sequences. Every sequence of up to three instruction templates of an alphabet that covers each kind of
   instruction; adjacent templates share registers and memory cells, so every internal temporary, cached value
   and delay slot shortcut between neighbours is exercised. */
#include "eng.h"
#include "common.h"

static int cz, cv, csub; /* flags available to the next template */
static int BASE;   /* a register holding the address of the data area; never a destination */
static int RX, RY; /* further registers */
static void nf(void) { cz = cv = 0; }
static void nW(prog_t *p, int r) { if (IS64 && p->rv[r] != 64) { add(p, K_OP1, SLJIT_MOV_S32, rg(r), rg(r), no()); p->rv[r] = 64; } }
static void n32(prog_t *p, int r) { if (IS64 && p->rv[r] != 32) { add(p, K_OP1, SLJIT_MOV32, rg(r), rg(r), no()); p->rv[r] = 32; } }
static void nf32(prog_t *p, int f) { if (p->fv[f] != 1) { add(p, K_FOP1, SLJIT_MOV_F32, rg(f), m1(ST, O_MEM + 128), no()); p->fv[f] = 1; } }
static void nf64(prog_t *p, int f) { if (p->fv[f] != 2) { add(p, K_FOP1, SLJIT_MOV_F64, rg(f), m1(ST, O_MEM + 136), no()); p->fv[f] = 2; } }
static void o2(prog_t *p, s32 op, opn d, opn a, opn b)
{
	if (isr(a)) { if (op & SLJIT_32) n32(p, a.t); else nW(p, a.t); }
	if (isr(b)) { if (op & SLJIT_32) n32(p, b.t); else nW(p, b.t); }
	add(p, K_OP2, op, d, a, b); setrv(p, d, op); nf();
	if (op & SLJIT_SET_Z) cz = 1;
	cv = (op >> 10) & 0x3f; csub = opc(op) == SLJIT_SUB;
}
static void o1(prog_t *p, s32 op, opn d, opn a)
{
	int c = opc(op), res32 = (op & SLJIT_32) || c == SLJIT_MOV32;
	if (isr(a)) {
		if (c == SLJIT_MOV || c == SLJIT_MOV_P || (c > SLJIT_MOV_P && !(op & SLJIT_32))) nW(p, a.t);
		else if (c != SLJIT_MOV32 && (op & SLJIT_32)) n32(p, a.t);
	}
	add(p, K_OP1, op, d, a, no());
	if (IS64 && isr(d)) p->rv[d.t] = res32 ? 32 : 64;
	if (c > SLJIT_MOV_P) nf();
}
#define M(o) m1(ST, O_MEM + (o))
#define L(o) m1(SLJIT_SP, (o))
#define BIG ((sw)(IS64 ? 0x123456789abcdef0ll : 0x12345678))
#define NT 105
/* appends template k; 0: not applicable here */
static int tmpl(prog_t *p, int k)
{
	int a = R(0), b = R(1), c = R(2), w = SLJIT_32; ins_t *x; sw mem = (sw)g_st->mem;
	switch (k) {
	/* moves */
	case 0: o1(p, SLJIT_MOV, rg(a), rg(b)); return 1;
	case 1: o1(p, SLJIT_MOV, rg(b), im(BIG)); return 1;
	case 2: o1(p, SLJIT_MOV32, rg(c), rg(a)); return 1;
	case 3: o1(p, SLJIT_MOV_U8, rg(a), M(17)); return 1;
	case 4: o1(p, SLJIT_MOV_S16, rg(b), m1(BASE, 34)); return 1;
	case 5: o1(p, SLJIT_MOV, M(16), rg(a)); return 1;
	case 6: o1(p, SLJIT_MOV_U16, m1(BASE, 18), rg(b)); return 1;
	case 7: o1(p, SLJIT_MOV, rg(c), m0((void *)(mem + 24))); return 1;
	case 8: o1(p, SLJIT_MOV, m0((void *)(mem + 32)), rg(c)); return 1;
	case 9: o1(p, SLJIT_MOV, M(40), M(16)); return 1;
	case 10: o1(p, SLJIT_MOV, L(8), im(0x7ffff123)); return 1;
	case 11: o1(p, SLJIT_MOV32, L(16), rg(b)); return 1;
	case 12: o1(p, SLJIT_MOV_S8, rg(c), L(9)); return 1;
	case 13: if (IS_VIRT(RX)) return 0; o1(p, SLJIT_MOV, rg(a), m2(BASE, RX, 0)); return 1;
	case 14: if (IS_VIRT(RX)) return 0; o1(p, SLJIT_MOV, m2(BASE, RX, 2), rg(b)); return 1;
	case 15: o1(p, SLJIT_MOV_U8, M(100), im(-1)); return 1;
	case 16: o1(p, SLJIT_MOV32, M(104), M(20)); return 1;
	/* unary */
	case 17: o1(p, SLJIT_CLZ, rg(a), rg(b)); return 1;
	case 18: o1(p, SLJIT_CTZ, rg(b), M(16)); return 1;
	case 19: o1(p, SLJIT_REV, rg(c), rg(a)); return 1;
	case 20: o1(p, SLJIT_REV_S16, M(44), rg(b)); return 1;
	case 21: o1(p, SLJIT_CLZ | w, M(48), rg(c)); return 1;
	/* binary */
	case 22: o2(p, SLJIT_ADD, rg(a), rg(a), rg(b)); return 1;
	case 23: o2(p, SLJIT_ADD, rg(b), rg(c), im(0x12345)); return 1;
	case 24: o2(p, SLJIT_ADD | SLJIT_SET_Z | SLJIT_SET_CARRY, rg(c), rg(a), rg(b)); return 1;
	case 25: o2(p, SLJIT_ADD, M(16), M(24), im(BIG)); return 1;
	case 26: o2(p, SLJIT_ADD | w, rg(a), M(20), rg(c)); return 1;
	case 27: o2(p, SLJIT_SUB, rg(b), im(3), rg(b)); return 1;
	case 28: o2(p, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, rg(a), rg(a), rg(c)); return 1;
	case 29: o2(p, SLJIT_SUB | SLJIT_SET_SIG_GREATER, rg(b), M(16), M(24)); return 1;
	case 30: o2(p, SLJIT_SUB | w | SLJIT_SET_Z | SLJIT_SET_OVERFLOW, rg(c), rg(c), im(-0x1000)); return 1;
	case 31: o2(p, SLJIT_SUB, L(24), L(8), rg(a)); return 1;
	case 32: o2(p, SLJIT_MUL, rg(a), rg(b), im(-5)); return 1;
	case 33: o2(p, SLJIT_MUL | SLJIT_SET_OVERFLOW, rg(c), rg(a), rg(b)); return 1;
	case 34: o2(p, SLJIT_AND | SLJIT_SET_Z, rg(b), rg(b), im(0xff00ff)); return 1;
	case 35: o2(p, SLJIT_OR, M(16), M(16), im(0x10001)); return 1;
	case 36: o2(p, SLJIT_XOR, rg(a), im(-1), M(32)); return 1;
	case 37: o2(p, SLJIT_XOR | w, rg(b), rg(a), rg(c)); return 1;
	case 38: o2(p, SLJIT_MSHL, rg(c), rg(a), rg(b)); return 1;
	case 39: o2(p, SLJIT_MLSHR, rg(a), M(16), rg(a)); return 1;
	case 40: o2(p, SLJIT_MASHR | w, rg(b), rg(c), M(24)); return 1;
	case 41: o2(p, SLJIT_ROTL, rg(b), rg(a), rg(c)); return 1;
	case 42: o2(p, SLJIT_ROTR | w, M(36), rg(b), rg(a)); return 1;
	case 43: o2(p, SLJIT_ASHR, rg(a), rg(a), im(7)); return 1;
	case 44: if (cv != SLJIT_CARRY || csub) return 0; if (IS64 && (p->rv[a] != 64 || p->rv[b] != 64)) return 0; add(p, K_OP2, SLJIT_ADDC | SLJIT_SET_CARRY, rg(a), rg(a), rg(b)); cz = 0; return 1;
	case 45: if (cv != SLJIT_CARRY || !csub) return 0; add(p, K_OP2, SLJIT_SUBC, M(24), M(24), im(1)); nf(); return 1;
	case 46: nW(p, a); nW(p, b); add(p, K_OP2U, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_SIG_LESS, no(), rg(a), rg(b)); cz = 1; cv = SLJIT_SIG_LESS; return 1;
	case 47: nW(p, c); add(p, K_OP2U, SLJIT_AND | SLJIT_SET_Z, no(), rg(c), im(1)); cz = 1; cv = 0; return 1;
	case 48: add(p, K_OP2U, SLJIT_SUB | w | SLJIT_SET_GREATER, no(), M(20), im(0x45678)); cz = 0; cv = SLJIT_GREATER; return 1;
	case 49: nW(p, a); nW(p, b); nW(p, c); add(p, K_OP2R, SLJIT_MULADD, rg(a), rg(b), rg(c)); nf(); return 1;
	case 50: n32(p, c); add(p, K_OP2R, SLJIT_MULADD | w, rg(c), M(20), im(3)); p->rv[c] = IS64 ? 32 : 64; nf(); return 1;
	case 51: nW(p, b); nW(p, c); x = add(p, K_SHI, SLJIT_SHL, rg(a), rg(b), im(5)); x->type = c; p->rv[a] = 64; nf(); return 1;
	case 52: nW(p, a); nW(p, b); nW(p, c); x = add(p, K_SHI, SLJIT_MLSHR, rg(b), rg(b), rg(c)); x->type = a; nf(); return 1;
	/* hardware multiply and divide */
	case 53: nW(p, a); nW(p, b); add(p, K_OP0, SLJIT_LMUL_UW, no(), no(), no()); nf(); return 1;
	case 54: nW(p, a); nW(p, b); add(p, K_OP0, SLJIT_DIVMOD_SW, no(), no(), no()); nf(); return 1;
	case 55: n32(p, a); n32(p, b); add(p, K_OP0, SLJIT_DIV_U32, no(), no(), no()); if (IS64) p->rv[a] = 32; nf(); return 1;
	/* flag consumers */
	case 56: if (!cz) return 0; x = add(p, K_OPF, SLJIT_MOV, rg(a), no(), no()); x->type = SLJIT_EQUAL; p->rv[a] = 64; return 1;
	case 57: if (!cv) return 0; x = add(p, K_OPF, SLJIT_MOV, M(48), no(), no()); x->type = cv; return 1;
	case 58: if (!cv) return 0; nW(p, b); x = add(p, K_OPF, SLJIT_OR, rg(b), no(), no()); x->type = cv + 1; nf(); return 1;
	case 59: if (!cz) return 0; nW(p, c); x = add(p, K_SEL, 0, rg(c), M(16), rg(c)); x->type = SLJIT_NOT_EQUAL; return 1;
	case 60: if (!cv) return 0; nW(p, a); nW(p, b); x = add(p, K_SEL, 0, rg(a), rg(b), rg(a)); x->type = cv; if (cv == SLJIT_CARRY) nf(); return 1;
	case 61: if (!cv) return 0; n32(p, b); n32(p, c); x = add(p, K_SEL, 0, rg(c), rg(b), rg(c)); x->type = (cv + 1) | w; if (cv == SLJIT_CARRY) nf(); return 1;
	case 62: if (!cz) return 0; nf64(p, FR(0)); nf64(p, FR(1)); x = add(p, K_FSEL, 0, rg(FR(0)), rg(FR(1)), rg(FR(0))); x->type = SLJIT_EQUAL; return 1;
	/* jumps over the next instruction */
	case 63: if (!cv) return 0; x = add(p, K_JMPF, 0, no(), no(), no()); x->type = cv; x->skip = 1; nf(); p->tag = 1; return 1;
	case 64: nW(p, a); nW(p, c); x = add(p, K_CMP, 0, no(), rg(a), rg(c)); x->type = SLJIT_LESS; x->skip = 1; nf(); p->tag = 1; return 1;
	case 65: x = add(p, K_CMP, 0, no(), M(20), im(0)); x->type = SLJIT_SIG_LESS | w; x->skip = 1; nf(); p->tag = 1; return 1;
	case 66: nW(p, b); nW(p, a); x = add(p, K_OP2Z, SLJIT_SUB, rg(b), rg(b), rg(a)); x->skip = 1; nf(); p->tag = 1; return 1;
	case 67: x = add(p, K_JUMP, 0, no(), no(), no()); x->skip = 1; nf(); p->tag = 1; return 1;
	case 68: add(p, K_LABEL, 0, no(), no(), no()); nf(); return 1;
	/* memory */
	case 69: add(p, K_MEM, SLJIT_MOV | SLJIT_MEM_UNALIGNED, rg(a), M(51), no()); p->rv[a] = 64; return 1;
	case 70: nW(p, b); add(p, K_MEM, SLJIT_MOV | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED, rg(b), M(57), no()); return 1;
	case 71: x = add(p, K_MEM, SLJIT_MOV, rg(0), M(16), no()); x->d.t = SLJIT_REG_PAIR(a, b); p->rv[a] = p->rv[b] = 64; return 1;
	case 72: nW(p, b); nW(p, c); x = add(p, K_MEM, SLJIT_MOV | SLJIT_MEM_STORE, rg(0), M(32), no()); x->d.t = SLJIT_REG_PAIR(b, c); return 1;
	case 73: o1(p, SLJIT_MOV, rg(a), m1(ST, O_MEM + 64)); add(p, K_OP1, SLJIT_MOV, M(72), rg(a), no()); return 1;
	case 74: add(p, K_LB, 0, rg(c), no(), no()); p->in[p->n - 1].a = im(24); p->in[p->n - 1].a.w = 24; p->rv[c] = 64; nf(); return 1;
	case 75: add(p, K_CONST, SLJIT_MOV, rg(b), im(0x1357), no()); p->rv[b] = 64; return 1;
	case 76: add(p, K_CONST, SLJIT_MOV, M(80), im(-7), no()); return 1;
	case 77: add(p, K_SRC, SLJIT_PREFETCH_L1, no(), M(16), no()); return 1;
	case 78: add(p, K_OP0, SLJIT_NOP, no(), no(), no()); return 1;
	/* float */
	case 79: nf64(p, FR(1)); add(p, K_FOP1, SLJIT_MOV_F64, rg(FR(0)), rg(FR(1)), no()); p->fv[FR(0)] = 2; return 1;
	case 80: add(p, K_FOP1, SLJIT_MOV_F64, rg(FR(1)), M(136), no()); p->fv[FR(1)] = 2; return 1;
	case 81: nf64(p, FR(0)); add(p, K_FOP1, SLJIT_MOV_F64, M(144), rg(FR(0)), no()); return 1;
	case 82: nf64(p, FR(0)); nf64(p, FR(1)); add(p, K_FOP2, SLJIT_ADD_F64, rg(FR(0)), rg(FR(0)), rg(FR(1))); nf(); return 1;
	case 83: nf64(p, FR(1)); nf64(p, FR(0)); add(p, K_FOP2, SLJIT_SUB_F64, rg(FR(1)), M(136), rg(FR(1))); nf(); return 1;
	case 84: nf64(p, FR(0)); add(p, K_FOP1, SLJIT_NEG_F64, rg(FR(2)), rg(FR(0)), no()); p->fv[FR(2)] = 2; nf(); return 1;
	case 85: nf64(p, FR(1)); add(p, K_FOP1, SLJIT_CONV_SW_FROM_F64, rg(a), rg(FR(1)), no()); p->rv[a] = 64; nf(); return 1;
	case 86: nW(p, b); add(p, K_FOP1, SLJIT_CONV_F64_FROM_SW, rg(FR(1)), rg(b), no()); p->fv[FR(1)] = 2; nf(); return 1;
	case 87: add(p, K_FOP1, SLJIT_CONV_F64_FROM_U32, M(152), M(20), no()); nf(); return 1;
	case 88: nf64(p, FR(0)); nf64(p, FR(1)); add(p, K_FOP1, SLJIT_CMP_F64 | SLJIT_SET_ORDERED_LESS, rg(FR(0)), rg(FR(1)), no()); cz = 0; cv = SLJIT_ORDERED_LESS; return 1;
	case 89: nf64(p, FR(0)); x = add(p, K_FCMP, 0, no(), rg(FR(0)), M(136)); x->type = SLJIT_UNORDERED_OR_GREATER; x->skip = 1; nf(); p->tag = 1; return 1;
	case 90: x = add(p, K_FSET64, 0, rg(FR(0)), no(), no()); x->f = -2.75; p->fv[FR(0)] = 2; return 1;
	case 91: nf64(p, FR(1)); if (IS64) { add(p, K_FCOPY, SLJIT_COPY_FROM_F64, rg(FR(1)), rg(c), no()); p->rv[c] = 64; } else { x = add(p, K_FCOPY, SLJIT_COPY_FROM_F64, rg(FR(1)), rg(0), no()); x->a.t = SLJIT_REG_PAIR(c, a); } return 1;
	case 92: nf32(p, FR(3)); nf32(p, FR(2)); add(p, K_FOP2, SLJIT_MUL_F32, rg(FR(3)), rg(FR(3)), rg(FR(2))); nf(); return 1;
	case 93: nf32(p, FR(3)); add(p, K_FOP1, SLJIT_CONV_F64_FROM_F32, rg(FR(0)), rg(FR(3)), no()); p->fv[FR(0)] = 2; nf(); return 1;
	case 94: nf64(p, FR(1)); nf64(p, FR(0)); add(p, K_FOP2R, SLJIT_COPYSIGN_F64, rg(FR(0)), rg(FR(1)), rg(FR(0))); nf(); return 1;
	case 95: if (!RY) return 0; add(p, K_OP1, SLJIT_MOV_P, rg(RY), rg(BASE), no()); add(p, K_OP1, SLJIT_MOV32, rg(a), m1(RY, 20), no()); p->rv[a] = IS64 ? 32 : 64; p->rv[RY] = 64; return 1;
	case 96: nW(p, a); nW(p, c); o2(p, SLJIT_SUB | SLJIT_SET_CARRY, rg(a), rg(c), rg(a)); return 1;
	case 97: if (!RY) return 0; o2(p, SLJIT_AND, rg(RY), rg(RY), im(~(sw)0xff)); return 1;
	/* machine instructions of the caller */
	case 98: case 99: { u8 o[16]; int wh = k == 98 ? CU_ADD : CU_ADD16; if (!custom_for(wh, a, b, o)) return 0; nW(p, a); nW(p, b); x = add(p, K_CUSTOM, 0, rg(a), rg(b), no()); x->type = wh; nf(); return 1; }
	case 100: nf64(p, FR(0)); nf64(p, FR(1)); x = add(p, K_CUSTOM, 0, rg(FR(0)), rg(FR(1)), no()); x->type = CU_FADD; nf(); return 1;
	/* compare and jump forms with their own instructions */
	case 101: nW(p, a); x = add(p, K_CMP, 0, no(), rg(a), im(0)); x->type = SLJIT_EQUAL; x->skip = 1; nf(); p->tag = 1; return 1;
	case 102: nW(p, a); nW(p, b); x = add(p, K_CMP, 0, no(), rg(b), rg(a)); x->type = SLJIT_NOT_EQUAL; x->skip = 1; nf(); p->tag = 1; return 1;
	case 103: nW(p, a); x = add(p, K_CMP, 0, no(), rg(a), im(0)); x->type = SLJIT_SIG_LESS; x->skip = 1; nf(); p->tag = 1; return 1;
	case 104: n32(p, c); x = add(p, K_CMP, 0, no(), rg(c), im(77)); x->type = SLJIT_EQUAL | w; x->skip = 1; nf(); p->tag = 1; return 1;
	}
	return 0;
}
static int step(prog_t *p, int k)
{
	u8 rv[34], fv[34]; int pend = p->tag, n0 = p->n, i;
	memcpy(rv, p->rv, 34); memcpy(fv, p->fv, 34); p->tag = 0;
	if (!tmpl(p, k)) return 0;
	if (pend) {
		/* the previous template jumps over the whole of this one */
		if (p->tag) return 0;
		p->in[n0 - 1].skip = (u8)(p->n - n0);
		for (i = 0; i < 34; i++) { if (rv[i] != p->rv[i]) p->rv[i] = 0; if (fv[i] != p->fv[i]) p->fv[i] = 0; }
		nf();
	}
	return 1;
}
static void go(const int *ks, int n, int vs)
{
	prog_t p; int i, s, q;
	pnew(&p); cz = cv = 0;
	init_const(&p, I_REG, BASE, (sw)g_st->mem);
	if (RX != BASE) init_const(&p, I_REG, RX, 8);
	init_const(&p, I_MEM, 16, (sw)0x8000000000000123ll); init_const(&p, I_MEM, 24, 0x1c);
	for (i = 0; i < n; i++) if (!step(&p, ks[i])) return;
	if (p.tag) p.in[p.n - 1].skip = 0;
	/* flags that are still live are part of the state */
	if (cz) B_capf(&p, 0, SLJIT_EQUAL);
	if (cv) { B_capf(&p, 1, cv); B_capf(&p, 2, cv + 1); }
	for (i = 1; i <= NF; i++) if (p.fv[i] == 0) p.fv[i] = 2, add(&p, K_FOP1, SLJIT_MOV_F64, rg(i), m1(ST, O_MEM + 136), no());
	s = slot(&p, vs); q = slot(&p, vs);
	init_slot(&p, I_REG, R(0), s); init_slot(&p, I_REG, R(1), q);
	init_slot(&p, I_MEM, 16, q);
	init_const(&p, I_REG, R(2), 13);
	{ u64 d; double f = 3.5; memcpy(&d, &f, 8); (void)d; }
	submit(&p);
}
static void seq_init(prog_t *p, st_t *s)
{
	double d = -7.25; float f = 1.75f; (void)p;
	memcpy(s->mem + 136, &d, 8); memcpy(s->mem + 128, &f, 4);
}
/* every compare and jump form right behind instructions of which the register results are compared (or not) */
static void compares(void)
{
	int pr, t, w, f; prog_t p; ins_t *x;
	for (pr = 0; pr < 14; pr++) for (t = SLJIT_EQUAL; t <= SLJIT_SIG_LESS_EQUAL; t++) for (w = 0; w <= IS64; w++) for (f = 0; f < 13; f++) {
		int a = R(0), b = R(1), c = R(2), W = w ? SLJIT_32 : 0; opn A, B;
		if (!mine()) continue;
		pnew(&p); cz = cv = 0;
		init_const(&p, I_REG, BASE, (sw)g_st->mem);
		if (w) { add(&p, K_OP1, SLJIT_MOV32, rg(a), rg(a), no()); add(&p, K_OP1, SLJIT_MOV32, rg(b), rg(b), no()); p.rv[a] = p.rv[b] = 32; }
		switch (pr) {
		case 0: o1(&p, w ? SLJIT_MOV32 : SLJIT_MOV, rg(a), M(16)); break;
		case 1: o2(&p, SLJIT_ADD | W, rg(a), rg(a), rg(b)); break;
		case 2: o2(&p, SLJIT_SUB | W, rg(a), rg(b), im(1)); break;
		case 3: o1(&p, w ? SLJIT_MOV32 : SLJIT_MOV, rg(a), im(5)); break;
		case 4: o1(&p, SLJIT_MOV, rg(a), rg(b)); p.rv[a] = p.rv[b]; break;
		case 5: add(&p, K_FOP1, w ? SLJIT_CONV_S32_FROM_F64 : SLJIT_CONV_SW_FROM_F64, rg(a), rg(FR(0)), no()); break;
		case 6: o2(&p, SLJIT_SHL | W, rg(a), rg(b), im(2)); break;
		case 7: o1(&p, SLJIT_CLZ | W, rg(a), rg(b)); break;
		case 8: o2(&p, SLJIT_MUL | W, rg(a), rg(a), rg(b)); break;
		case 9: add(&p, K_OP2U, SLJIT_SUB | W | SLJIT_SET_LESS, no(), rg(a), rg(b)); x = add(&p, K_OPF, w ? SLJIT_MOV32 : SLJIT_MOV, rg(a), no(), no()); x->type = SLJIT_LESS; break;
		case 10: add(&p, K_OP2U, SLJIT_SUB | W | SLJIT_SET_Z, no(), rg(a), rg(b)); x = add(&p, K_SEL, 0, rg(a), im(1), rg(b)); x->type = SLJIT_EQUAL | W; break;
		case 11: o1(&p, w ? SLJIT_MOV32 : SLJIT_MOV, M(24), rg(a)); break;
		case 12: add(&p, K_FOP2, SLJIT_ADD_F64, rg(FR(0)), rg(FR(0)), rg(FR(1))); break;
		case 13: add(&p, K_MEM, (w ? SLJIT_MOV32 : SLJIT_MOV) | SLJIT_MEM_UNALIGNED, rg(a), m1(BASE, 16), no()); break;
		}
		switch (f) {
		case 0: A = rg(a); B = rg(b); break;
		case 1: A = rg(b); B = rg(a); break;
		case 2: A = rg(a); B = im(0); break;
		case 3: A = im(0); B = rg(a); break;
		case 4: A = rg(a); B = im(5); break;
		case 5: A = im(5); B = rg(a); break;
		case 6: A = rg(a); B = M(24); break;
		case 7: A = M(24); B = rg(a); break;
		case 8: A = rg(a); B = rg(a); break;
		case 9: A = rg(b); B = im(0); break;
		case 10: A = im(0); B = rg(b); break;
		case 11: A = rg(a); B = im(w ? (sw)(s32)0x87654321 : (sw)0x80001234); break;
		default: A = M(24); B = im(0); break;
		}
		x = add(&p, K_CMP, 0, no(), A, B); x->type = t | W; x->skip = 1;
		o1(&p, SLJIT_MOV, rg(c), im(77));
		{ int s = slot(&p, VS_SMALL), q = slot(&p, VS_SMALL); init_slot(&p, I_REG, a, s); init_slot(&p, I_REG, b, q); init_slot(&p, I_MEM, 16, q); init_slot(&p, I_MEM, 24, s); init_const(&p, I_REG, c, 13); }
		submit(&p);
	}
}
int main(int argc, char **argv)
{
	int i, j, k, ks[4];
	parse_args(argc, argv);
	eng_init("seq", 1, 1);
	common_init(); g_extra_init = seq_init;
	BASE = IS_VIRT(R(3)) ? SLJIT_S(1) : R(3);
	if (IS_VIRT(R(3))) BASE = R(NR_SCR - 1);
	if (IS_VIRT(BASE)) BASE = R(NR_SCR - 2);
	for (i = 3; i < NR_SCR; i++) if (!IS_VIRT(R(i))) { BASE = R(i); break; }
	for (i++; i < NR_SCR; i++) if (!IS_VIRT(R(i))) { RX = R(i); break; }
	if (!RX) RX = R(NR_SCR > 4 ? 4 : 3);
	for (i++; i < NR_SCR; i++) if (!IS_VIRT(R(i)) && R(i) != RX && R(i) != BASE) { RY = R(i); break; }
	vs_n[VS_SMALL] = vs_n[VS_SMALL] > 6 ? 6 : vs_n[VS_SMALL];
	for (i = 0; i < NT; i++) { if (!mine()) continue; ks[0] = i; go(ks, 1, VS_INT); }
	for (i = 0; i < NT; i++) for (j = 0; j < NT; j++) { if (!mine()) continue; ks[0] = i; ks[1] = j; go(ks, 2, VS_SMALL); }
	compares();
	flush_batch(); vs_n[VS_SMALL] = g_thorough ? 4 : 2; /* two values per input at depth three */
	for (i = 0; i < NT; i++) for (j = 0; j < NT; j++) for (k = 0; k < NT; k++) { if (!mine()) continue; ks[0] = i; ks[1] = j; ks[2] = k; go(ks, 3, VS_SMALL); }
	eng_done();
	return 0;
}
