/* P04: memory operands */
#include "eng.h"
#include "common.h"

static sw offs[2400]; static int n_offs; static sw few[64]; static int n_few;
static void off_add(sw v) { int i; for (i = 0; i < n_offs; i++) if (offs[i] == v) return; offs[n_offs++] = v; }
static void offs_init(void)
{
	static const int d[] = { -8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8 };
	static const u64 x[] = { 0x12345678, 0x7ffff7ff, 0x7ffff800, 0x7fffffff, 0x80000800, 0xfffff800, 0x12345800, 0x12347fff, 0x12348000, 0x12ff8000, 0x00fff000, 0x00fff001, 0x00fffffc, 0x555000, 0x555008,
		0x123456789abcdef0ull, 0x7fffffffffffffffull, 0x123456787ffff800ull, 0x1234567880000000ull, 0x12345678ffffff00ull, 0xffff000000000000ull, 0x0000ffff00000000ull, 0x7ff8, 0x7ffc, 0xfff8, 0x3ff8, 0x1ff8, 0xff8, 0x7f8, 0xffc, 0x1ffc, 0xffe, 0x1ffe, 0x3ffc, 0x3fc, 0x3f8, 0x1f8, 0xfc, 0x7c, 0x3e, 0x1f };
	static const u64 f[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fc, 0x800, 0xfff, 0x1000, 0x7ff8, 0x8000, 0x12345678, 0x7fffffff, 0x80000000ull, 0xffffff80ull, 0x123456789abcdef0ull };
	unsigned i; int k, j;
	for (k = 0; k < WBITS; k++) for (j = 0; j < 11; j++) { u64 b = 1ull << k; off_add((sw)(b + (u64)(s64)d[j])); off_add((sw)(0 - b + (u64)(s64)d[j])); }
	for (k = 4; k < WBITS - 2; k++) { off_add((sw)(3ull << k)); off_add((sw)(0 - (3ull << k))); off_add((sw)(5ull << k) + 4); }
	for (i = 0; i < sizeof(x) / 8; i++) { off_add((sw)x[i]); off_add((sw)(0 - x[i])); }
	for (i = 0; i < sizeof(f) / 8; i++) { few[n_few++] = (sw)f[i]; few[n_few++] = (sw)(0 - f[i]); }
}
static const s32 movs[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV_U8 | SLJIT_32, SLJIT_MOV_S8 | SLJIT_32, SLJIT_MOV_U16 | SLJIT_32, SLJIT_MOV_S16 | SLJIT_32 };
#define NMOV 13
static int real_regs[32], n_real; /* registers usable for addressing */
static sw MEMA(int o) { return (sw)g_st->mem + o; }
#define VAL init_const(&p, I_REG, v, IS64 ? (sw)0x8182838485868788ull : (sw)0x85868788)

/* every move kind at every offset: load, load over the base, store, store of the base */
static void moves(void)
{
	int o, m, k; prog_t p;
	for (o = 0; o < n_offs; o++) for (m = 0; m < NMOV; m++) for (k = 0; k < 4; k++) {
		int b = R(1), v = R(0); s32 op = movs[m];
		if (!mine()) continue;
		if (!IS64 && (op & SLJIT_32)) continue;
		pnew(&p); init_const(&p, I_REG, b, (sw)((uw)MEMA(128) - (uw)offs[o]));
		if (k < 2) B_op1(&p, op, rg(k ? b : v), m1(b, offs[o]));
		else if (k == 2) { VAL; B_op1(&p, op, m1(b, offs[o]), rg(v)); }
		else add(&p, K_OP1, op, m1(b, offs[o]), rg(b), no());
		if (k == 3 && op & SLJIT_32) continue;
		submit(&p);
	}
}
/* every register as base, index and data */
static void regs(void)
{
	int i, j, k, s; prog_t p; static const sw so[] = { 0, 1, 127, 128, -128, -129, 4095, -32768 };
	for (i = 0; i < n_real; i++) for (j = 1; j <= NR_SCR; j++) for (k = 0; k < 8; k++) for (s = 0; s < 4; s++) {
		int b = real_regs[i], v = j; static const s32 o[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S16, SLJIT_MOV32 };
		if (mine()) { pnew(&p); init_const(&p, I_REG, b, MEMA(128) - so[k]); B_op1(&p, o[s], rg(v), m1(b, so[k])); submit(&p); }
		if (mine()) { pnew(&p); init_const(&p, I_REG, b, MEMA(128) - so[k]); add(&p, K_OP1, o[s], m1(b, so[k]), rg(v), no()); submit(&p); }
	}
	for (i = 0; i < n_real; i++) for (j = 0; j < n_real; j++) for (s = 0; s < 4; s++) for (k = 0; k < 6; k++) {
		int b = real_regs[i], x = real_regs[j], q; static const sw ix[] = { 0, 8, -8, 0x7ffff, -0x10001, 0 }; sw iv = ix[k];
		for (q = 0; q < 6; q++) {
			/* 0 load, 1 load over base, 2 load over index, 3 store, 4 byte load, 5 half store */
			int v = q == 1 ? b : q == 2 ? x : (b != R(0) && x != R(0)) ? R(0) : (b != R(1) && x != R(1)) ? R(1) : R(2);
			s32 op = q == 4 ? SLJIT_MOV_S8 : q == 5 ? SLJIT_MOV_U16 : SLJIT_MOV;
			if (!mine()) continue;
			if (k == 5) { if (!IS64) continue; iv = (sw)0x100000001ll; }
			pnew(&p);
			if (b == x) { if (s || k) continue; init_const(&p, I_REG, b, MEMA(128) / 2); }
			else { init_const(&p, I_REG, b, (sw)((uw)MEMA(128) - ((uw)iv << s))); init_const(&p, I_REG, x, iv); }
			if (q == 3 || q == 5) add(&p, K_OP1, op, m2(b, x, s), rg(v), no()); else B_op1(&p, op, rg(v), m2(b, x, s));
			submit(&p);
		}
	}
	/* float data through indexed addresses */
	for (i = 0; i < n_real; i++) for (j = 0; j < n_real; j++) for (s = 0; s < 4; s++) for (k = 0; k < 4; k++) {
		int b = real_regs[i], x = real_regs[j];
		if (!mine()) continue;
		if (b == x) continue;
		pnew(&p); init_const(&p, I_REG, b, (sw)((uw)MEMA(128) - ((uw)-24 << s))); init_const(&p, I_REG, x, -24);
		if (k == 0) add(&p, K_FOP1, SLJIT_MOV_F64, rg(FR(1)), m2(b, x, s), no());
		else if (k == 1) add(&p, K_FOP1, SLJIT_MOV_F64, m2(b, x, s), rg(FR(1)), no());
		else if (k == 2) { add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), m2(b, x, s), no()); p.fv[FR(1)] = 1; }
		else { add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), m1(ST, O_MEM + 16), no()); p.fv[FR(1)] = 1; add(&p, K_FOP1, SLJIT_MOV_F32, m2(b, x, s), rg(FR(1)), no()); }
		submit(&p);
	}
}
/* the operations that take a memory operand besides moves: M is the operand, its target is mem[128] */
#define N_USER 22
static void user(prog_t *q, int k, opn M)
{
	ins_t *x;
	switch (k) {
	case 0: B_op1(q, SLJIT_CLZ, rg(R(1)), M); break;
	case 1: B_op1(q, SLJIT_REV, M, rg(R(1))); break;
	case 2: B_op1(q, SLJIT_REV_U16, rg(R(1)), M); break;
	case 3: B_op1(q, SLJIT_REV_S32, rg(R(1)), M); break;
	case 4: B_op2(q, SLJIT_ADD, M, M, im(5)); break;
	case 5: B_op2(q, SLJIT_SUB, M, im(7), M); break;
	case 6: B_op2(q, SLJIT_MSHL, M, M, rg(R(2))); break;
	case 7: B_op2u(q, SLJIT_SUB | SLJIT_SET_LESS, M, rg(R(2))); B_capf(q, 0, SLJIT_LESS); break;
	case 8: x = add(q, K_CMP, 0, no(), rg(R(2)), M); x->type = SLJIT_SIG_GREATER; x->skip = 1; add(q, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no()); break;
	case 9: B_op2u(q, SLJIT_SUB | SLJIT_SET_Z, rg(R(1)), rg(R(2))); x = add(q, K_SEL, 0, rg(R(1)), M, rg(R(2))); x->type = SLJIT_NOT_EQUAL; break;
	case 10: B_op2u(q, SLJIT_SUB | SLJIT_SET_Z, rg(R(1)), rg(R(2))); x = add(q, K_OPF, SLJIT_MOV, M, no(), no()); x->type = SLJIT_NOT_EQUAL; break;
	case 11: B_op2u(q, SLJIT_SUB | SLJIT_SET_LESS, rg(R(1)), rg(R(2))); x = add(q, K_OPF, SLJIT_XOR, M, no(), no()); x->type = SLJIT_LESS; break;
	case 12: add(q, K_OP2R, SLJIT_MULADD, rg(R(1)), M, rg(R(2))); break;
	case 13: x = add(q, K_SHI, SLJIT_MSHL, rg(R(1)), rg(R(1)), M); x->type = R(2); break;
	case 14: add(q, K_CONST, SLJIT_MOV, M, im(0x1234567), no()); break;
	case 15: B_op2(q, SLJIT_ADD | SLJIT_SET_OVERFLOW, M, M, im(-9)); B_capf(q, 0, SLJIT_OVERFLOW); break;
	case 16: B_op2(q, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_OVERFLOW, M, M, im(100)); B_capf(q, 0, SLJIT_OVERFLOW); B_capf(q, 1, SLJIT_EQUAL); break;
	case 17: B_op2(q, SLJIT_OR | SLJIT_SET_Z, M, M, im(0x40)); B_capf(q, 0, SLJIT_ZERO); break;
	case 18: B_op2(q, SLJIT_SUB32 | SLJIT_SET_CARRY, M, M, im(5)); B_capf(q, 0, SLJIT_CARRY); break;
	case 19: B_op2(q, SLJIT_ADD32, M, M, im(0x123456)); break;
	case 20: B_op2(q, SLJIT_ROTL, rg(R(1)), M, M); break;
	case 21: B_op2(q, SLJIT_AND, M, im(0xff00), M); break;
	}
}
/* memory to memory, and operations whose operands are all in memory */
static void mem_mem(void)
{
	int i, j, k, m, q; prog_t p;
	for (i = 0; i < n_offs; i++) for (j = 0; j < n_few; j++) {
		s32 op = movs[(i + j) % 9];
		if (mine()) { pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(64) - (uw)offs[i])); init_const(&p, I_REG, R(1), (sw)((uw)MEMA(128) - (uw)few[j]));
		B_op1(&p, op, m1(R(1), few[j]), m1(R(0), offs[i])); submit(&p); }
		if (mine()) { pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(64) - (uw)offs[i])); init_const(&p, I_REG, R(1), (sw)((uw)MEMA(128) - (uw)few[j]));
		B_op1(&p, op, m1(R(0), offs[i]), m1(R(1), few[j])); submit(&p); }
	}
	/* same base, neighbouring offsets: code generators may reuse the address of the previous access */
	for (i = 0; i < n_offs; i++) for (k = 0; k < 9; k++) for (m = 0; m < 4; m++) {
		static const int dl[] = { 0, 4, -4, 8, -8, 64, -64, 120, -128 }; sw o2 = (sw)((uw)offs[i] + (uw)(sw)dl[k]);
		if (!mine()) continue;
		if ((s64)dl[k] > 0 ? o2 < offs[i] : o2 > offs[i]) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128) - (uw)offs[i]));
		if (m == 0) B_op1(&p, WB == 8 && (dl[k] & 7) ? SLJIT_MOV32 : SLJIT_MOV, m1(R(0), o2), m1(R(0), offs[i]));
		else if (m == 1) B_op2(&p, SLJIT_ADD32, m1(R(0), o2), m1(R(0), offs[i]), m1(R(0), o2));
		else if (m == 2) { B_op2(&p, SLJIT_SUB32, rg(R(2)), m1(R(0), o2), m1(R(0), offs[i])); B_op1(&p, SLJIT_MOV_S16, rg(R(1)), m1(R(0), o2)); }
		else { B_op2(&p, SLJIT_XOR32, m1(R(0), offs[i]), rg(R(2)), m1(R(0), o2)); B_op1(&p, SLJIT_MOV_U8, m1(R(0), o2), im(0x5c)); }
		submit(&p);
	}
	for (i = 0; i < n_few; i += 1) for (j = 0; j < n_few; j += 1) for (k = 0; k < n_few; k += 1) {
		static const s32 o[] = { SLJIT_ADD, SLJIT_SUB, SLJIT_AND | SLJIT_SET_Z, SLJIT_MSHL32, SLJIT_MUL, SLJIT_ADD32 | SLJIT_SET_CARRY };
		if (!mine()) continue;
		pnew(&p); q = (i * 5 + j * 3 + k) % 6;
		init_const(&p, I_REG, R(0), (sw)((uw)MEMA(64) - (uw)few[i])); init_const(&p, I_REG, R(1), (sw)((uw)MEMA(96) - (uw)few[j])); init_const(&p, I_REG, R(2), (sw)((uw)MEMA(128) - (uw)few[k]));
		B_op2(&p, o[q], m1(R(0), few[i]), m1(R(1), few[j]), m1(R(2), few[k]));
		if (q == 2) B_capf(&p, 0, SLJIT_EQUAL);
		if (q == 5) B_capf(&p, 0, SLJIT_CARRY);
		submit(&p);
	}
	/* other users of memory operands at every offset */
	for (i = 0; i < n_offs; i++) for (k = 0; k < N_USER; k++) {
		if (!mine()) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128) - (uw)offs[i]));
		user(&p, k, m1(R(0), offs[i])); submit(&p);
	}
	/* indexed, absolute and local operands */
	for (k = 0; k < N_USER; k++) for (i = 0; i < 4; i++) for (j = 0; j < 5; j++) for (m = 0; m < 3; m++) {
		static const sw ix[] = { 0, 5, -7, 0x11111, -0x8001 }; int xr = m == 0 ? R(2) : m == 1 ? R(3) : R(NR_SCR - 1), br = m == 2 ? R(4) : R(0);
		if (!mine()) continue;
		if (IS_VIRT(xr) || IS_VIRT(br)) continue;
		pnew(&p); init_const(&p, I_REG, br, (sw)((uw)MEMA(128) - ((uw)ix[j] << i))); init_const(&p, I_REG, xr, ix[j]);
		user(&p, k, m2(br, xr, i)); submit(&p);
	}
	for (k = 0; k < N_USER; k++) for (i = 0; i < 32; i++) for (j = 0; j < 3; j++) {
		if (!mine()) continue;
		pnew(&p); user(&p, k, j == 0 ? m1(SLJIT_SP, (i * WB) % LOCSZ) : j == 1 ? m0((void *)MEMA((i * WB) % MEMSZ)) : m1(ST, O_MEM + (i * WB) % MEMSZ)); submit(&p);
	}
}
/* float moves and operations at every offset */
static void floats(void)
{
	int i, k; prog_t p;
	for (i = 0; i < n_offs; i++) for (k = 0; k < 12; k++) {
		ins_t *x; opn M = m1(R(0), offs[i]);
		if (!mine()) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128) - (uw)offs[i])); init_const(&p, I_MEM, 128, 0x3ff12345); init_const(&p, I_MEM, 132, 0x40090000);
		switch (k) {
		case 0: add(&p, K_FOP1, SLJIT_MOV_F64, rg(FR(1)), M, no()); break;
		case 1: add(&p, K_FOP1, SLJIT_MOV_F64, M, rg(FR(1)), no()); break;
		case 2: add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), M, no()); p.fv[FR(1)] = 1; break;
		case 3: add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), m1(ST, O_MEM + 32), no()); p.fv[FR(1)] = 1; add(&p, K_FOP1, SLJIT_MOV_F32, M, rg(FR(1)), no()); break;
		case 4: add(&p, K_FOP1, SLJIT_NEG_F64, M, rg(FR(1)), no()); break;
		case 5: add(&p, K_FOP2, SLJIT_ADD_F64, rg(FR(0)), M, rg(FR(1))); break;
		case 6: add(&p, K_FOP2, SLJIT_MUL_F64, M, rg(FR(1)), M); break;
		case 7: add(&p, K_FOP1, SLJIT_CONV_F64_FROM_SW, rg(FR(0)), M, no()); break;
		case 8: add(&p, K_FOP1, SLJIT_CONV_S32_FROM_F64, M, rg(FR(0)), no()); break;
		case 9: add(&p, K_FOP1, SLJIT_CONV_F64_FROM_F32, rg(FR(0)), M, no()); break;
		case 10: x = add(&p, K_FCMP, 0, no(), M, rg(FR(0))); x->type = SLJIT_ORDERED_LESS; x->skip = 1; add(&p, K_OP1, SLJIT_MOV, m1(ST, O_CAP(3)), im(3), no()); break;
		case 11: add(&p, K_FOP2R, SLJIT_COPYSIGN_F64, rg(FR(0)), M, rg(FR(1))); break;
		}
		submit(&p);
	}
	for (i = 0; i < n_offs; i++) for (k = 0; k < n_few; k++) {
		s32 w = (i + k) & 1 ? SLJIT_32 : 0;
		if (!mine()) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128) - (uw)offs[i])); init_const(&p, I_REG, R(1), (sw)((uw)MEMA(64) - (uw)few[k]));
		if (k & 2) add(&p, K_FOP1, SLJIT_MOV_F64 | w, m1(R(0), offs[i]), m1(R(1), few[k]), no());
		else add(&p, K_FOP1, SLJIT_MOV_F64 | w, m1(R(1), few[k]), m1(R(0), offs[i]), no());
		submit(&p);
	}
}
/* which alignment requests the interface admits */
static int al_ok(s32 op, int a) { int c = opc(op); return a == 0 || c == SLJIT_MOV || c == SLJIT_MOV_P || (a == 1 && (c == SLJIT_MOV_U32 || c == SLJIT_MOV_S32 || c == SLJIT_MOV32)); }
/* sljit_emit_mem / sljit_emit_fmem */
static void unaligned(void)
{
	static const s32 al[] = { SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16, SLJIT_MEM_ALIGNED_32 }; static const int step[] = { 1, 2, 4 };
	int i, m, k, a, st; prog_t p;
	for (i = 0; i < n_offs; i++) for (m = 0; m < NMOV; m++) for (a = 0; a < 3; a++) for (st = 0; st < 2; st++) {
		int mis = (step[a] * (1 + (i % 7))) & 7, v = (i & 1) && !st ? R(0) : R(1); s32 op = movs[m];
		if (!mine()) continue;
		if ((!IS64 && (op & SLJIT_32)) || !al_ok(op, a)) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128 + mis) - (uw)offs[i]));
		if (op & SLJIT_32) op &= ~SLJIT_32;
		add(&p, K_MEM, op | al[a] | (st ? SLJIT_MEM_STORE : 0), rg(v), m1(R(0), offs[i]), no());
		if (!st && IS64 && opc(op) == SLJIT_MOV32) p.rv[v] = 32;
		submit(&p);
	}
	/* all misalignments, address forms, aliasing of data, base and index */
	for (m = 0; m < 9; m++) for (a = 0; a < 3; a++) for (i = 0; i < 8; i++) for (k = 0; k < 16; k++) {
		int mis = (i * step[a]) & 15, f = k >> 1, v; opn M; s32 op = movs[m]; st = k & 1;
		if (!mine()) continue;
		if (!al_ok(op, a)) continue;
		pnew(&p); v = R(1);
		switch (f) {
		case 0: init_const(&p, I_REG, R(0), MEMA(96 + mis)); M = m1(R(0), 0); break;
		case 1: init_const(&p, I_REG, R(0), MEMA(96 + mis)); M = m1(R(0), 0); v = R(0); break;
		case 2: init_const(&p, I_REG, R(0), MEMA(96 + mis) - 12); init_const(&p, I_REG, R(2), 3); M = m2(R(0), R(2), 2); break;
		case 3: init_const(&p, I_REG, R(0), MEMA(96 + mis) - 3); init_const(&p, I_REG, R(2), 3); M = m2(R(0), R(2), 0); v = st ? R(1) : R(0); break;
		case 4: init_const(&p, I_REG, R(0), MEMA(96 + mis) - 24); init_const(&p, I_REG, R(2), 3); M = m2(R(0), R(2), 3); v = st ? R(1) : R(2); break;
		case 5: M = m0((void *)MEMA(96 + mis)); break;
		case 6: M = m1(SLJIT_SP, 16 + mis); break;
		default: M = m1(ST, O_MEM + 96 + mis); v = R(NR_SCR - 1); break;
		}
		add(&p, K_MEM, op | al[a] | (st ? SLJIT_MEM_STORE : 0), rg(v), M, no());
		if (!st && IS64 && opc(op) == SLJIT_MOV32) p.rv[v] = 32;
		submit(&p);
	}
	for (i = 0; i < n_offs; i++) for (a = 0; a < 3; a++) for (k = 0; k < 4; k++) {
		int mis = (step[a] * (1 + (i % 7))) & 7; s32 w = k & 2 ? SLJIT_32 : 0;
		if (!mine()) continue;
		if (a == 2 && w) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128 + mis) - (uw)offs[i]));
		if ((k & 1) && w) { add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), m1(ST, O_MEM + 32), no()); p.fv[FR(1)] = 1; }
		add(&p, K_FMEM, SLJIT_MOV_F64 | w | al[a] | (k & 1 ? SLJIT_MEM_STORE : 0), rg(FR(1)), m1(R(0), offs[i]), no());
		if (w) p.fv[FR(1)] = 1;
		submit(&p);
	}
	for (a = 0; a < 3; a++) for (i = 0; i < 8; i++) for (k = 0; k < 24; k++) {
		int mis = (i * step[a]) & 15, f = k >> 2; opn M; s32 w = k & 2 ? SLJIT_32 : 0; st = k & 1;
		if (!mine()) continue;
		if (a == 2 && w) continue;
		pnew(&p);
		switch (f) {
		case 0: init_const(&p, I_REG, R(0), MEMA(96 + mis)); M = m1(R(0), 0); break;
		case 1: init_const(&p, I_REG, R(0), MEMA(96 + mis) - 12); init_const(&p, I_REG, R(2), 3); M = m2(R(0), R(2), 2); break;
		case 2: init_const(&p, I_REG, R(0), MEMA(96 + mis) - 3); init_const(&p, I_REG, R(2), 3); M = m2(R(0), R(2), 0); break;
		case 3: M = m0((void *)MEMA(96 + mis)); break;
		case 4: M = m1(SLJIT_SP, 16 + mis); break;
		default: M = m1(ST, O_MEM + 96 + mis); break;
		}
		if (st && w) { add(&p, K_FOP1, SLJIT_MOV_F32, rg(FR(1)), m1(ST, O_MEM + 32), no()); p.fv[FR(1)] = 1; }
		add(&p, K_FMEM, SLJIT_MOV_F64 | w | al[a] | (st ? SLJIT_MEM_STORE : 0), rg(FR(1)), M, no());
		if (w) p.fv[FR(1)] = 1;
		submit(&p);
	}
}
static void pairs(void)
{
	static const s32 al[] = { 0, SLJIT_MEM_UNALIGNED, SLJIT_MEM_ALIGNED_16, SLJIT_MEM_ALIGNED_32 }; static const int step[] = { WB, 1, 2, 4 };
	int i, a, k, f, q; prog_t p; ins_t *x; int hi = R(NR_SCR - 1);
	for (i = 0; i < n_offs; i++) for (a = 0; a < 4; a++) for (k = 0; k < 8; k++) {
		int mis = (step[a] * (1 + (i % 3))) & 15, st = k & 1, r1, r2;
		if (!mine()) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128 + mis) - (uw)offs[i]));
		/* neither, first, second is the base; descending order */
		r1 = (k >> 1) == 1 ? R(0) : (k >> 1) == 3 ? R(2) : R(1); r2 = (k >> 1) == 2 ? R(0) : (k >> 1) == 3 ? R(1) : R(2);
		x = add(&p, K_MEM, SLJIT_MOV | al[a] | (st ? SLJIT_MEM_STORE : 0), rg(0), m1(R(0), offs[i]), no()); x->d.t = SLJIT_REG_PAIR(r1, r2);
		submit(&p);
	}
	/* all register pairs of a pool with all address forms */
	{ int pool[7], np = 0, r1, r2; pool[np++] = R(0); pool[np++] = R(1); pool[np++] = R(2); pool[np++] = R(3); pool[np++] = R(4); pool[np++] = R(5); pool[np++] = hi;
	for (r1 = 0; r1 < np; r1++) for (r2 = 0; r2 < np; r2++) for (f = 0; f < 8; f++) for (a = 0; a < 4; a++) for (q = 0; q < 2; q++) {
		opn M; int mis = a ? step[a] * 3 : 0;
		if (!mine()) continue;
		if (pool[r1] == pool[r2]) continue;
		pnew(&p);
		switch (f) {
		case 0: init_const(&p, I_REG, R(0), MEMA(96 + mis)); M = m1(R(0), 0); break;
		case 1: init_const(&p, I_REG, R(2), MEMA(96 + mis) + 4096); M = m1(R(2), -4096); break;
		case 2: init_const(&p, I_REG, R(0), MEMA(96 + mis) - 12); init_const(&p, I_REG, R(2), 3); M = m2(R(0), R(2), 2); break;
		case 3: init_const(&p, I_REG, R(1), MEMA(96 + mis) - 3); init_const(&p, I_REG, R(0), 3); M = m2(R(1), R(0), 0); break;
		case 4: init_const(&p, I_REG, R(2), MEMA(96 + mis) - 24); init_const(&p, I_REG, R(1), 3); M = m2(R(2), R(1), 3); break;
		case 5: M = m0((void *)MEMA(96 + mis)); break;
		case 6: M = m1(SLJIT_SP, 16 + mis); break;
		default: M = m1(ST, O_MEM + 96 + mis); break;
		}
		x = add(&p, K_MEM, SLJIT_MOV | al[a] | (q ? SLJIT_MEM_STORE : 0), rg(0), M, no()); x->d.t = SLJIT_REG_PAIR(pool[r1], pool[r2]);
		submit(&p);
	} }
}
/* pre/post update: the test-only request must agree with the real one and emit nothing */
static int supp(int fl, s32 op, int reg, opn M)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); s32 e; sljit_uw s0; int bad = 0;
	g_phase = "compile"; set_ctx(c); s0 = c->size;
	e = fl ? sljit_emit_fmem_update(c, op | SLJIT_MEM_SUPP, reg, M.t, M.w) : sljit_emit_mem_update(c, op | SLJIT_MEM_SUPP, reg, M.t, M.w);
	if (e != SLJIT_SUCCESS && e != SLJIT_ERR_UNSUPPORTED) bad = 1;
	if (c->size != s0 || sljit_get_compiler_error(c)) bad = 1;
	sljit_free_compiler(c);
	return bad ? -1 : e == SLJIT_SUCCESS;
}
static void upd1(int fl, s32 op, int reg, opn M, sw basev, int x, sw xv)
{
	prog_t p; int s;
	if (!mine()) return;
	g_cur = g_idx - 1;
	s = supp(fl, op, reg, M);
	if (s < 0) { violation(g_idx - 1, "supp", "test-only update request emitted code or returned an unexpected error (op 0x%x, offset 0x%llx)", (unsigned)op, (unsigned long long)M.w); return; }
	pnew(&p); init_const(&p, I_REG, M.t & 0x7f, basev);
	if (x) init_const(&p, I_REG, x, xv);
	if (fl && (op & SLJIT_32) && (op & SLJIT_MEM_STORE)) { add(&p, K_FOP1, SLJIT_MOV_F32, rg(reg), m1(ST, O_MEM + 32), no()); p.fv[reg] = 1; }
	add(&p, fl ? K_FMEMU : K_MEMU, op, rg(reg), M, no());
	if (fl) p.fv[reg] = op & SLJIT_32 ? 1 : 2;
	else if (IS64 && !(op & SLJIT_MEM_STORE) && ((op & SLJIT_32) || opc(op) == SLJIT_MOV32)) p.rv[reg] = 32;
	if (!s) p.allow_unsup = 1;
	submit(&p);
	if (!s) {
		/* must be refused without emitting anything */
		struct sljit_compiler *c = sljit_create_compiler(NULL); s32 e; sljit_uw s0; set_ctx(c); s0 = c->size;
		e = fl ? sljit_emit_fmem_update(c, op, reg, M.t, M.w) : sljit_emit_mem_update(c, op, reg, M.t, M.w);
		if (e != SLJIT_ERR_UNSUPPORTED || c->size != s0) violation(g_idx - 1, "unsupp", "update form announced as unsupported was not refused cleanly: error %d, size %d (op 0x%x, offset 0x%llx)", (int)e, (int)(c->size - s0), (unsigned)op, (unsigned long long)M.w);
		sljit_free_compiler(c);
	}
}
static void updates(void)
{
	int i, m, k, s, q;
	for (i = 0; i < n_offs; i++) for (m = 0; m < NMOV; m++) for (k = 0; k < 4; k++) {
		s32 op = movs[m] | (k & 1 ? SLJIT_MEM_STORE : 0) | (k & 2 ? SLJIT_MEM_POST : 0);
		if (!IS64 && (movs[m] & SLJIT_32)) { mine(); continue; }
		upd1(0, op & ~SLJIT_32, R(1), m1(R(0), offs[i]), k & 2 ? MEMA(128) : (sw)((uw)MEMA(128) - (uw)offs[i]), 0, 0);
	}
	for (i = 0; i < n_real; i++) for (q = 0; q < n_real; q++) for (s = 0; s < 4; s++) for (m = 0; m < 9; m++) for (k = 0; k < 4; k++) {
		int b = real_regs[i], x = real_regs[q], d = (b != R(0) && x != R(0)) ? R(0) : (b != R(1) && x != R(1)) ? R(1) : R(2); sw xv = (m & 1) ? 5 : -6;
		if (b == x) { mine(); continue; }
		upd1(0, movs[m] | (k & 1 ? SLJIT_MEM_STORE : 0) | (k & 2 ? SLJIT_MEM_POST : 0), (s == 3 && !(k & 1)) ? x : d, m2(b, x, s), k & 2 ? MEMA(128) : (sw)((uw)MEMA(128) - ((uw)xv << s)), x, xv);
	}
	for (i = 0; i < n_offs; i++) for (k = 0; k < 8; k++) {
		s32 op = SLJIT_MOV_F64 | (k & 1 ? SLJIT_MEM_STORE : 0) | (k & 2 ? SLJIT_MEM_POST : 0) | (k & 4 ? SLJIT_32 : 0);
		upd1(1, op, FR(1), m1(R(0), offs[i]), k & 2 ? MEMA(128) : (sw)((uw)MEMA(128) - (uw)offs[i]), 0, 0);
	}
	for (s = 0; s < 4; s++) for (k = 0; k < 8; k++) {
		s32 op = SLJIT_MOV_F64 | (k & 1 ? SLJIT_MEM_STORE : 0) | (k & 2 ? SLJIT_MEM_POST : 0) | (k & 4 ? SLJIT_32 : 0);
		upd1(1, op, FR(1), m2(R(0), R(2), s), k & 2 ? MEMA(128) : (sw)((uw)MEMA(128) - ((uw)3 << s)), R(2), 3);
	}
}
/* absolute addresses around every encoding limit */
static void absolute(void)
{
	int w, d, m, k; prog_t p;
	for (w = 0; w < g_nwin; w++) for (d = 0; d < WINSZ; d += 4) for (m = 0; m < 9; m++) for (k = 0; k < 10; k++) {
		opn M; s32 op = movs[m]; int v = R(0), len = mlen(op);
		if (!mine()) continue;
		if (!g_win[w] || (d & (len - 1)) || d + len > WINSZ) continue;
		M = m0(g_win[w] + d); pnew(&p);
		switch (k) {
		case 0: B_op1(&p, op, rg(v), M); break;
		case 1: add(&p, K_OP1, op, M, rg(v), no()); break;
		case 2: B_op1(&p, op, M, im(0x6b6a6968)); break;
		case 3: B_op1(&p, op, M, m0(g_win[w] + (d ? 0 : 32))); break;
		case 4: if (m > 1) continue; if (m == 0) B_op2(&p, SLJIT_ADD, M, M, rg(R(1))); else B_op2(&p, SLJIT_SUB32, M, im(1), M); break;
		case 5: if (m > 1 || d % 8) continue; if (m == 0) add(&p, K_FOP1, SLJIT_MOV_F64, rg(FR(1)), M, no()); else { add(&p, K_FOP1, SLJIT_MOV_F64, M, rg(FR(1)), no()); } break;
		case 6: if (m > 1 || d % 8) continue; add(&p, K_OP1, SLJIT_MOV, rg(R(1)), im((sw)g_win[w] + d), no()); if (m) add(&p, K_OP1, SLJIT_MOV, m1(R(1), 0), M, no()); else add(&p, K_OP1, SLJIT_MOV, M, m1(R(1), 0), no()); break;
		case 7: if (m > 1) continue; if (m == 0) add(&p, K_MEM, SLJIT_MOV_S32 | SLJIT_MEM_ALIGNED_16, rg(v), M, no()); else add(&p, K_MEM, SLJIT_MOV_U16 | SLJIT_MEM_UNALIGNED | SLJIT_MEM_STORE, rg(v), M, no()); break;
		case 8: if (m || d + 2 * WB > WINSZ || (d & (WB - 1))) continue; { ins_t *x = add(&p, K_MEM, SLJIT_MOV, rg(0), M, no()); x->d.t = SLJIT_REG_PAIR(R(1), R(2)); } break;
		case 9: if (m) continue; add(&p, K_SRC, SLJIT_PREFETCH_L1, no(), M, no()); break;
		}
		submit(&p);
	}
}
static void locals_(void)
{
	int i, k, m; prog_t p;
	/* address of locals at every offset */
	for (i = 0; i < n_offs; i++) for (k = 0; k < 3; k++) {
		if (!mine()) continue;
		pnew(&p);
		if (k == 2) init_const(&p, I_REG, R(0), MEMA(64));
		add(&p, K_LB, 0, k == 0 ? rg(R(1)) : k == 1 ? m1(ST, O_MEM + 64) : m1(R(0), 0), im(offs[i]), no());
		submit(&p);
	}
	for (i = 0; i < LOCSZ; i++) for (m = 0; m < 9; m++) for (k = 0; k < 3; k++) {
		int len = mlen(movs[m]);
		if (!mine()) continue;
		if ((i & (len - 1)) || i + len > LOCSZ) continue;
		pnew(&p);
		if (k == 0) B_op1(&p, movs[m], rg(R(1)), m1(SLJIT_SP, i)); else if (k == 1) add(&p, K_OP1, movs[m], m1(SLJIT_SP, i), rg(R(1)), no()); else B_op1(&p, movs[m], m1(SLJIT_SP, i), m1(SLJIT_SP, (i ^ 32)));
		submit(&p);
	}
}
static void prefetch(void)
{
	int i, k; prog_t p; static const s32 o[] = { SLJIT_PREFETCH_L1, SLJIT_PREFETCH_L2, SLJIT_PREFETCH_L3, SLJIT_PREFETCH_ONCE };
	for (i = 0; i < n_offs; i++) for (k = 0; k < 4; k++) {
		if (!mine()) continue;
		pnew(&p); init_const(&p, I_REG, R(0), (sw)((uw)MEMA(128) - (uw)offs[i]));
		B_op2u(&p, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, rg(R(1)), rg(R(2)));
		add(&p, K_SRC, o[k], no(), (i & 7) == 7 ? m2(R(0), R(2), k) : m1(R(0), offs[i]), no());
		B_capf(&p, 0, SLJIT_EQUAL); B_capf(&p, 1, SLJIT_LESS);
		submit(&p);
	}
}
int main(int argc, char **argv)
{
	static const u64 w64[] = { 0x20000, 0x800000, 0x8000000, 0x7fff8000, 0x80000000ull, 0x7ffff800, 0xffff8000ull, 0x100000000ull, 0x1000000000ull, 0x123456789000ull, 0x3fff80000000ull };
	static const u64 w32[] = { 0x20000, 0x800000, 0x8000000, 0x7fff8000, 0x7ffff800, 0x80000000ull, 0xc0008000ull, 0x12345800, 0x1000000, 0x40000000, 0x5555f000 };
	int i;
	parse_args(argc, argv);
	eng_init("mem", 1, 1);
	common_init(); offs_init();
	for (i = 0; i < 11; i++) add_window(IS64 ? w64[i] : w32[i]);
	for (i = 1; i <= NR_SCR; i++) if (!IS_VIRT(i)) real_regs[n_real++] = i;
	moves(); regs(); mem_mem(); floats(); unaligned(); pairs(); updates(); absolute(); locals_(); prefetch();
	eng_done();
	return 0;
}
