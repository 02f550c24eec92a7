/* shared enumerations: immediates, operand forms, register triples */
#ifndef COMMON_H
#define COMMON_H
static u64 imms[64]; static int n_imms;
static int triples[600][3]; static int n_triples;
#define IS_VIRT(r) (sljit_get_register_index(SLJIT_GP_REGISTER, (r)) < 0)
static void common_init(void)
{
	static const u64 iv[] = { 0, 1, ~0ull, 2, 3, 8, 0x7f, 0x80, 0xff, 0x100, ~0x7full, ~0x80ull, ~0xffull, 0x7ff, 0x800, ~0x7ffull, ~0x800ull, 0xfff, 0x1000, 0x1fff, 0x7fff, 0x8000, 0xffff, 0x10000,
		~0x7fffull, ~0x8000ull, ~0xffffull, 0x7ffff, 0x80000, 0xfffff, 0x12345, 0x555000, 0xfff000, 0x1000000, 0x7fffffff, 0xffffffff80000000ull, 0xffffffff7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x123456789abcdef0ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
		0xff00ff00ff00ff00ull, 0x5555555555555555ull, 0xffff0000ffffull, 0xfffffff000000000ull };
	int i, j, k, n = 0; int pool[6];
	for (i = 0; i < (int)(sizeof(iv) / 8); i++) { u64 v = WB == 4 ? (u64)(s64)(s32)iv[i] : iv[i]; for (j = 0; j < n_imms; j++) if (imms[j] == v) break; if (j == n_imms) imms[n_imms++] = v; }
	pool[n++] = R(0); pool[n++] = R(1); pool[n++] = R(2); pool[n++] = R(3); pool[n++] = R(NR_SCR - 1);
	for (i = 0; i < n; i++) for (j = 0; j < n; j++) for (k = 0; k < n; k++) { triples[n_triples][0] = pool[i]; triples[n_triples][1] = pool[j]; triples[n_triples++][2] = pool[k]; }
	for (i = 4; i < NR_SCR - 1; i++) {
		int r = R(i), f;
		for (f = 0; f < 5; f++) {
			triples[n_triples][0] = f == 0 || f == 3 || f == 4 ? r : R(0); triples[n_triples][1] = f == 1 || f == 3 ? r : R(1); triples[n_triples++][2] = f == 2 || f == 4 ? r : R(2);
		}
	}
}
static int reg_is_ptr(prog_t *p, int r) { int i; for (i = 0; i < p->ni; i++) if (p->it[i].kind == I_REG && p->it[i].where == r && p->it[i].slot == 0xff) return 1; return 0; }
/* operand form k addressing data area offset `off` (a multiple of 32); position pos selects the registers.
   Forms: 0 register, 1 [base], 2 [base+off], 3 [base+idx<<0], 4 [base+idx<<2], 5 [sp+...], 6 absolute, 7 [S0+..], 8 register equal to base of form 1 */
static const int n_dforms = 9;
static int base_of(int pos) { return pos == 0 ? R(0) : pos == 1 ? R(1) : (IS_VIRT(R(3)) ? R(2) : R(3)); }
static void ptr_init(prog_t *p, int r, sw v) { int i; for (i = 0; i < p->ni; i++) if (p->it[i].kind == I_REG && p->it[i].where == r && p->it[i].slot == 0xff) { if (p->it[i].c != v) p->it[i].c = v; return; } init_const(p, I_REG, r, v); }
static int ptr_conflict(prog_t *p, int r, sw v) { int i; for (i = 0; i < p->ni; i++) if (p->it[i].kind == I_REG && p->it[i].where == r && p->it[i].slot == 0xff && p->it[i].c != v) return 1; return 0; }
static int dform(prog_t *p, int k, opn *o, int off, int pos)
{
	int b = base_of(pos), x = IS_VIRT(R(3)) ? R(2) : R(4); sw a = (sw)(g_st->mem) + off;
	switch (k) {
	case 0: *o = rg(pos == 0 ? R(0) : pos == 1 ? R(5) : R(6)); return 1;
	case 1: if (ptr_conflict(p, b, a)) return 0; ptr_init(p, b, a); *o = m1(b, 0); return 1;
	case 2: { int c = IS_VIRT(R(3)) ? R(2) : R(7); if (NR_SCR < 9 || IS_VIRT(R(3))) c = R(2); else c = R(7);
		if (ptr_conflict(p, c, (sw)g_st->mem)) return 0;
		ptr_init(p, c, (sw)g_st->mem); *o = m1(c, off); return 1; }
	case 3: if (x == b || ptr_conflict(p, b, a - 24) || ptr_conflict(p, x, 24)) return 0; ptr_init(p, b, a - 24); ptr_init(p, x, 24); *o = m2(b, x, 0); return 1;
	case 4: if (x == b || ptr_conflict(p, b, a - 96) || ptr_conflict(p, x, 24)) return 0; ptr_init(p, b, a - 96); ptr_init(p, x, 24); *o = m2(b, x, 2); return 1;
	case 5: *o = m1(SLJIT_SP, off == 64 ? 16 : off == 96 ? 32 : 48); return 1;
	case 6: *o = m0((void *)a); return 1;
	case 7: *o = m1(ST, O_MEM + off); return 1;
	case 8: *o = rg(base_of(pos == 0 ? 1 : pos)); return 1; /* dst equal to the base register of source 1 */
	}
	return 0;
}
#endif
