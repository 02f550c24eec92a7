/* P16: every vector operation x register size x element size x lane x register assignment x operand form, executed on every data pattern.
   Lane model: a vector register is the array of bytes a simd_mov stores to memory. The whole state is compared after every operation:
   all vector registers of the pool, the scratch registers, locals, memory around the operand and the flags set before the operation. */
#define _GNU_SOURCE
#include "eng.h"
#include "common.h"
#if defined __x86_64__ || defined __i386__
#define X86 1
#else
#define X86 0
#endif
#define NV SLJIT_NUMBER_OF_VECTOR_REGISTERS
enum { O_MOV, O_REP, O_LANE, O_LREP, O_EXT, O_SIGN, O_OP2 };
enum { X_V, X_R, X_F, X_I, X_M };  /* the kind of the operand */
typedef struct { int op; s32 type; int v1, v2, lane, xk, form, mis, gp; sw imm; int fo; sw vo; s32 x; sw xw; } prg;
static prg pb[MAXB]; static u64 pidx[MAXB]; static struct sljit_label *pl[MAXB]; static int npb;
static u8 *vin, *vout; static void *pro, *epi; static int U, msz, pairs, vex, pool[8], npool, unitof[64][2], nunits; static int sepv;
static s32 vctx(struct sljit_compiler *c, int vx)
{
	s32 opt = 0;
#if X86
	if (vx) opt |= SLJIT_ENTER_USE_VEX;
#endif
	return sljit_set_context(c, opt, SLJIT_ARGS1V(P), NR_SCR | SLJIT_ENTER_FLOAT(NF) | SLJIT_ENTER_VECTOR(NV), 1, LOCSZ);
}
#define RS(t) SLJIT_SIMD_GET_REG_SIZE_(t)
#define SLJIT_SIMD_GET_REG_SIZE_(t) (((t) >> 12) & 0x3f)
#define ES(t) (((t) >> 18) & 0x3f)
#define E2(t) (((t) >> 24) & 0x3f)
static s32 emit1(struct sljit_compiler *c, prg *p, s32 fl)
{
	s32 t = p->type | fl;
	switch (p->op) {
	case O_MOV: return sljit_emit_simd_mov(c, t, p->v1, p->x, p->xw);
	case O_REP: return sljit_emit_simd_replicate(c, t, p->v1, p->x, p->xw);
	case O_LANE: return sljit_emit_simd_lane_mov(c, t, p->v1, p->lane, p->x, p->xw);
	case O_LREP: return sljit_emit_simd_lane_replicate(c, t, p->v1, p->v2, p->lane);
	case O_EXT: return sljit_emit_simd_extend(c, t, p->v1, p->x, p->xw);
	case O_SIGN: return sljit_emit_simd_sign(c, t, p->v1, p->x, p->xw);
	default: return sljit_emit_simd_op2(c, t, p->v1, p->v2, p->x, p->xw);
	}
}
static const sw vofs[] = { 0, 1, 8, 64, -8, 255, 256, -256, -257, 508, 1020, 2040, 2047, 2048, -2048, 4080, 4095, 4096, 4097, -4096, 32767, 32768, 65536, 0x12345678, -0x12345678, 1048576 - 8 };
#define NVO ((int)(sizeof(vofs) / sizeof(sw)))
#define NFORM 10
/* forms 8 and 9: the operand is at the start / end of an accessible page surrounded by inaccessible ones */
static u8 *pg, pe[4096];
#define PGS 4096
static int accsz(prg *p) { s32 t = p->type; int rs = RS(t); switch (p->op) { case O_MOV: case O_OP2: return 1 << rs; case O_EXT: return 1 << (rs - E2(t) + ES(t)); case O_SIGN: return t & SLJIT_32 ? 4 : WB; default: return 1 << ES(t); } }
/* the operand: form 0 [b+vofs], 1..4 [b + idx << k], 5 absolute, 6 [sp+16], 7 [S0+..] */
static u8 *opaddr(prg *p) { if (p->form == 8) return pg; if (p->form == 9) return pg + PGS - accsz(p); return p->form == 6 ? (u8 *)0 : g_st->mem + 64 + p->mis; }
static void operand(prg *p)
{
	u8 *a = opaddr(p);
	switch (p->xk) {
	case X_V: case X_R: case X_F: if (p->xk != X_V) p->x = p->gp; p->xw = 0; break;
	case X_I: p->x = SLJIT_IMM; p->xw = p->imm; break;
	default:
		if (p->form == 0 || p->form >= 8) p->x = SLJIT_MEM1(p->gp), p->xw = p->form ? 0 : p->vo;
		else if (p->form <= 4) p->x = SLJIT_MEM2(p->gp, p->gp == R(2) ? R(1) : R(2)), p->xw = p->form - 1;
		else if (p->form == 5) p->x = SLJIT_MEM0(), p->xw = (sw)a;
		else if (p->form == 6) p->x = SLJIT_MEM1(SLJIT_SP), p->xw = 16;
		else p->x = SLJIT_MEM1(ST), p->xw = O_MEM + 64 + p->mis;
	}
}
static void ptxt(prg *p, char *o)
{
	static const char *const nm[] = { "mov", "replicate", "lane_mov", "lane_replicate", "extend", "sign", "op2" }; s32 t = p->type; char b[16];
	o += sprintf(o, "%s%s.%d.%s%d", vex ? "vex " : "", nm[p->op], 8 << RS(t), t & SLJIT_SIMD_FLOAT ? "f" : "", 8 << ES(t));
	if (p->op == O_EXT) o += sprintf(o, "->%d%s", 8 << E2(t), t & SLJIT_SIMD_EXTEND_SIGNED ? " signed" : "");
	if ((p->op == O_MOV || p->op == O_OP2) && p->xk == X_M) o += E2(t) ? sprintf(o, " al%d", 8 << E2(t)) : sprintf(o, " unal");
	if (p->op == O_OP2) o += sprintf(o, " %s", (const char *[]){ "?", "and", "or", "xor", "shuffle" }[t & 7]);
	else if (t & SLJIT_SIMD_STORE) o += sprintf(o, " store");
	if (p->op == O_LANE) o += sprintf(o, "%s%s", !(t & SLJIT_SIMD_STORE) && (t & SLJIT_SIMD_LANE_ZERO) ? " zero" : "", t & SLJIT_SIMD_LANE_SIGNED ? " signed" : "");
	if (t & SLJIT_32 && p->op != O_OP2) o += sprintf(o, " 32");
	o += sprintf(o, " v%d", p->v1); if (p->op == O_LREP || p->op == O_OP2) o += sprintf(o, ", v%d", p->v2); if (p->op == O_LANE || p->op == O_LREP) o += sprintf(o, " [%d]", p->lane);
	if (p->op == O_LREP) return;
	if (p->xk == X_V) sprintf(o, ", v%d", (int)p->x); else if (p->xk == X_R) { rname(b, p->gp, 0); sprintf(o, ", %s", b); } else if (p->xk == X_F) sprintf(o, ", fr%d", p->gp - 1); else if (p->xk == X_I) sprintf(o, ", #%ld", (long)p->imm);
	else { rname(b, p->gp, 0); sprintf(o, p->form == 0 ? ", [%s+%ld]" : p->form <= 4 ? ", [%s+idx<<%ld]" : p->form == 5 ? ", [absolute]" : p->form == 6 ? ", [sp+16]" : p->form == 7 ? ", [S0+%ld]" : p->form == 8 ? ", [%s] page start" : ", [%s] page end", b, p->form == 0 ? (long)p->vo : (long)(p->form - 1)); sprintf(o + strlen(o), " (address %% 64 = %d)", p->form == 6 ? -1 : p->mis); }
}
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
#define FSEC 1
#define FBASE(r) ((r) > NF ? (r) - (SLJIT_F64_SECOND(1) - 1) : (r))
#else
#define FSEC 0
#define FBASE(r) (r)
#endif
#define EMI(x) do { s32 e_ = (x); if (e_) return e_; } while (0)
#define FLOAD_OFF O_FREG(0)
static s32 body(struct sljit_compiler *c, prg *p)
{
	int st = p->op == O_SIGN || (p->type & SLJIT_SIMD_STORE && p->op != O_OP2);
	int f32 = ES(p->type) == 2;
	if (p->xk == X_F && !st) EMI(sljit_emit_fop1(c, f32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, p->gp, 0, SLJIT_MEM1(ST), O_F32(0)));
	EMI(sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, SLJIT_MEM1(ST), O_CAP(2), SLJIT_IMM, 5));
	EMI(emit1(c, p, 0));
	EMI(sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM1(ST), O_CAP(0), SLJIT_LESS));
	EMI(sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM1(ST), O_CAP(1), SLJIT_EQUAL));
	if (p->xk == X_F && st) EMI(sljit_emit_fop1(c, f32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM1(ST), O_F32(0), p->gp, 0));
	EMI(sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_IMM, (sw)epi));
	return 0;
}
/* ------------------------------------------------ model */
static u64 geti(const u8 *p, int n) { u8 a; u16 b; u32 c; u64 d; switch (n) { case 1: memcpy(&a, p, 1); return a; case 2: memcpy(&b, p, 2); return b; case 4: memcpy(&c, p, 4); return c; default: memcpy(&d, p, 8); return d; } }
static void puti(u8 *p, int n, u64 v) { u8 a = (u8)v; u16 b = (u16)v; u32 c = (u32)v; switch (n) { case 1: memcpy(p, &a, 1); break; case 2: memcpy(p, &b, 2); break; case 4: memcpy(p, &c, 4); break; default: memcpy(p, &v, 8); } }
static s64 sx(u64 v, int n) { return n == 1 ? (s8)v : n == 2 ? (s16)v : n == 4 ? (s32)v : (s64)v; }
/* vector register access in the image of units */
static int units(int v, int rs, int *u) { if (pairs && rs == 4) { int a = ((v + 1) & ~1) - 1, b = a + 1; int ia = sljit_get_register_index(SLJIT_SIMD_REG_64, a), ib = sljit_get_register_index(SLJIT_SIMD_REG_64, b); if (ia < ib) u[0] = a, u[1] = b; else u[0] = b, u[1] = a; return 2; } u[0] = v; return 1; }
static void rdv(const u8 *img, int v, int rs, u8 *o) { int u[2], n = units(v, rs, u), i; if (n == 1) memcpy(o, img + v * U, (size_t)(1 << rs)); else for (i = 0; i < 2; i++) memcpy(o + i * U, img + u[i] * U, (size_t)U); }
static void wrv(u8 *img, u8 *un, int v, int rs, const u8 *o) { int u[2], n = units(v, rs, u), i; if (n == 1) { memcpy(img + v * U, o, (size_t)(1 << rs)); un[v] = (u8)((1 << rs) < U ? (1 << rs) : 255); } else for (i = 0; i < 2; i++) { memcpy(img + u[i] * U, o + i * U, (size_t)U); un[u[i]] = 255; } }
#define BE (__BYTE_ORDER__ == __ORDER_BIG_ENDIAN__)
#define NPAT 6
static u8 pat(int k, int i) /* byte i of the vector area, pattern k */
{
	u32 h = (u32)(i * 2654435761u + k * 40503u); h ^= h >> 15; h *= 0x85ebca6bu; h ^= h >> 13;
	switch (k) { case 0: return (u8)h; case 1: return (u8)(~h | 0x80); case 2: return (u8)(h & 0x7f); case 3: return (u8)((h & 7) == 0 ? 0x80 : (h & 7) == 1 ? 0x7f : (h & 7) == 2 ? 0xff : 0); case 4: return 0xff; default: return (u8)(h >> 9); }
}
static int cmpnan(const u8 *a, const u8 *b, int n) { return memcmp(a, b, (size_t)n); }
static const sw cv[] = { 5, 4, 6, -1, (sw)1 << (sizeof(sw) * 8 - 1), 0 };
static int run(prg *p, int k, char *msg)
{
	static st_t e; static u8 ei[64 * 64], un[64]; st_t *s = g_st; void *ret = s->ret; sw lb = s->lbase; s32 t = p->type; int i, j, rs = RS(t), es = ES(t), n = 1 << rs, w = 1 << es, nl = 1 << (rs - es), st = p->op == O_SIGN || (t & SLJIT_SIMD_STORE && p->op != O_OP2), fl = t & SLJIT_SIMD_FLOAT; u8 *ma, d[64], a[64], b[64]; u64 x; int xr = -1, x32 = 0;
	memcpy(s, &g_tmpl, sizeof(st_t)); s->ret = ret; s->lbase = lb; s->body = pro; s->cap[3] = (sw)sljit_get_label_addr(pl[p - pb]); s->cap[2] = cv[k % 6];
	for (i = 0; i < 128; i++) s->mem[32 + i] = pat(k, i + 3000); for (i = 0; i < 64; i++) s->loc[i] = pat(k, i + 4000); for (i = 0; i < nunits * U; i++) vin[U + i] = pat(k, i);
	if (p->op == O_SIGN || p->op == O_LANE || p->xk == X_R) for (i = 1; i <= NR_SCR; i++) if (i != ST) { u8 q[8]; for (j = 0; j < 8; j++) q[j] = pat(k, i * 8 + j + 5000); memcpy(&s->reg[i], q, sizeof(sw)); }
	if (fl && p->op == O_EXT) { /* only numbers */ static const float fv[] = { 1.5f, -2.25f, 0.0f, 3.4028234e38f, -1e-45f, 1.17549435e-38f, -0.0f, 65537.0f }; for (i = 0; i < 16; i++) { float f = fv[(i + k) & 7]; memcpy(s->mem + 64 + p->mis % 4 * 0 + (p->mis & ~3) + i * 4, &f, i * 4 + (p->mis & ~3) < 96 ? 4 : 0); if (i < 12) memcpy(s->loc + 16 + i * 4, &f, 4); } for (i = 0; i < nunits * U / 4; i++) { float f = fv[(i + k + i / 3) & 7]; memcpy(vin + U + i * 4, &f, 4); } }
	if (p->xk == X_F && !st) { for (i = 0; i < 8; i++) ((u8 *)s->f32cap)[i] = pat(k == 4 ? 0 : k, i + 6000); }
	if (p->op == O_OP2 && (t & 7) == SLJIT_SIMD_OP2_SHUFFLE) { int u[2]; for (i = 0; i < 128; i++) s->mem[32 + i] &= (u8)(n - 1); for (i = 0; i < 64; i++) s->loc[i] &= (u8)(n - 1); if (p->xk == X_V) { j = units(p->x, rs, u); while (j--) for (i = 0; i < U; i++) vin[u[j] * U + i] &= (u8)(n - 1); } }
	if (p->xk == X_M) { if (p->form >= 8) { s->reg[p->gp] = (sw)(uw)opaddr(p); for (i = 0; i < 128; i++) { pg[i] = pat(k, i + 7000); pg[PGS - 128 + i] = pat(k, i + 7200); } } if (p->form == 0) s->reg[p->gp] = (sw)((uw)opaddr(p) - (uw)p->vo); else if (p->form > 0 && p->form <= 4) { int ir = p->gp == R(2) ? R(1) : R(2); s->reg[ir] = 24; s->reg[p->gp] = (sw)((uw)opaddr(p) - (24u << (p->form - 1))); } }
	if (p->xk == X_M && p->form >= 8) { u8 *q = opaddr(p); if (fl && p->op == O_EXT) for (i = 0; i < accsz(p) / 4; i++) { float f = 1.25f * (float)(i + k - 2); memcpy(q + i * 4, &f, 4); } if (p->op == O_OP2 && (t & 7) == SLJIT_SIMD_OP2_SHUFFLE) for (i = 0; i < accsz(p); i++) q[i] &= (u8)(n - 1); memcpy(pe, pg, PGS); }
	memset(vout, 0xcc, (size_t)((nunits + 1) * U)); memcpy(&e, s, sizeof(e)); memcpy(ei, vin, (size_t)((nunits + 1) * U)); memset(un, 0, sizeof(un));
	ma = p->xk != X_M ? NULL : p->form == 6 ? e.loc + 16 : p->form >= 8 ? pe + (opaddr(p) - pg) : (u8 *)&e + (opaddr(p) - (u8 *)s);
	/* expected */
	switch (p->op) {
	case O_MOV:
		if (st) { rdv(vin, p->v1, rs, d); if (p->xk == X_M) memcpy(ma, d, (size_t)n); else wrv(ei, un, p->x, rs, d); }
		else { if (p->xk == X_M) memcpy(d, ma, (size_t)n); else rdv(vin, p->x, rs, d); wrv(ei, un, p->v1, rs, d); }
		break;
	case O_REP: case O_LANE:
		if (w > 8) { /* only memory operands */
			if (st) { rdv(vin, p->v1, rs, d); memcpy(ma, d + p->lane * w, (size_t)w); break; }
			if (p->op == O_LANE) { if (t & SLJIT_SIMD_LANE_ZERO) memset(d, 0, sizeof(d)); else rdv(vin, p->v1, rs, d); memcpy(d + p->lane * w, ma, (size_t)w); } else for (i = 0; i < nl; i++) { if (p->xk == X_I) memset(d + i * w, 0, (size_t)w); else memcpy(d + i * w, ma, (size_t)w); }
			wrv(ei, un, p->v1, rs, d); break;
		}
		if (!st) {
			switch (p->xk) { case X_R: x = (u64)(uw)e.reg[p->gp]; break; case X_I: x = (u64)(s64)p->imm; break; case X_M: x = geti(ma, w); break; default: x = geti((u8 *)e.f32cap, w); }
			if (p->op == O_REP) { for (i = 0; i < nl; i++) puti(d + i * w, w, x); }
			else { if (t & SLJIT_SIMD_LANE_ZERO) memset(d, 0, sizeof(d)); else rdv(vin, p->v1, rs, d); puti(d + p->lane * w, w, x); }
			wrv(ei, un, p->v1, rs, d);
		} else {
			rdv(vin, p->v1, rs, d); x = geti(d + p->lane * w, w); if (t & SLJIT_SIMD_LANE_SIGNED) x = (u64)sx(x, w);
			if (p->xk == X_M) puti(ma, w, x); else if (p->xk == X_F) puti((u8 *)e.f32cap, w, x); else { xr = p->gp; x32 = t & SLJIT_32; e.reg[xr] = (sw)x; }
		}
		break;
	case O_LREP: rdv(vin, p->v2, rs, a); for (i = 0; i < nl; i++) memcpy(d + i * w, a + p->lane * w, (size_t)w); wrv(ei, un, p->v1, rs, d); break;
	case O_EXT:
		{ int w2 = 1 << E2(t), m = 1 << (rs - E2(t)); if (p->xk == X_M) memcpy(a, ma, (size_t)(m * w)); else rdv(vin, p->x, rs, a);
		for (i = 0; i < m; i++) { x = geti(a + i * w, w); if (fl) { float f; double g; memcpy(&f, a + i * w, 4); g = f; memcpy(d + i * 8, &g, 8); } else puti(d + i * w2, w2, t & SLJIT_SIMD_EXTEND_SIGNED ? (u64)sx(x, w) : x); }
		wrv(ei, un, p->v1, rs, d); break; }
	case O_SIGN:
		rdv(vin, p->v1, rs, d); x = 0; for (i = 0; i < nl; i++) if (sx(geti(d + i * w, w), w) < 0) x |= (u64)1 << (BE ? nl - 1 - i : i); /* the suite expects the lane with the lowest address in the most significant bit on big-endian machines */
		if (p->xk == X_M) puti(ma, t & SLJIT_32 ? 4 : WB, x); else { xr = p->gp; x32 = t & SLJIT_32; e.reg[xr] = (sw)x; }
		break;
	default:
		rdv(vin, p->v2, rs, a); if (p->xk == X_M) memcpy(b, ma, (size_t)n); else rdv(vin, p->x, rs, b);
		for (i = 0; i < n; i++) d[i] = (t & 7) == SLJIT_SIMD_OP2_AND ? a[i] & b[i] : (t & 7) == SLJIT_SIMD_OP2_OR ? a[i] | b[i] : (t & 7) == SLJIT_SIMD_OP2_XOR ? a[i] ^ b[i] : a[b[i] & (n - 1)];
		wrv(ei, un, p->v1, rs, d);
	}
	g_phase = "run"; call_wrap(s); n_runs++;
	if (s->cap[0] != (cv[k % 6] < 0 || (uw)cv[k % 6] >= 5 ? 0 : 1) || s->cap[1] != (cv[k % 6] == 5)) { sprintf(msg, "the flags change: %ld - 5 gives less %ld, equal %ld", (long)cv[k % 6], (long)s->cap[0], (long)s->cap[1]); return 0; }
	/* vector registers */
	if (p->xk == X_F && !sepv) { int fu = FBASE(p->gp); if (!un[fu]) un[fu] = 254; }
	for (i = 1; i <= nunits; i++) { int c = un[i] == 254 ? 0 : un[i] && un[i] != 255 ? un[i] : U; if (cmpnan(vout + i * U, ei + i * U, c)) { char *q = msg + sprintf(msg, "pattern %d, vector register %d is ", k, i); for (j = 0; j < c; j++) q += sprintf(q, "%02x", vout[i * U + j]); q += sprintf(q, ", expected "); for (j = 0; j < c; j++) q += sprintf(q, "%02x", ei[i * U + j]); return 0; } }
	for (i = 1; i <= NR_SCR; i++) if (i != ST) {
		uw g = (uw)s->reg[i], x2 = (uw)e.reg[i]; if (i == xr && x32) g = (u32)g, x2 = (u32)x2;
		if (g != x2) { char r[16]; rname(r, i, 0); sprintf(msg, "pattern %d, register %s is %#lx, expected %#lx", k, r, (unsigned long)g, (unsigned long)x2); return 0; }
	}
	if (memcmp(s->loc, e.loc, LOCSZ)) { sprintf(msg, "pattern %d, locals differ", k); return 0; }
	{ volatile u8 *q0 = (volatile u8 *)s + offsetof(st_t, guard0), *q1 = (volatile u8 *)&e + offsetof(st_t, guard0); int nn = (int)(sizeof(st_t) - offsetof(st_t, guard0)); for (i = 0; i < nn; i++) if (q0[i] != q1[i]) { sprintf(msg, "pattern %d, memory differs at operand%+ld: %02x, expected %02x", k, (long)((u8 *)q0 + i - (p->form == 6 || p->form >= 8 || p->xk != X_M ? s->mem + 64 : opaddr(p))), q0[i], q1[i]); return 0; } }
	if (p->xk == X_M && p->form >= 8 && memcmp(pg, pe, PGS)) { for (i = 0; pg[i] == pe[i]; i++); sprintf(msg, "pattern %d, memory differs at operand%+ld: %02x, expected %02x", k, (long)(pg + i - opaddr(p)), pg[i], pe[i]); return 0; }
	if (memcmp(s->f32cap, e.f32cap, sizeof(e.f32cap))) { sprintf(msg, "pattern %d, the float value is %016llx, expected %016llx", k, (unsigned long long)geti((u8 *)s->f32cap, 8), (unsigned long long)geti((u8 *)e.f32cap, 8)); return 0; }
	if (sepv) for (i = 1; i <= NF; i++) if (!(p->xk == X_F && i == p->gp) && s->freg[i] != e.freg[i]) { sprintf(msg, "pattern %d, float register %d changes", k, i); return 0; }
	return 1;
}
static void flushp(void)
{
	int i, k; s32 e = 0; struct sljit_compiler *c; char t[400], msg[600];
	if (!npb) return; TICK(); g_apos = g_wrapend; c = sljit_create_compiler(NULL);
	for (i = 0; i < npb && !e; i++) {
		g_cur = pidx[i]; g_phase = "compile"; ptxt(&pb[i], t); g_crash_txt = t; vctx(c, vex); pl[i] = sljit_emit_label(c); e = body(c, &pb[i]);
		if (e) { violation(pidx[i], "compile", "%s | error %d after a successful test request", t, (int)e); npb = 0; sljit_free_compiler(c); return; }
	}
	g_phase = "generate"; if (!arena_gen(c)) { violation(g_cur, "generate", "error %d", (int)sljit_get_compiler_error(c)); npb = 0; sljit_free_compiler(c); return; }
	for (i = 0; i < npb; i++) {
		g_cur = pidx[i]; ptxt(&pb[i], t); g_crash_txt = t; n_progs++;
		for (k = 0; k < NPAT; k++) { n_steps++; if (!run(&pb[i], k, msg)) { violation(pidx[i], "simd", "%s | %s", t, msg); break; } }
		if (g_nsamples < 4 && n_progs % 1777 == 1) snprintf(g_samples[g_nsamples++], 600, "%s", t);
	}
	sljit_free_compiler(c); npb = 0;
	if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); }
}
/* is the request supported: the test request emits nothing, the real request agrees and leaves no error */
static int supported(prg *p)
{
	static struct { int op; s32 type; int xk, vx, lane, r; } cache[4096]; static int nc; int i, xk = p->xk; struct sljit_compiler *c; s32 a, b, er; uw sz; char t[400];
	for (i = nc - 1; i >= 0 && i > nc - 12; i--) if (cache[i].op == p->op && cache[i].type == p->type && cache[i].xk == xk && cache[i].vx == vex) return cache[i].r;
	c = sljit_create_compiler(NULL); vctx(c, vex); sljit_emit_op0(c, SLJIT_NOP); sz = c->size; a = emit1(c, p, SLJIT_SIMD_TEST); ptxt(p, t);
	if (c->size != sz) violation(g_cur, "test", "%s | the test request emits code", t);
	b = emit1(c, p, 0); er = sljit_get_compiler_error(c);
	if (a != b || (a && a != SLJIT_ERR_UNSUPPORTED) || er) violation(g_cur, "test", "%s | test request returns %d, the request %d, compiler error %d", t, (int)a, (int)b, (int)er);
	if (a && c->size != sz) violation(g_cur, "test", "%s | an unsupported request emits code", t);
	sljit_free_compiler(c); if (a) n_unsup++; else n_states++;
	if (nc == 4096) nc = 0; cache[nc].op = p->op; cache[nc].type = p->type; cache[nc].xk = xk; cache[nc].vx = vex; cache[nc++].r = a == 0;
	return a == 0;
}
static void sub(prg *p)
{
	if (p->xk == X_M && p->form != 0) { if (p->form > 4 && p->form < 8) p->gp = R(0); }
	if (p->xk == X_M && IS_VIRT(p->gp)) return;
	operand(p);
	if (!mine()) return;
	g_cur = g_idx - 1;
	if (!supported(p)) return;
	pidx[npb] = g_idx - 1; pb[npb++] = *p; if (npb == MAXB) flushp();
}
/* every memory form for a program; al: log2 of the alignment of the address */
static int gpr[8], ngpr;
static void mems(prg *p, int al, int few)
{
	int i, k; p->xk = X_M; p->mis = al >= 6 ? 0 : al < 0 ? 0 : 1 << al; if (al == 0) p->mis = 3;
	for (i = 0; i < NVO; i++) {
		if (few && i > 3 && i != 7 && i != 17 && i != 23) continue;
		p->form = 0; p->vo = vofs[i]; p->gp = gpr[(i + p->v1) % ngpr]; sub(p);
	}
	if (!few) for (i = 0; i < ngpr; i++) { p->form = 0; p->vo = 0; p->gp = gpr[i]; sub(p); }
	for (k = 1; k < NFORM; k++) { if (few && (k == 2 || k == 3)) continue; p->form = k; p->gp = gpr[(k + p->v1) % ngpr]; if (p->gp == R(2) && k <= 4) p->gp = R(0); if (k == 9 && (1 << al) > accsz(p)) continue; if (k == 6 && (al > (WB == 4 && !X86 ? 3 : 4) || (1 << RS(p->type)) > 48)) continue; sub(p); }
}
int main(int argc, char **argv)
{
	static const sw imv[] = { 0, 1, -1, 0x7f, 0x80, 0xff, -128, 0x100, 0x1234, -0x8000, 0x7fff, 0x8000, 0xffff, 0xff00, 0x5a5a, 0x12345678, -0x12345678, 0x7fffffff, (sw)0x80000000, (sw)0xffff0000ull, 0x00ff00ff, (sw)0x8080808080808080ull, (sw)0x123456789abcdef0ull, (sw)0xffffffff00000000ull, (sw)0xff00ff00ff00ff00ull, (sw)0x8000000000000000ull, (sw)0x3ff0000000000000ull, 0x10, 0x0f, 0x1000, 0x3f800000, (sw)0x5555555555555555ull };
	int i, j, k, rs, es, e2, f, al, o, nvx; prg p; struct sljit_compiler *c; struct sljit_label *l; s32 mt;
	parse_args(argc, argv); eng_init("simd", 1, 1); common_init();
	if (!sljit_has_cpu_feature(SLJIT_HAS_SIMD)) { n_unsup++; eng_done(); }
#ifdef SLJIT_SEPARATE_VECTOR_REGISTERS
	sepv = 1;
#endif
	pairs = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) != 0;
	c = sljit_create_compiler(NULL); vctx(c, 0); for (rs = 6; rs >= 3; rs--) if (sljit_emit_simd_mov(c, (rs << 12) | SLJIT_SIMD_TEST, 1, SLJIT_MEM1(ST), 0) == 0) break; sljit_free_compiler(c);
	msz = rs; if (pairs) rs = 3; if (rs < 3) { n_unsup++; eng_done(); }
	U = 1 << rs; mt = (rs << 12) | (pairs ? SLJIT_SIMD_ELEM_64 : 0);
	nunits = NV; vin = mmap(NULL, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); vout = vin + 8192;
	c = sljit_create_compiler(NULL); vctx(c, 0); l = sljit_emit_label(c);
	for (i = 1; i <= nunits; i++) if (sljit_emit_simd_mov(c, mt, i, SLJIT_MEM0(), (sw)(vin + i * U))) die("prologue");
	sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(ST), O_CAP(3)); g_apos = g_wrapend; if (!arena_gen(c)) die("prologue"); pro = (void *)sljit_get_label_addr(l); g_wrapend = g_apos; sljit_free_compiler(c);
	c = sljit_create_compiler(NULL); vctx(c, 0); l = sljit_emit_label(c);
	for (i = 1; i <= nunits; i++) sljit_emit_simd_mov(c, mt | SLJIT_SIMD_STORE, i, SLJIT_MEM0(), (sw)(vout + i * U));
	sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(ST), (sw)offsetof(st_t, ret)); g_apos = g_wrapend; if (!arena_gen(c)) die("epilogue"); epi = (void *)sljit_get_label_addr(l); g_wrapend = g_apos; sljit_free_compiler(c);
	pool[npool++] = SLJIT_VR(0); pool[npool++] = pairs ? SLJIT_VR(2) : SLJIT_VR(1); pool[npool++] = SLJIT_VR(NV - 1); if (NV > 9) pool[npool++] = SLJIT_VR(9); if (pairs) pool[npool++] = SLJIT_VR(1);
	gpr[ngpr++] = R(0); gpr[ngpr++] = R(1); gpr[ngpr++] = R(3); gpr[ngpr++] = SLJIT_S(1); if (NR > 9) gpr[ngpr++] = R(7);
	pg = mmap(NULL, 3 * PGS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); pg += PGS; mprotect(pg, PGS, PROT_READ | PROT_WRITE);
	nvx = 1;
#if X86
	if (sljit_has_cpu_feature(SLJIT_HAS_AVX)) nvx = 2;
#endif
#define BASE(o_) memset(&p, 0, sizeof(p)); p.op = o_; p.type = (rs << 12) | (es << 18) | (f ? SLJIT_SIMD_FLOAT : 0)
#define FEW (!g_thorough)
	for (vex = 0; vex < nvx; vex++) { for (rs = 3; rs <= 6; rs++) for (es = 0; es <= rs && es <= 5; es++) for (f = 0; f < 2; f++) {
		s32 t0 = (rs << 12) | (es << 18) | (f ? SLJIT_SIMD_FLOAT : 0); int nl = 1 << (rs - es), a, b;
		if (f && es < 1) continue;
		/* moves */
		for (k = 0; k < 2; k++) for (i = 0; i < npool; i++) {
			for (al = 0; al <= rs; al++) { BASE(O_MOV); p.type |= (k ? SLJIT_SIMD_STORE : 0) | (al << 24); p.v1 = pool[i]; mems(&p, al, FEW && (i > 0 || al > 0)); }
			for (j = 0; j < npool; j++) { BASE(O_MOV); p.type |= k ? SLJIT_SIMD_STORE : 0; p.v1 = pool[i]; p.xk = X_V; p.x = pool[j]; sub(&p); }
		}
		/* two operand operations */
		if (es <= 3 || !f) for (o = SLJIT_SIMD_OP2_AND; o <= SLJIT_SIMD_OP2_SHUFFLE; o++) for (i = 0; i < npool; i++) for (j = 0; j < npool; j++) {
			if (o == SLJIT_SIMD_OP2_SHUFFLE && (es || f)) continue;
			for (k = 0; k < npool; k++) { BASE(O_OP2); p.type |= o; p.v1 = pool[i]; p.v2 = pool[j]; p.xk = X_V; p.x = pool[k]; sub(&p); }
			if (FEW && (i * 3 + j + es) % 4) continue;
			for (al = 0; al <= rs; al++) { BASE(O_OP2); p.type |= o | (al << 24); p.v1 = pool[i]; p.v2 = pool[j]; mems(&p, al, 1); }
		}
		if (es >= rs || es > 4) continue;
		/* replicate */
		for (i = 0; i < npool; i++) {
			BASE(O_REP); p.v1 = pool[i];
			if (!f) { for (j = 0; j < ngpr; j++) { p.xk = X_R; p.gp = gpr[j]; if (es <= 3 && (es < 3 || IS64)) sub(&p); } for (j = 0; j < (int)(sizeof(imv) / sizeof(sw)); j++) { p.xk = X_I; p.imm = imv[j]; if (es <= 3 && (es < 3 || IS64 || imv[j] == 0 || imv[j] == -1)) sub(&p); } }
			else { p.xk = X_I; p.imm = 0; sub(&p); if (es == 2 || es == 3) for (j = 1; j <= NF; j += j < 3 ? 1 : NF - 3) for (k = 0; k <= (FSEC && es == 2); k++) { p.xk = X_F; p.gp = k ? SLJIT_F64_SECOND(j) : j; p.imm = 0; sub(&p); } }
			/* immediates whose bytes come from a small set: the instruction forms depend on the byte patterns */
			if (!f && es <= 3 && (es < 3 || IS64) && (g_thorough || i == (rs + es) % npool)) {
				static const u8 bs[8] = { 0, 0xff, 0x5a, 0x80, 1, 0x7f, 0xe3, 0x40 }; int n = es == 0 ? 256 : es == 1 ? 128 : es == 2 ? (FEW ? 256 : 1296) : (FEW ? 256 + 81 : 256 + 1296);
				for (j = 0; j < n; j++) {
					u64 v = 0; int q = j;
					if (es == 0) v = (u64)j; else if (es == 1) v = bs[j & 7] | (u64)bs[(j >> 3) & 7] << 8 | (j & 64 ? ~(u64)0xffff : 0);
					else if (es == 2) { int base = FEW ? 4 : 6; for (k = 0; k < 4; k++, q /= base) v |= (u64)bs[q % base] << (8 * k); if (v & 0x80000000u) v |= ~(u64)0xffffffffu; }
					else if (j < 256) { for (k = 0; k < 8; k++) if (j & (1 << k)) v |= (u64)0xff << (8 * k); }
					else { static const u64 hs[6] = { 0, 0xffff, 0x12e5, 0x00ff, 0xff00, 0x8000 }; int base = FEW ? 3 : 6; q = j - 256; for (k = 0; k < 4; k++, q /= base) v |= hs[q % base] << (16 * k); }
					p.xk = X_I; p.imm = (sw)v; sub(&p);
				}
			}
			mems(&p, es, FEW && i > 0);
		}
		/* lanes */
		for (a = 0; a < nl; a++) for (i = 0; i < npool; i++) {
			if (FEW && i >= 2 && (a + i) % 3 && a != nl - 1 && a) continue;
			for (k = 0; k < 8; k++) { /* load, load zero, store, store signed, with and without SLJIT_32 */
				s32 fl = ((k >> 1) == 0 ? 0 : (k >> 1) == 1 ? SLJIT_SIMD_LANE_ZERO : (k >> 1) == 2 ? SLJIT_SIMD_STORE : SLJIT_SIMD_STORE | SLJIT_SIMD_LANE_SIGNED) | (k & 1 ? SLJIT_32 : 0);
				if (f && (fl & (SLJIT_SIMD_LANE_SIGNED | SLJIT_32))) continue; if ((fl & SLJIT_32) && es > 2) continue; if (f && es > 3 && 0) continue; if ((fl & SLJIT_SIMD_LANE_SIGNED) && es > 3) continue;
				BASE(O_LANE); p.type |= fl; p.v1 = pool[i]; p.lane = a;
				if (!f) for (j = 0; j < ngpr; j++) { if (FEW && j > 1 && (a + j + i) % 3) continue; p.xk = X_R; p.gp = gpr[j]; if (es < 3 || (IS64 && es == 3)) sub(&p); }
				else if (es == 2 || es == 3) for (j = 1; j <= NF; j += j < 3 ? 1 : NF - 3) { int u[2], n = units(p.v1, rs, u), same = u[0] == j || (n == 2 && u[1] == j); p.xk = X_F; if (!sepv && same && k == 0) continue; for (b = 0; b <= (FSEC && es == 2); b++) { p.gp = b ? SLJIT_F64_SECOND(j) : j; sub(&p); } }
				if (!f && !(fl & SLJIT_SIMD_STORE)) for (j = 0; j < (int)(sizeof(imv) / sizeof(sw)); j += FEW ? 5 : 1) { p.xk = X_I; p.imm = imv[(j + a) % (int)(sizeof(imv) / sizeof(sw))]; if (es < 3 || (IS64 && es == 3)) sub(&p); }
				p.lane = a; if (FEW && a > 1 && a != nl - 1 && (a + i + k) % 4) { p.xk = X_M; p.form = 0; p.mis = 1 << es; p.vo = 0; p.gp = gpr[i % ngpr]; sub(&p); } else mems(&p, es, FEW || a > 0);
			}
			for (j = 0; j < npool; j++) { if (es > 3 && !g_thorough && 0) continue; BASE(O_LREP); p.v1 = pool[i]; p.v2 = pool[j]; p.lane = a; p.xk = X_V; p.x = p.v2; sub(&p); }
		}
		/* extend */
		for (e2 = es + 1; e2 < rs && e2 <= 4; e2++) for (k = 0; k < 2; k++) { if (f && k) continue; for (i = 0; i < npool; i++) {
			BASE(O_EXT); p.type |= (e2 << 24) | (k ? SLJIT_SIMD_EXTEND_SIGNED : 0); p.v1 = pool[i]; for (j = 0; j < npool; j++) { p.xk = X_V; p.x = pool[j]; sub(&p); } mems(&p, es, FEW && i > 0); } }
		/* sign */
		for (k = 0; k < 2; k++) for (i = 0; i < npool; i++) { BASE(O_SIGN); p.type |= SLJIT_SIMD_STORE | (k ? SLJIT_32 : 0); p.v1 = pool[i]; if (nl > (k ? 32 : WBITS)) continue; for (j = 0; j < ngpr; j++) { p.xk = X_R; p.gp = gpr[j]; sub(&p); } mems(&p, k ? 2 : IS64 ? 3 : 2, FEW && i > 0); }
		(void)t0; (void)b;
	}
	flushp(); }
	vex = 0; eng_done(); return 0;
}
