/* P15: every atomic load / store pair x operation x mode x register assignment, with another agent changing the memory at every instruction
   boundary between the start of the load and the use of the result (a trapping instruction is planted at the boundary, the handler acts as
   the other agent, restores the instruction and continues). Every execution is checked against the allowed outcomes. */
#define _GNU_SOURCE
#include "eng.h"
#include "common.h"
#include <ucontext.h>
#define TMPR SLJIT_TMP_DEST_REG
/* ------------------------------------------------ traps */
#if defined __x86_64__ || defined __i386__
#define X86 1
#else
#define X86 0
#endif
static uw t_pc; static u8 t_save[4]; static int t_armed, t_hits; static uw bnd[400]; static int nbnd; static uw t_lo, t_hi; static int t_collect;
static u8 *i_addr; static int i_len; static u8 i_val[16];
#ifdef __thumb__
#define TBIT 1
#else
#define TBIT 0
#endif
static int traplen(void)
{
#if defined __x86_64__ || defined __i386__ || defined __riscv || defined __thumb__ || defined __s390x__
	return 2;
#else
	return 4;
#endif
}
static void plant(uw pc)
{
	static const u8 t[4] =
#if defined __x86_64__ || defined __i386__
		{ 0x0f, 0x0b };
#elif defined __thumb__
		{ 0x00, 0xde };
#elif defined __arm__
		{ 0xf0, 0x00, 0xf0, 0xe7 };
#elif defined __mips__
		{ 0x34, 0x00, 0x00, 0x00 };
#elif defined __loongarch__
		{ 0xff, 0xff, 0xff, 0xff };
#else
		{ 0, 0, 0, 0 };
#endif
	memcpy(t_save, (void *)pc, (size_t)traplen()); memcpy((void *)pc, t, (size_t)traplen()); __builtin___clear_cache((char *)pc, (char *)pc + 8); t_pc = pc; t_armed = 1;
}
static void on_trap(int sig, siginfo_t *si, void *ucv)
{
	ucontext_t *uc = ucv; (void)uc;
	if (t_armed) {
#if defined __s390x__
		uc->uc_mcontext.psw.addr = t_pc;
#endif
		memcpy((void *)t_pc, t_save, (size_t)traplen()); __builtin___clear_cache((char *)t_pc, (char *)t_pc + 8); t_armed = 0; t_hits++;
		memcpy(i_addr, i_val, (size_t)i_len);
#if X86
		if (t_collect) { bnd[nbnd++] = t_pc; uc->uc_mcontext.gregs[REG_EFL] |= 0x100; }
#endif
		return;
	}
#if X86
	if (t_collect && sig == SIGTRAP) {
		uw pc = (uw)uc->uc_mcontext.gregs[
#ifdef __x86_64__
			REG_RIP];
#else
			REG_EIP];
#endif
		if (pc >= t_lo && pc < t_hi && nbnd < 390) bnd[nbnd++] = pc; else uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return;
	}
#endif
	on_sig(sig);
}
static int ilen(uw pc)
{
#if defined __riscv
	return (*(u8 *)pc & 3) == 3 ? 4 : 2;
#elif defined __thumb__
	return (*(u16 *)pc >> 11) >= 0x1d ? 4 : 2;
#elif defined __s390x__
	return *(u8 *)pc < 0x40 ? 2 : *(u8 *)pc < 0xc0 ? 4 : 6;
#else
	return 4;
#endif
}
/* ------------------------------------------------ programs */
typedef struct { s32 op, mode; int d, m, s, m2, t, mid, flag, noload, off; struct sljit_label *a, *c; uw pa, pc; } prg;
static prg pb[MAXB]; static u64 pidx[MAXB]; static int npb;
static const char *const opn_[] = { "mov", "mov_u8", "mov_s8", "mov_u16", "mov_s16", "mov_u32", "mov_s32", "mov32", "mov_p" };
static int width(s32 op) { switch (op) { case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: return 2; case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: return 4; default: return WB; } }
static char *rn2(char *o, int r) { if (r == TMPR) sprintf(o, "tmp"); else rname(o, r, 0); return o; }
static void ptxt(prg *p, char *o)
{
	char a[5][16]; sprintf(o, "%s%s%s: %s%s [%s] -> store [%s]+%d src %s temp %s%s", opn_[p->op - SLJIT_MOV], p->mode == SLJIT_ATOMIC_USE_CAS ? " (cas)" : p->mode ? " (ls)" : "", p->noload ? " no load" : "", p->noload ? "" : "load ", p->noload ? "" : rn2(a[0], p->d), p->noload ? "" : rn2(a[1], p->m), rn2(a[2], p->m2), p->off, rn2(a[3], p->s), rn2(a[4], p->t), p->flag ? "" : " (flag not used)");
	if (p->mid) sprintf(o + strlen(o), " middle %d", p->mid);
}
#define EMI(x) do { s32 e_ = (x); if (e_) return e_; } while (0)
static s32 emitp(struct sljit_compiler *c, prg *p)
{
	s32 f = p->mode;
	p->a = sljit_emit_label(c);
	if (!p->noload) EMI(sljit_emit_atomic_load(c, p->op | f, p->d, p->m));
	if (p->d != p->t && !p->noload && p->s != p->t) EMI(sljit_emit_op1(c, SLJIT_MOV, p->t, 0, p->d, 0));
	if (p->mid == 1) EMI(sljit_emit_op2(c, SLJIT_ADD, p->s, 0, p->s, 0, SLJIT_IMM, IS64 ? (sw)0x1234567890abcdefll : 0x12345678));
	if (p->mid == 2) EMI(sljit_emit_op2(c, SLJIT_SUB, p->s, 0, p->d, 0, SLJIT_IMM, 0x5b));
	EMI(sljit_emit_atomic_store(c, p->op | f | (p->flag ? SLJIT_SET_ATOMIC_STORED : 0), p->s, p->m2, p->t));
	if (p->flag == 1) EMI(sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_MEM1(ST), O_CAP(0), SLJIT_ATOMIC_STORED));
	if (p->flag == 2) { struct sljit_jump *j; EMI(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(ST), O_CAP(0), SLJIT_IMM, 0)); j = sljit_emit_jump(c, SLJIT_ATOMIC_NOT_STORED); if (!j) return -1; EMI(sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(ST), O_CAP(0), SLJIT_IMM, 1)); sljit_set_label(j, sljit_emit_label(c)); }
	p->c = sljit_emit_label(c);
	EMI(sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(ST), (sw)offsetof(st_t, ret)));
	return 0;
}
#define OFF 64
static uw zx(uw v, int w) { return w >= WB ? v : v & (((uw)1 << (w * 8)) - 1); }
static uw ldv(s32 op, uw v) { int w = width(op); v = zx(v, w); if (op == SLJIT_MOV_S8) v = (uw)(sw)(s8)v; if (op == SLJIT_MOV_S16) v = (uw)(sw)(s16)v; if (op == SLJIT_MOV_S32) v = (uw)(sw)(s32)v; return v; }
static uw getm(u8 *p, int w) { uw v = 0; if (w == 1) return *p; if (w == 2) { u16 x; memcpy(&x, p, 2); return x; } if (w == 4) { u32 x; memcpy(&x, p, 4); return x; } memcpy(&v, p, (size_t)w); return v; }
static void putm(u8 *p, int w, uw v) { u8 a = (u8)v; u16 b = (u16)v; u32 c = (u32)v; if (w == 1) *p = a; else if (w == 2) memcpy(p, &b, 2); else if (w == 4) memcpy(p, &c, 4); else memcpy(p, &v, (size_t)w); }
static const uw oldv[] = { (uw)0x8091a2b3c4d5e6f7ull, 0, (uw)0x7fffffffffffffffull, (uw)-1 };
/* one run: boundary k (-1: none), kind of interference, old value; returns 0 and a message when the outcome is not allowed */
static int run(prg *p, int k, int kind, int ov, char *msg)
{
	static st_t e; st_t *s = g_st; void *ret = s->ret; sw lb = s->lbase; int w = width(p->op), i, F, hit, dead; u8 *loc = s->mem + OFF + p->off, *nb; uw M0, X, N, fin, L, src; int isx = 0, srcok = 1; uw delta = 0;
	memcpy(s, &g_tmpl, sizeof(st_t)); s->ret = ret; s->lbase = lb; s->body = (void *)(p->pa | TBIT);
	M0 = zx(oldv[ov] ^ (ov == 0 ? (uw)p->off * 0x0101 : 0), w); putm(loc, w, M0);
	if (p->m2 == ST) { loc = (u8 *)&s->reg[0] + p->off; putm(loc, w, M0); }
	src = p->s == ST ? (uw)s : (uw)s->reg[p->s < 32 ? p->s : 0];
	if (p->m != ST) s->reg[p->m] = (sw)(uw)loc; if (p->m2 != ST) s->reg[p->m2] = (sw)(uw)loc;
	if (p->noload) s->reg[p->t] = (sw)ldv(p->op, M0);
	if (p->s == p->m && !p->mid && p->d != p->s) src = (uw)loc; if (p->s == p->m2 && p->d != p->s) src = (uw)loc;
	memcpy(&e, s, sizeof(e));
	t_hits = 0; t_collect = 0; nb = loc;
	/* the values of the other agent */
	X = kind == 0 ? zx(~M0 ^ 0x35, w) : kind == 1 ? M0 ^ ((uw)1 << (w * 8 - 1)) : kind == 2 ? M0 ^ 1 : M0;
	if (kind == 3) { nb = (u8 *)((uw)loc ^ (uw)w); i_len = w > 4 ? 1 : w; i_val[0] = 0x99; i_val[1] = 0x9a; i_val[2] = 0x9b; i_val[3] = 0x9c; } else { u8 b[8]; putm(b, w, X); memcpy(i_val, b, (size_t)w); i_len = w; }
	i_addr = nb;
	if (k >= 0) plant(bnd[k]);
	g_phase = "run"; call_wrap(s); n_runs++;
	hit = t_hits; if (t_armed) { memcpy((void *)t_pc, t_save, (size_t)traplen()); __builtin___clear_cache((char *)t_pc, (char *)t_pc + 8); t_armed = 0; }
	fin = getm(loc, w); F = p->flag ? (int)s->cap[0] : -1;
	if (p->flag && s->cap[0] != 0 && s->cap[0] != 1) { sprintf(msg, "the result is %ld", (long)s->cap[0]); return 0; }
	/* what was loaded: the agent acts before the load only at a boundary up to its instruction; both are allowed for the load itself, so the register tells */
	L = M0; isx = 0;
	if (p->mid == 2) { srcok = 0; delta = (uw)-0x5b; } else if (p->d == p->s && !p->noload) { srcok = 0; delta = p->mid == 1 ? (IS64 ? (uw)0x1234567890abcdefll : 0x12345678) : 0; }
	if (!p->noload && p->d != TMPR && p->d != p->t && p->d != p->s && p->d != p->m2) { uw v = zx((uw)s->reg[p->d], w), full = (uw)s->reg[p->d]; if (v != M0 && !(hit && kind < 3 && v == X)) { sprintf(msg, "the loaded value is %#lx, the memory was %#lx", (unsigned long)full, (unsigned long)M0); return 0; } if (v != M0) isx = 1; L = v; if (p->op != SLJIT_MOV32 && full != ldv(p->op, v)) { sprintf(msg, "the loaded value is not extended: %#lx", (unsigned long)full); return 0; } }
	else if (F == 1 && p->t != TMPR && p->mode != SLJIT_ATOMIC_USE_LS && p->t != p->m2) { uw v = zx((uw)s->reg[p->t], w); if (v != M0 && !(hit && kind < 3 && v == X)) { sprintf(msg, "temp holds %#lx after the store, the memory was %#lx", (unsigned long)s->reg[p->t], (unsigned long)M0); return 0; } if (v != M0) isx = 1; L = v; }
	else isx = -1; /* not known */
	if (p->mid == 1) src += IS64 ? (uw)0x1234567890abcdefll : 0x12345678;
	if (!srcok && isx >= 0) { src = L + delta; srcok = 1; }
	N = zx(src, w);
	if (!srcok) { /* the new value depends on the loaded one */
		uw n0 = zx(M0 + delta, w), n1 = zx(X + delta, w);
		N = isx == 1 || (isx < 0 && hit && kind < 3 && fin == n1 && n1 != X) ? n1 : n0;
	}
	dead = 0; (void)dead;
	if (!hit || kind == 3) {
		/* no change of the location itself */
		int ok1 = F != 0 && fin == N, ok0 = F != 1 && fin == M0 && (hit || F == 0);
		if (!hit && k < 0 && F == 0) { sprintf(msg, "the store fails although nothing else changes the memory (memory %#lx -> %#lx, new value %#lx)", (unsigned long)M0, (unsigned long)fin, (unsigned long)N); return 0; }
		if (!hit && !ok1) { sprintf(msg, "memory %#lx -> %#lx, new value %#lx, result %d", (unsigned long)M0, (unsigned long)fin, (unsigned long)N, F); return 0; }
		if (!ok1 && !ok0) { sprintf(msg, "neighbour changed at boundary %d: memory %#lx -> %#lx, new value %#lx, result %d", k, (unsigned long)M0, (unsigned long)fin, (unsigned long)N, F); return 0; }
	} else {
		/* allowed: the agent acts first and the pair succeeds on its value (final N, loaded X); the pair succeeds and the agent acts last (final X);
		   the pair fails and the value of the agent remains */
		int ok = 0;
		if (fin == X && F != 1) ok = 1;
		if (fin == X && F != 0 && isx != 1) ok = 1;
		if (fin == X && F != 0 && N == X) ok = 1;
		if (fin == N && F != 0 && !p->noload && isx == 1) ok = 1;
		if (fin == N && F != 0 && !p->noload && isx < 0 && k <= 1) ok = 1; /* not observable: only before the load instruction */
		if (!ok) { sprintf(msg, "another agent writes %#lx over %#lx at boundary %d (loaded %s): final %#lx, new value %#lx, result %d", (unsigned long)X, (unsigned long)M0, k, isx == 1 ? "its value" : isx ? "?" : "the old value", (unsigned long)fin, (unsigned long)N, F); return 0; }
	}
	/* everything else */
	for (i = 1; i <= NR_SCR; i++) {
		uw x = (uw)e.reg[i];
		if (i == ST) continue;
		if (i == p->t && p->t != p->m2) { if (p->noload && F == 1 && (uw)s->reg[i] != x) { sprintf(msg, "temp changes from %#lx to %#lx", (unsigned long)x, (unsigned long)s->reg[i]); return 0; } continue; }
		if (i == p->d && !p->noload) continue;
		if (i == p->s && p->mid) { continue; }
		if ((uw)s->reg[i] != x) { char t[16]; sprintf(msg, "boundary %d: register %s is %#lx, expected %#lx", k, rn2(t, i), (unsigned long)s->reg[i], (unsigned long)x); return 0; }
	}
	putm((u8 *)&e + (loc - (u8 *)s), w, fin); if (hit && kind == 3) memcpy((u8 *)&e + (nb - (u8 *)s), i_val, (size_t)i_len);
	memcpy(e.reg + 1, s->reg + 1, sizeof(sw) * 31); memcpy(e.freg, s->freg, 0); e.cap[0] = s->cap[0]; e.ret = s->ret; e.lbase = s->lbase;
	if (p->m2 == ST) e.reg[0] = e.reg[0];
	if (memcmp(&e, s, offsetof(st_t, freg)) || memcmp(e.freg + 1, s->freg + 1, sizeof(u64) * (size_t)NF) || memcmp(e.loc, s->loc, sizeof(e.loc)) || memcmp(e.guard0, s->guard0, sizeof(st_t) - offsetof(st_t, guard0))) { u8 *q = (u8 *)&e, *r = (u8 *)s; for (i = 0; i < (int)sizeof(st_t) && q[i] == r[i]; i++); sprintf(msg, "other memory changes, state byte %d (location at %ld)", i, (long)(loc - (u8 *)s)); return 0; }
	s->reg[ST] = g_tmpl.reg[ST];
	return 1;
}
static void runp(prg *p, u64 idx)
{
	char msg[400], t[400]; int k, kind, ov, nov = g_thorough ? 4 : X86 ? 2 : 1; uw a; 
	g_cur = idx; ptxt(p, t); g_crash_txt = t; n_progs++;
	for (ov = 0; ov < 4; ov++) if (!run(p, -1, 0, ov, msg)) { violation(idx, "alone", "%s | %s", t, msg); return; }
	/* the boundaries */
	nbnd = 0; t_lo = p->pa; t_hi = p->pc;
#if X86
	{ void *ret = g_st->ret; sw lb = g_st->lbase; memcpy(g_st, &g_tmpl, sizeof(st_t)); g_st->ret = ret; g_st->lbase = lb; g_st->body = (void *)(p->pa | TBIT); { u8 *l = p->m2 == ST ? (u8 *)&g_st->reg[0] + p->off : g_st->mem + OFF + p->off; if (p->m != ST) g_st->reg[p->m] = (sw)(uw)l; if (p->m2 != ST) g_st->reg[p->m2] = (sw)(uw)l; i_addr = l; i_len = 0; } plant(p->pa); t_collect = 1; call_wrap(g_st); t_collect = 0; if (g_st->ret != ret) g_st->ret = ret; }
	if (nbnd < 1) { violation(idx, "boundaries", "%s | %d instruction boundaries", t, nbnd); return; }
#else
#if defined __thumb__
	/* an instruction inside an IT block is conditional, so is a trap planted there */
	{ int it = 0; for (a = p->pa; a < p->pc; a += (uw)ilen(a)) { u16 h = *(u16 *)a; if (it > 0) { it--; continue; } bnd[nbnd++] = a; if ((h & 0xff00) == 0xbf00 && (h & 15)) it = 4 - __builtin_ctz(h & 15); } }
#else
	for (a = p->pa; a < p->pc; a += (uw)ilen(a)) bnd[nbnd++] = a;
#endif
#endif
	(void)a;
	for (k = 0; k < nbnd; k++) for (kind = 0; kind < 4; kind++) for (ov = 0; ov < nov; ov++) {
		if (ov && kind == 3) continue;
		n_steps++; if (!run(p, k, kind, ov, msg)) { violation(idx, "interference", "%s | %s", t, msg); return; }
	}
	n_states += (u64)nbnd;
	if (g_nsamples < 3 && n_progs % 777 == 1) snprintf(g_samples[g_nsamples++], 600, "%s: %d boundaries", t, nbnd);
}
static void flushp(void)
{
	int i; s32 e = 0; struct sljit_compiler *c; char t[400];
	if (!npb) return; TICK(); g_apos = g_wrapend; c = sljit_create_compiler(NULL);
	for (i = 0; i < npb && !e; i++) { g_cur = pidx[i]; g_phase = "compile"; ptxt(&pb[i], t); g_crash_txt = t; set_ctx(c); e = emitp(c, &pb[i]); if (e) { violation(pidx[i], "compile", "%s | error %d", t, (int)e); npb = 0; sljit_free_compiler(c); return; } }
	g_phase = "generate"; if (!arena_gen(c)) { violation(g_cur, "generate", "error %d", (int)sljit_get_compiler_error(c)); npb = 0; sljit_free_compiler(c); return; }
	for (i = 0; i < npb; i++) {
		pb[i].pa = (uw)sljit_get_label_addr(pb[i].a); pb[i].pc = (uw)sljit_get_label_addr(pb[i].c);
	}
	sljit_free_compiler(c);
	for (i = 0; i < npb; i++) {
#if defined __thumb__
		uw full = pb[i].pa; pb[i].pa &= ~(uw)1; pb[i].pc &= ~(uw)1; (void)full;
#endif
		runp(&pb[i], pidx[i]);
	}
	npb = 0;
	if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); }
}
static void sub(prg *p) { pidx[npb] = g_idx - 1; pb[npb++] = *p; if (npb == MAXB) flushp(); }
/* test requests: emit nothing, agree with the real request and with each other */
static void tests(s32 op, s32 mode, int *sup)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); s32 a, b, ra, rb; uw z0, z1; void *code;
	set_ctx(c); sljit_emit_op0(c, SLJIT_NOP); a = sljit_emit_atomic_load(c, op | mode | SLJIT_ATOMIC_TEST, SLJIT_R1, SLJIT_R0); b = sljit_emit_atomic_store(c, op | mode | SLJIT_ATOMIC_TEST, SLJIT_R2, SLJIT_R0, SLJIT_R1);
	g_apos = g_wrapend; code = arena_gen(c); z0 = sljit_get_generated_code_size(c); sljit_free_compiler(c);
	c = sljit_create_compiler(NULL); set_ctx(c); sljit_emit_op0(c, SLJIT_NOP); g_apos = g_wrapend; code = arena_gen(c); z1 = sljit_get_generated_code_size(c); sljit_free_compiler(c); (void)code;
	c = sljit_create_compiler(NULL); set_ctx(c); ra = sljit_emit_atomic_load(c, op | mode, SLJIT_R1, SLJIT_R0); rb = sljit_emit_atomic_store(c, op | mode | SLJIT_SET_ATOMIC_STORED, SLJIT_R2, SLJIT_R0, SLJIT_R1); sljit_free_compiler(c);
	*sup = ra == 0 && rb == 0;
	if (a != b || a != ra || b != rb || z0 != z1 || (a && a != SLJIT_ERR_UNSUPPORTED)) violation(g_cur, "test", "%s mode %#x: test requests return %d and %d, the requests %d and %d, code size %ld", opn_[op - SLJIT_MOV], (int)mode, (int)a, (int)b, (int)ra, (int)rb, (long)z0 - (long)z1);
	n_progs++;
}
/* qemu 8.2 records a wrong address for a load-linked instruction that overwrites its base register */
#ifdef __loongarch__
#define NO_V5 1
#else
#define NO_V5 0
#endif
static int ra_[8], nra;
static int nouse(int *v, int n) { int i, j; for (i = 0; i < nra; i++) { for (j = 0; j < n; j++) if (v[j] == ra_[i]) break; if (j == n && !IS_VIRT(ra_[i])) return ra_[i]; } return -1; }
int main(int argc, char **argv)
{
	static const s32 modes[] = { 0, SLJIT_ATOMIC_USE_CAS, SLJIT_ATOMIC_USE_LS }; int op, mo, sup, t, m, s, v, fl; struct sigaction sa; prg p;
	parse_args(argc, argv); eng_init("atomic", 0, 1); common_init();
	memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGILL, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
	ra_[nra++] = R(0); ra_[nra++] = R(1); ra_[nra++] = R(2); ra_[nra++] = R(3); ra_[nra++] = SLJIT_S(1); if (NR >= 10) ra_[nra++] = R(5); else ra_[nra++] = SLJIT_S(2);
#if !X86
	if (!g_thorough) nra = 4; else nra = 5;
#endif
	if (!sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)) { n_unsup++; eng_done(); }
	for (op = SLJIT_MOV; op <= SLJIT_MOV_P; op++) for (mo = 0; mo < 3; mo++) {
		if (!IS64 && op == SLJIT_MOV_P) { }
		tests(op, modes[mo], &sup); if (!sup) { n_unsup++; continue; }
		for (t = -1; t < nra; t++) for (m = -1; m < nra; m++) for (s = -1; s < nra; s++) for (v = 0; v < 8; v++) for (fl = 0; fl < 3; fl++) {
			int used[5], ls = modes[mo] == SLJIT_ATOMIC_USE_LS;
			memset(&p, 0, sizeof(p)); p.op = op; p.mode = modes[mo]; p.t = t < 0 ? TMPR : ra_[t]; p.m = m < 0 ? ST : ra_[m]; p.s = s < 0 ? ST : ra_[s]; p.flag = fl; p.m2 = p.m; p.d = p.t;
			if (IS_VIRT(p.m)) continue;
			if (p.s == p.t && !ls) continue;
			used[0] = p.t; used[1] = p.m; used[2] = p.s; used[3] = ST;
			switch (v) {
			case 0: break;                                                                       /* load t; store s, temp t */
			case 1: if (p.s == ST || p.t == TMPR) continue; if (p.s == p.m) continue; p.mid = 1; break;         /* s is computed between */
			case 2: if (p.s == ST || p.t == TMPR || p.s == p.m) continue; p.mid = 2; break;                     /* s is computed from the loaded value */
			case 3: if (p.t == TMPR) continue; p.d = nouse(used, 4); if (p.d < 0) continue; break;               /* loaded into another register */
			case 4: if (p.t == TMPR) continue; p.m2 = nouse(used, 4); if (p.m2 < 0 || p.m == ST) continue; break; /* another base register with the same address */
			case 5: if (p.t == TMPR || p.m == ST) continue; p.d = p.m; p.m2 = nouse(used, 4); if (p.m2 < 0 || p.s == p.m) continue; break; /* the load destroys its base */
			case 6: if (p.mode != SLJIT_ATOMIC_USE_CAS || p.t == TMPR) continue; p.noload = 1; break;
			default: if (p.t == TMPR || p.s == p.m || p.s == ST) continue; p.d = p.s; p.mid = 1; break;          /* the loaded register is updated: temp keeps the old value */
			}
			if (p.t == p.m2) continue; if (p.d == p.m2) continue; if (NO_V5 && !p.noload && p.d == p.m) continue;
			if (p.mid && p.s == p.m2) continue;
			if (v == 4 && fl == 2) continue; if (fl == 2 && v > 2) continue;
			{ int w = width(op); p.off = w == WB ? 0 : (int)((unsigned)(t + m * 3 + s * 5 + v + 64) % (8u / (unsigned)w)) * w; if (p.m == ST) p.off = 0; }
			if (mine()) { g_cur = g_idx - 1; sub(&p); }
		}
	}
	flushp(); eng_done(); return 0;
}
