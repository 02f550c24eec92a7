/* P19: rights of the pages which hold generated code. Every mmap / mprotect / munmap of the library goes through the explorer, which keeps
   the rights of every page. Part 1: every kind of patchable site at every position relative to the page boundaries x sequences of changes;
   part 2: all histories (generate, change, write a read-only buffer, run, free) of two functions up to a depth. After every call the rights
   of all pages are compared with the state of the functions, and the changed code is executed. */
#define _GNU_SOURCE
#include <errno.h>
#include "eng.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
#define DUAL 1
#else
#define DUAL 0
#endif
/* ---------------------------------------------------------------- system */
#define MAXPG 64
typedef struct { u8 *p; uw len; int dead; u8 pr[MAXPG]; } map_t;
static map_t mp[512]; static int nmp; static uw PG; static const char *g_err; static char g_errb[300], g_txt[1200]; static int g_tn;
#define SETERR(...) do { if (!g_err) { snprintf(g_errb, sizeof(g_errb), __VA_ARGS__); g_err = g_errb; } } while (0)
#define STEP(...) do { if (g_tn < 1000) g_tn += snprintf(g_txt + g_tn, sizeof(g_txt) - (size_t)g_tn, __VA_ARGS__); } while (0)
static map_t *find(uw a) { int i; for (i = 0; i < nmp; i++) if (!mp[i].dead && a >= (uw)mp[i].p && a < (uw)mp[i].p + mp[i].len) return mp + i; return NULL; }
static int bad_prot(int prot) { return (prot & (PROT_WRITE | PROT_EXEC)) == (PROT_WRITE | PROT_EXEC); }
static void drop(void *a, void *b)
{
	uw lo = (uw)a & ~(PG - 1), hi = ((uw)b + PG - 1) & ~(PG - 1); if ((uw)a >= (uw)b) return;
	mprotect((void *)lo, hi - lo, PROT_READ); mprotect((void *)lo, hi - lo, PROT_READ | PROT_EXEC);
}
void verif_flush(void *a, void *b) { if ((uw)a < (uw)b) __builtin___clear_cache((char *)a, (char *)b); }
void *verif_malloc(unsigned long size) { return malloc(size); }
void verif_free(void *p) { free(p); }
int verif_printf(const char *fmt, ...) { return (int)strlen(fmt); }
void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off)
{
	u8 *p = mmap(a, len, prot, flags, fd, off); int i, k; uw n = (len + PG - 1) / PG;
	if (p == MAP_FAILED) return p;
	if (bad_prot(prot)) SETERR("a mapping is created writable and executable");
	for (k = 0; k < nmp && !mp[k].dead; k++);
	if (k == nmp && nmp++ >= 500) die("mappings");
	if (n > MAXPG) die("pages");
	mp[k].p = p; mp[k].len = n * PG; mp[k].dead = 0; for (i = 0; i < (int)n; i++) mp[k].pr[i] = (u8)prot;
	n_steps++; return p;
}
int verif_munmap(void *a, unsigned long len)
{
	map_t *m = find((uw)a); if (!m || m->p != a || (len + PG - 1) / PG * PG != m->len) SETERR("munmap of %p+%lu", a, len); else m->dead = 1;
	n_steps++; return munmap(a, len);
}
int verif_mprotect(void *a, unsigned long len, int prot)
{
	uw x; int r; map_t *m;
	if ((uw)a & (PG - 1)) SETERR("mprotect of an unaligned address");
	for (x = (uw)a; x < (uw)a + len; x += PG) { m = find(x); if (!m) { SETERR("mprotect outside of the mappings of the allocator: %+ld", m ? 0L : (long)(x - (uw)a)); return -1; } m->pr[(x - (uw)m->p) / PG] = (u8)prot; }
	if (bad_prot(prot)) SETERR("pages are made writable and executable");
	r = mprotect(a, len, prot); if (r) SETERR("mprotect fails"); n_steps++; return r;
}
int verif_open(const char *p, int f, int m) { return open(p, f, m); }
int verif_mkostemp(char *t, int f) { return mkostemp(t, f); }
int verif_ftruncate(int fd, long l) { return ftruncate(fd, l); }
int verif_close(int fd) { return close(fd); }
int verif_unlink(const char *p) { return unlink(p); }
/* ---------------------------------------------------------------- functions */
enum { C_MOV, C_MOV32, C_S32, C_U8, C_U832, C_MEM, C_MEM32, J_JUMP, J_EQ, J_CMP, J_CALL, B_4, B_64, B_PAGE, B_2PAGE, S_N };
static const char *sname[] = { "const.mov", "const.mov32", "const.s32", "const.u8", "const.u8.32", "const.mov to memory", "const.mov32 to memory", "jump", "conditional jump", "compare jump", "call", "buffer of 4", "buffer of 64", "buffer of a page", "buffer of two pages" };
static const s32 cop[] = { SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8, SLJIT_MOV, SLJIT_MOV32 };
static int isj(int k) { return k >= J_JUMP && k <= J_CALL; }
static int isb(int k) { return k >= B_4; }
#define MAXO 3
typedef struct { int live, k, pad, wr; void *code; uw lo, hi, site, tgt[2], bsz, bx; sw off, cur; u8 *wp; u8 bval[2]; } obj_t;
static obj_t ob[MAXO]; static u64 g_cell[2] __attribute__((aligned(16)));
static sw SLJIT_FUNC ext_a(void) { return 0x111; }
static sw SLJIT_FUNC ext_b(void) { return 0x222; }
static const sw cval[3] = { 0x41, (sw)0x9a5b3c7d8e1f2a64ull, -3 }, cval8[3] = { 0x41, 255, 0x9c };
static sw cset(int k, int i) { return k == C_U8 || k == C_U832 ? cval8[i] : k == C_S32 || k == C_MOV32 || k == C_MEM32 ? (s32)cval[i] : cval[i]; }
static sw cexp(int k, sw v) { return k == C_U8 || k == C_U832 ? (u8)v : k == C_MOV32 || k == C_MEM32 ? (s32)v : v; }
static uw g_near; static int g_base; /* a generated function close to the others, kept until the end */
/* unmodified value of a byte in a buffer: not specified, set by the first write */
static int gen(obj_t *o, int k, int pad)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int i; struct sljit_const *cn = NULL; struct sljit_jump *j = NULL, *ja = NULL; struct sljit_label *l1 = NULL, *l2 = NULL; struct sljit_read_only_buffer rb; sw xo;
	if (!c) die("create"); memset(o, 0, sizeof(*o)); o->k = k; o->pad = pad;
	sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 4, 2, 16);
	if (k == B_4) o->bsz = 4; if (k == B_64) o->bsz = 64; if (k == B_PAGE) o->bsz = PG; if (k == B_2PAGE) o->bsz = 2 * PG - 4;
	for (i = 0; i < pad; i++) sljit_emit_op0(c, SLJIT_NOP);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0);
	if (k <= C_U832) { cn = sljit_emit_const(c, cop[k], SLJIT_R0, 0, cset(k, 0)); o->cur = 0; }
	else if (k <= C_MEM32) {
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R2, 0, SLJIT_IMM, (sw)g_cell); cn = sljit_emit_const(c, cop[k], SLJIT_MEM1(SLJIT_R2), 0, cset(k, 0)); sljit_emit_op1(c, k == C_MEM ? SLJIT_MOV : SLJIT_MOV32, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_R2), 0);
	} else if (k == J_CALL) { j = sljit_emit_call(c, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS0(W)); sljit_set_target(j, (uw)SLJIT_FUNC_ADDR(ext_a)); }
	else if (isj(k)) {
		struct sljit_jump *e1;
		if (k == J_JUMP) j = sljit_emit_jump(c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP);
		else if (k == J_EQ) { sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_IMM, 0); j = sljit_emit_jump(c, SLJIT_EQUAL | SLJIT_REWRITABLE_JUMP); }
		else j = sljit_emit_cmp(c, SLJIT_LESS_EQUAL | SLJIT_REWRITABLE_JUMP, SLJIT_R0, 0, SLJIT_S0, 0);
		l1 = sljit_emit_label(c); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0x111); e1 = sljit_emit_jump(c, SLJIT_JUMP);
		l2 = sljit_emit_label(c); sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0x222); sljit_set_label(j, l1); sljit_set_label(e1, sljit_emit_label(c));
	} else { ja = sljit_emit_op_addr(c, SLJIT_MOV_ABS_ADDR, SLJIT_R1, 0); sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_R0, 0, SLJIT_MEM2(SLJIT_R1, SLJIT_S0), 0); }
	sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	if (isb(k)) { rb.next = NULL; rb.size = o->bsz; rb.u.label = NULL; sljit_emit_aligned_label(c, SLJIT_LABEL_ALIGN_4, &rb); sljit_set_label(ja, rb.u.label); }
	o->code = sljit_generate_code(c, 0, NULL);
	if (!o->code) { SETERR("code generation fails: %d", (int)sljit_get_compiler_error(c)); sljit_free_compiler(c); return 0; }
	xo = o->off = sljit_get_executable_offset(c); o->lo = (uw)o->code & ~(uw)1; o->hi = o->lo + sljit_get_generated_code_size(c);
	if (cn) o->site = sljit_get_const_addr(cn);
	if (j) { o->site = sljit_get_jump_addr(j); if (l1) o->tgt[0] = sljit_get_label_addr(l1), o->tgt[1] = sljit_get_label_addr(l2); else o->tgt[0] = (uw)SLJIT_FUNC_ADDR(ext_a), o->tgt[1] = g_near ? g_near : (uw)SLJIT_FUNC_ADDR(ext_b); }
	if (isb(k)) o->site = sljit_get_label_abs_addr(rb.u.label);
	if (DUAL) drop((void *)o->lo, (void *)o->hi);
	(void)xo; o->live = 1; sljit_free_compiler(c); n_progs++; return 1;
}
static sw expect(obj_t *o) { return isb(o->k) ? o->bval[0] : isj(o->k) ? (o->cur ? 0x222 : 0x111) : cexp(o->k, cset(o->k, (int)o->cur)); }
static sw runo(obj_t *o, sw a) { n_runs++; return ((sw (*)(sw))o->code)(a); }
static void test(obj_t *o)
{
	if (isb(o->k)) { sw i; for (i = 0; i < 2; i++) { sw r, x = i ? (sw)o->bsz - 1 : 0; if (!o->bx) { runo(o, x); continue; } r = runo(o, x); if (r != o->bval[i]) SETERR("byte %ld of the buffer is %#lx, expected %#x", (long)x, (long)r, o->bval[i]); } }
	else { sw r = runo(o, 5), e = expect(o); if (o->k == C_MOV32 || o->k == C_MEM32 || o->k == C_U832) { if ((s32)r != (s32)e) SETERR("returns %#lx, expected %#lx", (long)(s32)r, (long)(s32)e); } else if (r != e) SETERR("returns %#lx, expected %#lx", (long)r, (long)e); }
}
/* rights at rest */
static void rights(void)
{
	int i, q; uw x; map_t *m;
	n_states++;
	for (i = 0; i < nmp; i++) { uw pg; if (mp[i].dead) continue; for (pg = 0; pg < mp[i].len / PG; pg++) if (bad_prot(mp[i].pr[pg])) SETERR("a page is writable and executable"); }
	for (q = 0; q < MAXO; q++) {
		obj_t *o = ob + q; if (!o->live) continue;
		for (x = o->lo & ~(PG - 1); x < o->hi; x += PG) {
			int pr, w = o->wr && x < o->site + o->bsz && x + PG > o->site;
			m = find(x); if (!m) { SETERR("the code is not in a mapping"); return; } pr = m->pr[(x - (uw)m->p) / PG];
			if (!DUAL && w) { if (pr != (PROT_READ | PROT_WRITE)) SETERR("rights of a page are %d while its buffer is written", pr); continue; }
			if (!(pr & PROT_EXEC)) SETERR("page %lu of the code is not executable (rights %d)", (unsigned long)((x - (o->lo & ~(PG - 1))) / PG), pr);
			if (!(pr & PROT_READ)) SETERR("page %lu of the code is not readable (rights %d)", (unsigned long)((x - (o->lo & ~(PG - 1))) / PG), pr);
			if (pr & PROT_WRITE) SETERR("page %lu of the code is writable (rights %d)", (unsigned long)((x - (o->lo & ~(PG - 1))) / PG), pr);
		}
		if (DUAL) { m = find(o->lo - (uw)o->off); if (!m || m == find(o->lo) || m->pr[0] & PROT_EXEC) SETERR("the writable mapping is executable"); }
	}
}
static void change(obj_t *o, int v)
{
	if (isb(o->k)) {
		o->wp = sljit_read_only_buffer_start_writing(o->site, o->bsz, o->off); o->wr = 1; rights(); if (g_err) return;
		o->bval[0] = (u8)(0x30 + 7 * v); o->bval[1] = (u8)(0x91 + 3 * v); o->wp[0] = o->bval[0]; o->wp[o->bsz - 1] = o->bval[1]; o->bx = 1;
		sljit_read_only_buffer_end_writing(o->site, o->bsz, o->off); o->wr = 0;
	} else if (isj(o->k)) { o->cur = v & 1; sljit_set_jump_addr(o->site, o->tgt[v & 1], o->off); }
	else { o->cur = v % 3; sljit_set_const(o->site, cop[o->k], cset(o->k, v % 3), o->off); }
	if (DUAL) drop((void *)o->lo, (void *)o->hi);
}
static int ended(u64 idx)
{
	if (!g_err) return 0;
	violation(idx, "rights", "%s| %s", g_txt, g_err); g_err = NULL; return 1;
}
static void near_func(void)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); sljit_emit_enter(c, 0, SLJIT_ARGS0(W), 1, 0, 0); sljit_emit_return(c, SLJIT_MOV, SLJIT_IMM, 0x222);
	g_near = (uw)sljit_generate_code(c, 0, NULL); if (!g_near) die("near"); if (DUAL) drop((void *)(g_near & ~(uw)1), (void *)(g_near + sljit_get_generated_code_size(c))); sljit_free_compiler(c); if (!DUAL) g_base = nmp;
}
static void freeall(void) { int i; for (i = 0; i < MAXO; i++) if (ob[i].live) { ob[i].live = 0; if (ob[i].code) sljit_free_code(ob[i].code, NULL); } g_err = NULL; if (!DUAL) { for (i = g_base; i < nmp; i++) if (!mp[i].dead) { munmap(mp[i].p, mp[i].len); mp[i].dead = 1; } nmp = g_base; } }
/* ---------------------------------------------------------------- part 1 */
static void part1(void)
{
	int k, pad, full, seq; static const int sq[6][3] = { { 1, -1, -1 }, { 2, 1, -1 }, { 1, 0, 2 }, { 1, 1, 0 }, { 0, 1, 1 }, { 2, 2, 1 } };
	for (k = 0; k < S_N; k++) {
		obj_t o; int n, step, m, w; uw o0, o1, s0;
		g_crash_txt = sname[k]; g_phase = "layout"; gen(&o, k, 0); if (g_err) { violation(g_idx, "layout", "%s", g_err); g_err = NULL; continue; } s0 = o.site & (PG - 1); o0 = o.hi - o.lo; sljit_free_code(o.code, NULL);
		gen(&o, k, 16); o1 = o.hi - o.lo; sljit_free_code(o.code, NULL); step = (int)((o1 - o0) / 16); if (step < 1) step = 1; n = (int)PG / step + 2;
#if defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6
		full = 1;
#else
		full = g_thorough;
#endif
		(void)w;
		for (pad = 0; pad < n; pad++) for (seq = 0; seq < (full && !g_thorough ? 2 : 6); seq++) {
			uw at = (s0 + (uw)pad * (uw)step) & (PG - 1), end = (s0 - (o.site & 0) + o0 + (uw)pad * (uw)step) & (PG - 1);
			if (!full && at > 64 && at < PG - 96 && end > 64 && end < PG - 64) continue;
			if (!mine()) continue;
			g_cur = g_idx - 1; g_tn = 0; g_crash_txt = g_txt; g_phase = "patch"; TICK();
			STEP("%s after %d nops: ", sname[k], pad); if (!DUAL) nmp = g_base;
			gen(ob, k, pad); rights(); if (!g_err) test(ob);
			for (m = 0; m < 3 && sq[seq][m] >= 0 && !g_err; m++) { STEP("set %d, ", sq[seq][m]); change(ob, sq[seq][m]); if (!g_err) rights(); if (!g_err) test(ob); }
			if (!g_err) { STEP("free "); ob[0].live = 0; sljit_free_code(ob[0].code, NULL); if (!DUAL) { int i; for (i = g_base; i < nmp; i++) if (!mp[i].dead) SETERR("a mapping is not released"); } }
			if (g_nsamples < 3 && g_idx % 333 == 7) snprintf(g_samples[g_nsamples++], 600, "%s", g_txt);
			ended(g_idx - 1); freeall();
		}
	}
}
/* ---------------------------------------------------------------- part 2: histories */
enum { H_GEN0, H_GEN1, H_GEN2, H_SET0, H_SET1, H_BUFS, H_BUFE, H_RUN, H_FREE0, H_FREE1, H_FREE2, H_N };
static const char *hname[] = { "generate a", "generate b", "generate c", "set a", "set b", "start writing c", "end writing c", "run all", "free a", "free b", "free c" };
static int hseq[10];
static int legal(const int *s, int n)
{
	int live[3] = { 0, 0, 0 }, w = 0, i, c = 0;
	for (i = 0; i < n; i++) {
		int h = s[i];
		if (h <= H_GEN2) { if (live[h]) return 0; live[h] = 1; }
		else if (h <= H_SET1) { if (!live[h - H_SET0]) return 0; }
		else if (h == H_BUFS) { if (!live[2] || w) return 0; w = 1; }
		else if (h == H_BUFE) { if (!w) return 0; w = 0; }
		else if (h == H_RUN) { if (!(live[0] || live[1] || (live[2] && !w)) || (i && s[i - 1] == H_RUN)) return 0; }
		else { if (!live[h - H_FREE0] || (h == H_FREE2 && w)) return 0; live[h - H_FREE0] = 0; }
		(void)c;
	}
	return 1;
}
static void play(int n, const int *kd, int pad)
{
	int i, q, v = 0;
	g_tn = 0; g_crash_txt = g_txt; g_phase = "history"; STEP("%s, %s, %s, %d nops: ", sname[kd[0]], sname[kd[1]], sname[kd[2]], pad); if (!DUAL) nmp = g_base;
	for (i = 0; i < n && !g_err; i++) {
		int h = hseq[i]; STEP("%s; ", hname[h]); v++;
		if (h <= H_GEN2) gen(ob + h, kd[h], pad);
		else if (h <= H_SET1) change(ob + (h - H_SET0), v);
		else if (h == H_BUFS) { obj_t *o = ob + 2; o->wp = sljit_read_only_buffer_start_writing(o->site, o->bsz, o->off); o->wr = 1; o->wp[0] = o->bval[0] = (u8)(v * 9); o->wp[o->bsz - 1] = o->bval[1] = (u8)(v * 5 + 1); o->bx = 1; }
		else if (h == H_BUFE) { obj_t *o = ob + 2; o->wp[0] = o->bval[0] = (u8)(v * 11); sljit_read_only_buffer_end_writing(o->site, o->bsz, o->off); o->wr = 0; if (DUAL) drop((void *)o->lo, (void *)o->hi); }
		else if (h == H_RUN) { for (q = 0; q < 3 && !g_err; q++) if (ob[q].live && !ob[q].wr) test(ob + q); }
		else { obj_t *o = ob + (h - H_FREE0); uw lo = o->lo; o->live = 0; sljit_free_code(o->code, NULL); if (!DUAL && find(lo)) SETERR("the mapping of a freed function remains"); }
		if (!g_err) rights();
	}
	for (q = 0; q < 3 && !g_err; q++) if (ob[q].live && !ob[q].wr) test(ob + q);
	ended(g_idx - 1); freeall();
}
static void rec(int d, int max, const int *kd, int pad)
{
	int h;
	if (d == max) { if (!mine()) return; g_cur = g_idx - 1; TICK(); play(d, kd, pad); return; }
	for (h = 0; h < H_N; h++) { hseq[d] = h; if (legal(hseq, d + 1)) rec(d + 1, max, kd, pad); }
}
int main(int argc, char **argv)
{
	static const int kds[][3] = { { C_MOV, J_JUMP, B_64 }, { J_CALL, C_MEM32, B_PAGE } }; int i;
	parse_args(argc, argv); PG = (uw)sysconf(_SC_PAGESIZE); install_signals(); g_suite = DUAL ? "wxprot" : "wx";
	near_func(); part1();
	for (i = 0; i < 2; i++) rec(0, g_thorough ? 7 : 5, kds[i], i ? 0 : 3);
	finish(n_viol != 0);
}
