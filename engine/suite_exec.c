/* P12: every history of executable allocations, frees and trims up to a depth, on the real allocator. The system mappings come
   from the explorer: a pool with a chosen placement (and aliases for the dual mapping allocator), or real mappings. */
#include <errno.h>
#include "eng.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include "sljitLir.h"
#define CHUNK 65536ul
#define NSL 64
enum { POSIX, PROT, WX };
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
static const int g_kind = PROT;
#elif (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
static const int g_kind = WX;
#else
static const int g_kind = POSIX;
#endif
static const char *g_err; static char g_errb[200];
static char g_txt[900]; static int g_tn;
#define SETERR(...) do { if (!g_err) { snprintf(g_errb, sizeof(g_errb), __VA_ARGS__); g_err = g_errb; } } while (0)
/* ------------------------------------------------ system */
static u8 *g_pool, *g_al[2]; static u8 g_used[NSL]; static int g_policy, g_real, g_deny, g_nmap, g_mapreq, g_fd = -1, g_pendslot = -1, g_pendn, g_flip, g_rot;
typedef struct { u8 *w, *x; unsigned long size; int prot, slot; } map_t;
static map_t mp[32]; static int nmp;
/* the emulator does not see writes through another mapping: changing the rights drops its translations */
void verif_flush(void *a, void *b)
{
	uw lo = (uw)a & ~(uw)4095, hi = ((uw)b + 4095) & ~(uw)4095; if (a >= b) return; __builtin___clear_cache((char *)a, (char *)b);
	if (g_kind == PROT) { mprotect((void *)lo, hi - lo, PROT_READ); mprotect((void *)lo, hi - lo, PROT_READ | PROT_EXEC); }
}
void *verif_malloc(unsigned long size) { return malloc(size); }
void verif_free(void *p) { free(p); }
int verif_printf(const char *fmt, ...) { return (int)strlen(fmt); }
static int takeslot(int n)
{
	int i, j, k;
	for (i = 0; i <= NSL - n; i++) {
		k = g_policy == 0 ? i : g_policy == 1 ? NSL - n - i : (i + g_rot) % (NSL - n + 1);
		for (j = 0; j < n && !g_used[k + j]; j++);
		if (j == n) { memset(g_used + k, 1, (size_t)n); g_rot = k + n + 1; return k; }
	}
	die("pool is full"); return 0;
}
void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off)
{
	u8 *p; int s, n = (int)((len + CHUNK - 1) / CHUNK);
	g_mapreq++;
	if (!len) { errno = EINVAL; return MAP_FAILED; }
	if (g_deny || len > (1ul << 30)) { errno = ENOMEM; return MAP_FAILED; }
	if (nmp >= 31) die("mappings");
	if (g_kind == PROT) {
		if ((prot & (PROT_WRITE | PROT_EXEC)) == (PROT_WRITE | PROT_EXEC)) SETERR("a mapping is writable and executable");
		if (prot & PROT_WRITE) { s = takeslot(n); p = g_pool + (unsigned long)s * CHUNK; mp[nmp].w = p; mp[nmp].x = NULL; mp[nmp].size = len; mp[nmp].slot = s; nmp++; return p; }
		if (!nmp || mp[nmp - 1].x || mp[nmp - 1].size != len) { SETERR("unexpected executable mapping"); return MAP_FAILED; }
		g_flip ^= 1; mp[nmp - 1].x = g_al[g_flip] + (unsigned long)mp[nmp - 1].slot * CHUNK; return mp[nmp - 1].x;
	}
	if (g_kind == POSIX && (prot & 7) != (PROT_READ | PROT_WRITE | PROT_EXEC)) SETERR("rights of a mapping are %d", prot);
	if (g_real) { p = mmap(NULL, len, prot, flags, fd, off); if (p == MAP_FAILED) die("mmap"); s = -1; }
	else { s = takeslot(n); p = g_pool + (unsigned long)s * CHUNK; memset(p, 0, 64); }
	mp[nmp].w = mp[nmp].x = p; mp[nmp].size = len; mp[nmp].slot = s; mp[nmp].prot = prot; nmp++; return p;
}
int verif_munmap(void *a, unsigned long len)
{
	int i; u8 *p = a;
	for (i = 0; i < nmp; i++) if (mp[i].w == p || mp[i].x == p) break;
	if (i == nmp) { SETERR("munmap of something else"); return -1; }
	if (mp[i].size != len) { SETERR("munmap of %lu bytes, %lu are mapped", len, mp[i].size); return -1; }
	if (g_real) { if (munmap(a, len)) SETERR("munmap fails"); }
	if (g_kind == PROT) { if (mp[i].x == p) { mp[i].x = NULL; if (mp[i].w) return 0; } else { memset(p, 0xee, 256); mp[i].w = NULL; if (mp[i].x) return 0; } }
	else if (!g_real) memset(p, 0xee, 256);
	if (mp[i].slot >= 0) memset(g_used + mp[i].slot, 0, (len + CHUNK - 1) / CHUNK);
	mp[i] = mp[--nmp]; return 0;
}
int verif_mprotect(void *a, unsigned long len, int prot)
{
	int i; u8 *p = a;
	if ((prot & (PROT_WRITE | PROT_EXEC)) == (PROT_WRITE | PROT_EXEC)) SETERR("a range becomes writable and executable");
	for (i = 0; i < nmp; i++) if (mp[i].x <= p && p + len <= mp[i].x + ((mp[i].size + 4095) & ~4095ul)) break;
	if (i == nmp) SETERR("mprotect of something else"); else mp[i].prot = prot;
	return g_real ? mprotect(a, len, prot) : 0;
}
int verif_open(const char *path, int flags, int mode) { if (g_fd >= 0) SETERR("descriptor is left open"); g_fd = 1000; return g_fd; }
int verif_mkostemp(char *t, int flags) { return verif_open(t, flags, 0); }
int verif_ftruncate(int fd, long len) { if (fd != g_fd) SETERR("ftruncate of another descriptor"); return 0; }
int verif_close(int fd) { if (fd != g_fd) SETERR("close of another descriptor"); g_fd = -1; return 0; }
int verif_unlink(const char *p) { return 0; }
/* ------------------------------------------------ model */
typedef struct { u8 *x, *w; uw size; u32 tag; void *code; } blk;
static blk bl[16]; static int nb; static u32 g_tag;
static void fill(blk *b, int check)
{
	uw pos[3], i, k, n = b->size < 32 ? b->size : 32; pos[0] = 0; pos[1] = b->size / 2 < b->size - n ? b->size / 2 : b->size - n; pos[2] = b->size - n;
	for (k = 0; k < 3; k++) for (i = 0; i < n; i++) {
		u8 v = (u8)(b->tag * 37 + (pos[k] + i) * 11);
		if (!check) b->w[pos[k] + i] = v;
		else if (b->w[pos[k] + i] != v) { SETERR("contents of block %d (%lu bytes) change at %lu", (int)(b - bl), (unsigned long)b->size, (unsigned long)(pos[k] + i)); return; }
		else if (b->x != b->w && b->x[pos[k] + i] != v) { SETERR("contents of block %d differ at its executable address", (int)(b - bl)); return; }
	}
}
static map_t *mapof(u8 *x, uw size) { int i; for (i = 0; i < nmp; i++) if (mp[i].x && x >= mp[i].x && size <= mp[i].size && x + size <= mp[i].x + mp[i].size) return &mp[i]; return NULL; }
/* there is room for the size between the blocks of a mapping */
static int room(uw size)
{
	int i, j, k; uw need = size + 256;
	if (g_kind == WX || need < size) return 0;
	for (i = 0; i < nmp; i++) {
		u8 *lo = mp[i].x, *end = mp[i].x + mp[i].size;
		for (k = 0; k <= 16; k++) { u8 *nx = end; int w = -1; for (j = 0; j < nb; j++) if (bl[j].x >= lo && bl[j].x < nx) { nx = bl[j].x; w = j; } if ((uw)(nx - lo) >= need) return 1; if (w < 0) break; lo = nx + bl[w].size; }
	}
	return 0;
}
static void state(const char *op)
{
	int i, j; n_steps++;
	if (g_fd >= 0) SETERR("%s leaves a descriptor open", op);
	for (i = 0; i < nb && !g_err; i++) {
		map_t *m = mapof(bl[i].x, bl[i].size);
		if (!m) { SETERR("%s: block %d is not mapped", op, i); return; }
		for (j = 0; j < i; j++) if (bl[i].x < bl[j].x + bl[j].size && bl[j].x < bl[i].x + bl[i].size) SETERR("%s: blocks %d and %d overlap", op, j, i);
		if (g_kind == PROT && bl[i].w - m->w != bl[i].x - m->x) SETERR("%s: the executable offset of block %d is wrong", op, i);
		if (!g_err) fill(&bl[i], 1);
	}
}
static void do_malloc(uw size, int deny)
{
	u8 *p; int req, rm = room(size); g_deny = deny; req = g_mapreq;
	p = sljit_malloc_exec(size); g_deny = 0; req = g_mapreq - req;
	if (g_err) return;
	if (deny && (req || g_kind == PROT) && !p) { if (rm) SETERR("malloc(%lu) is refused with free space", (unsigned long)size); return; }
	if (size > ~(uw)0 - 65536 * 2) { if (p) SETERR("malloc(%#lx) returns a block", (unsigned long)size); return; }
	if (!p) { SETERR("malloc(%lu) returns NULL", (unsigned long)size); return; }
	if (deny && req) { SETERR("malloc(%lu) returns a block without a mapping", (unsigned long)size); return; }
	if (rm && req) SETERR("malloc(%lu) maps memory although there is free space", (unsigned long)size);
	if ((uw)p & 7 & (g_kind == WX ? sizeof(sw) - 1 : 7)) SETERR("malloc(%lu) is not aligned", (unsigned long)size);
	bl[nb].w = p; p += SLJIT_EXEC_OFFSET(p); bl[nb].x = p; bl[nb].size = size ? size : 1; bl[nb].tag = ++g_tag; nb++;
	if (!mapof(p, bl[nb - 1].size)) { SETERR("malloc(%lu) is outside of the mappings", (unsigned long)size); return; }
	{ int j; for (j = 0; j < nb - 1; j++) if (p < bl[j].x + bl[j].size && bl[j].x < p + bl[nb - 1].size) { SETERR("malloc(%lu) overlaps block %d", (unsigned long)size, j); return; } }
	fill(&bl[nb - 1], 0);
}
static void do_free(int i) { blk b = bl[i]; memmove(bl + i, bl + i + 1, sizeof(blk) * (size_t)(nb - i - 1)); nb--; sljit_free_exec(b.x); }
static void do_trim(void)
{
	int i, j; sljit_free_unused_memory_exec();
	for (i = 0; i < nmp && !g_err; i++) { for (j = 0; j < nb; j++) if (bl[j].x >= mp[i].x && bl[j].x < mp[i].x + mp[i].size) break; if (j == nb) SETERR("trim leaves a mapping without blocks"); }
}
/* ------------------------------------------------ histories */
static const uw *g_sz; static int g_nsz, g_depth, g_leaforder; static int hist[16]; static u64 g_leaves;
static void htext(int n)
{
	int i; char *p = g_txt; p += sprintf(p, "%s placement %d%s:", g_kind == PROT ? "dual mapping" : g_kind == WX ? "separate mappings" : "chunks", g_policy, g_real ? " real" : "");
	for (i = 0; i < n; i++) { int o = hist[i]; if (o < g_nsz) p += sprintf(p, " malloc(%lu)", (unsigned long)g_sz[o]); else if (o < 2 * g_nsz) p += sprintf(p, " denied-malloc(%lu)", (unsigned long)g_sz[o - g_nsz]); else if (o == 2 * g_nsz) p += sprintf(p, " trim"); else p += sprintf(p, " free(%d)", o - 2 * g_nsz - 1); }
}
static void op(int o)
{
	if (o < g_nsz) { do_malloc(g_sz[o], 0); state("malloc"); }
	else if (o < 2 * g_nsz) { do_malloc(g_sz[o - g_nsz], 1); state("denied malloc"); }
	else if (o == 2 * g_nsz) { do_trim(); state("trim"); }
	else { do_free(o - 2 * g_nsz - 1); state("free"); }
}
static int replay(int n)
{
	int i; g_phase = "history"; nb = 0; g_tag = 0; g_flip = g_rot = 0; n_runs++;
	for (i = 0; i < n; i++) { op(hist[i]); if (g_err) { htext(i + 1); break; } }
	if (!g_err) {
		/* free everything in one of two orders; nothing may remain after a trim */
		int ord = (int)(g_leaves & 1); g_phase = "free all";
		while (nb && !g_err) { do_free(ord ? nb - 1 : 0); state("final free"); }
		if (!g_err) { do_trim(); if (nmp) SETERR("mappings remain after everything is freed and trimmed"); }
		if (g_err) htext(n);
	}
	if (!g_err) return 1;
	violation(g_cur, "allocator", "%s | %s", g_txt, g_err); g_err = NULL;
	/* the allocator may be damaged: stop here */
	finish(1); return 0;
}
static int g_live_at[17], g_mod; 
static void dfs(int d, int live)
{
	int o, nops;
	if (d == g_depth) { g_leaves++; replay(d); return; }
	n_states++;
	nops = 2 * g_nsz + 1 + live;
	for (o = 0; o < nops; o++) {
		if (o == 2 * g_nsz && d && hist[d - 1] == o) continue;                 /* trim twice */
		if (d == 0 && o >= g_nsz) continue;
		if (o >= g_nsz && o < 2 * g_nsz && (g_mod & 1)) continue;              /* this family has no denied requests */
		if (o < g_nsz && live >= 9) continue;
		hist[d] = o;
		if (d == 1) { if (!mine()) continue; g_cur = g_idx - 1; TICK(); htext(2); g_crash_txt = g_txt; if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; continue; } }
		dfs(d + 1, o < g_nsz && g_sz[o] < ~(uw)0 - 65536 * 2 ? live + 1 : (o > 2 * g_nsz ? live - 1 : live)); /* a denied request that is served from free space is freed last */
	}
}
/* denied requests may succeed from free space, so the number of live blocks is only known when running: the tree walks the real allocator */
static void walk(const uw *sz, int nsz, int depth, int mod)
{
	g_sz = sz; g_nsz = nsz; g_depth = depth; g_mod = mod; dfs(0, 0);
}
/* ------------------------------------------------ generated code: every history of generations, frees and trims */
static void *gen(int k, int i)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); void *code; int j;
	sljit_emit_enter(c, 0, SLJIT_ARGS1(W, W), 1, 1, 0);
	for (j = 0; j < k; j++) sljit_emit_op2(c, SLJIT_ADD, SLJIT_S0, 0, SLJIT_S0, 0, SLJIT_IMM, 1);
	sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_S0, 0, SLJIT_IMM, i * 1000 + 7); sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	code = sljit_generate_code(c, 0, NULL); if (!code) SETERR("no code, error %d", sljit_get_compiler_error(c)); sljit_free_compiler(c); return code;
}
static const int g_cs[] = { 2, 700, 6000 };
static void ctext(int n) { int i; char *p = g_txt; p += sprintf(p, "%s code:", g_kind == PROT ? "dual mapping" : g_kind == WX ? "separate mappings" : "chunks"); for (i = 0; i < n; i++) p += hist[i] < 3 ? sprintf(p, " generate(%d)", g_cs[hist[i]]) : hist[i] == 3 ? sprintf(p, " trim") : sprintf(p, " free(%d)", hist[i] - 4); }
static struct { void *code; int k, id; } cd[16]; static int ncd;
static void runall(const char *op) { int i; for (i = 0; i < ncd && !g_err; i++) { sw r = ((sw (*)(sw))cd[i].code)(5); n_runs++; if (r != 5 + cd[i].k + cd[i].id * 1000 + 7) SETERR("after %s code %d returns %ld", op, i, (long)r); } }
static void crun(int n)
{
	int i; g_phase = "code history"; ncd = 0;
	for (i = 0; i < n && !g_err; i++) {
		if (hist[i] < 3) { cd[ncd].code = gen(g_cs[hist[i]], i); cd[ncd].k = g_cs[hist[i]]; cd[ncd].id = i; ncd++; runall("generate"); }
		else if (hist[i] == 3) { sljit_free_unused_memory_exec(); runall("trim"); }
		else { int k = hist[i] - 4; void *c = cd[k].code; memmove(cd + k, cd + k + 1, sizeof(cd[0]) * (size_t)(ncd - k - 1)); ncd--; sljit_free_code(c, NULL); runall("free"); }
		n_steps++;
	}
	while (ncd && !g_err) { sljit_free_code(cd[--ncd].code, NULL); runall("final free"); }
	sljit_free_unused_memory_exec(); if (!g_err && nmp) SETERR("mappings remain");
	if (g_err) { ctext(n); violation(g_cur, "code", "%s | %s", g_txt, g_err); finish(1); }
}
static void cdfs(int d, int live)
{
	int o;
	if (d == g_depth) { crun(d); n_states++; return; }
	for (o = 0; o < 4 + live; o++) {
		if (o == 3 && (d == 0 || hist[d - 1] == 3)) continue;
		hist[d] = o;
		if (d == 1) { if (!mine()) continue; g_cur = g_idx - 1; TICK(); ctext(2); g_crash_txt = g_txt; }
		cdfs(d + 1, o < 3 ? live + 1 : o == 3 ? live : live - 1);
	}
}
int main(int argc, char **argv)
{
	static uw A[] = { 100, 5000, 30000 }, B[5], C[] = { 1, 20000, 45000, 70000 }, D[] = { 200, 3000, 0, 0, 0, 0 }, F[] = { 16000, 30000 };
	int hd = g_kind == PROT ? 3 * WB : 2 * WB, x, dp, fd, nat; uw whole;
	parse_args(argc, argv); g_suite = "exec";
#if defined __x86_64__ || defined __i386__
	nat = 1;
#else
	nat = 0;
#endif
	if (g_kind == PROT) {
		char t[] = "/tmp/verifXXXXXX"; int i; fd = mkstemp(t); if (fd < 0) die("mkstemp"); unlink(t); if (ftruncate(fd, NSL * CHUNK)) die("ftruncate");
		g_pool = mmap(NULL, NSL * CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (i = 0; i < 2; i++) { g_al[i] = mmap(NULL, NSL * CHUNK, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0); if (g_al[i] == MAP_FAILED) die("mmap"); } close(fd);
	} else g_pool = mmap(NULL, NSL * CHUNK, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g_pool == MAP_FAILED) die("mmap");
	/* sizes around a whole chunk and around the smallest remainder that is kept */
	whole = CHUNK - (uw)hd - (g_kind == PROT ? (uw)WB : 0) - (uw)hd;
	B[0] = whole; B[1] = whole + 1; B[2] = whole - 64; B[3] = whole - 72; B[4] = 40;
	D[2] = ~(uw)0; D[3] = ~(uw)0 - 20; D[4] = ~(uw)0 - 40; D[5] = ~(uw)0 - 65500;
	dp = nat ? 0 : -2; if (g_thorough) dp++;
	for (x = 0; x < 3; x++) { g_policy = x; walk(A, 3, 7 + dp, 1); walk(A, 3, 6 + dp, 0); walk(B, 5, 6 + dp, 1); walk(C, 4, 6 + dp, 1); walk(D, 6, 5 + dp, 0); walk(F, 2, 8 + dp, 1); if (!g_thorough && g_kind == WX) break; }
	if (g_kind != PROT) { g_real = 1; g_policy = 0; walk(A, 3, 5 + dp, 1); walk(B, 5, 5 + dp, 1); walk(C, 4, 5 + dp, 0); }
	g_real = g_kind == WX; g_depth = (nat ? 6 : 4) + g_thorough; g_policy = 0; cdfs(0, 0); g_policy = 2; g_depth--; cdfs(0, 0);
	if (!g_nsamples) { ctext(3); snprintf(g_samples[g_nsamples++], 600, "%s ... and its final frees", g_txt); }
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); return 0;
}
