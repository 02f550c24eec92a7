/* P13: all interleavings, up to a preemption bound, of small concurrent programs over the shared state of the library. The real library is
   compiled with access callbacks: every access to its static data and to allocator memory that at least two threads touch (one of them
   writing), every lock operation and every mapping request is a scheduling point. Threads are coroutines of one process, and static data is restored before
   each execution, so first uses are explored as well. An execution must satisfy the block model, run its code, release everything and have
   an outcome (placements, results, later behaviour) which some serial order of the operations has. */
#define _GNU_SOURCE
#include <errno.h>
#include <ucontext.h>
#include <pthread.h>
#include "eng.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include "sljitLir.h"
#define CHUNK 65536ul
#define NSL 48
enum { POSIX, PROT, WX };
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
static const int g_kind = PROT;
#elif (defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
static const int g_kind = WX;
#else
static const int g_kind = POSIX;
#endif
#define MAXT 3
#define NOINS __attribute__((no_sanitize("thread")))
static const char *g_err; static char g_errb[240], g_txt[900];
#define SETERR(...) do { if (!g_err) { snprintf(g_errb, sizeof(g_errb), __VA_ARGS__); g_err = g_errb; } } while (0)
extern u8 __start_libbss[], __stop_libbss[], __start_libdata[], __stop_libdata[];
static u8 *sv_bss, *sv_data;
/* ------------------------------------------------ scheduler */
static ucontext_t mainc, ctx[MAXT]; static u8 *stk[MAXT]; static int nthr, cur = -1, done[MAXT], serial; static void *blocked[MAXT];
static struct { void *m; int owner; } lk[16]; static int nlk;
static u8 path[20000]; static u8 pathn[20000]; static int np, plen; static int preempt, bound, runlen, npoints, deadlock; static u64 n_points;
static int locks_held[MAXT];
static void abortrun(void) { cur = -1; setcontext(&mainc); }
static void go(int t) { int o = cur; if (t == o) return; cur = t; runlen = 0; swapcontext(&ctx[o], &ctx[t]); }
static int enabled(int t) { int i; if (done[t]) return 0; if (!blocked[t]) return 1; for (i = 0; i < nlk; i++) if (lk[i].m == blocked[t]) return lk[i].owner < 0; return 1; }
/* the chosen option: 0 .. n - 1 */
static int choose(int n)
{
	int c; if (n <= 1) return 0;
	if (np >= 19990) { SETERR("no progress"); abortrun(); }
	if (np < plen) { c = path[np]; if (pathn[np] != n) { SETERR("internal: options differ"); abortrun(); } } else { c = path[np] = 0; pathn[np] = (u8)n; plen = np + 1; }
	np++; return c;
}
static void others(void)
{
	int t, o[MAXT], n = 0; for (t = 0; t < nthr; t++) if (t != cur && enabled(t)) o[n++] = t;
	if (!n) { if (!done[cur] || 1) { int all = 1; for (t = 0; t < nthr; t++) if (!done[t]) all = 0; if (!all) { SETERR("deadlock"); } } abortrun(); }
	go(o[choose(n)]);
}
/* a scheduling point of the running thread */
static void point(void)
{
	int t, o[MAXT + 1], n = 0;
	n_points++; npoints++; if (++runlen > 3000) { runlen = 0; for (t = 0; t < nthr; t++) if (t != cur && enabled(t)) { others(); return; } if (npoints > 60000) { SETERR("no progress"); abortrun(); } return; }
	if (npoints > 60000) { SETERR("no progress"); abortrun(); }
	if (serial || preempt >= bound) return;
	o[n++] = cur; for (t = 0; t < nthr; t++) if (t != cur && enabled(t)) o[n++] = t;
	t = choose(n); if (t) { preempt++; go(o[t]); }
}
/* boundary of operations: in serial mode the only place where threads change */
static void boundary(void)
{
	int t, o[MAXT + 1], n = 0;
	if (!serial) { point(); return; }
	o[n++] = cur; for (t = 0; t < nthr; t++) if (t != cur && !done[t]) o[n++] = t;
	t = choose(n); if (t) go(o[t]);
}
static int lkof(void *m) { int i; for (i = 0; i < nlk; i++) if (lk[i].m == m) return i; if (nlk >= 16) die("locks"); lk[nlk].m = m; lk[nlk].owner = -1; return nlk++; }
int verif_lock(pthread_mutex_t *m)
{
	int i; if (cur < 0) { i = lkof(m); if (lk[i].owner >= 0) SETERR("a lock is still held"); lk[i].owner = 99; return 0; }
	point(); i = lkof(m);
	while (lk[i].owner >= 0) { if (lk[i].owner == cur) { SETERR("a thread waits for its own lock"); abortrun(); } if (serial) { SETERR("a lock is still held"); abortrun(); } blocked[cur] = m; others(); }
	blocked[cur] = NULL; lk[i].owner = cur; locks_held[cur]++; return 0;
}
int verif_trylock(pthread_mutex_t *m)
{
	int i; if (cur < 0) return verif_lock(m);
	point(); i = lkof(m); if (lk[i].owner >= 0) return EBUSY; lk[i].owner = cur; locks_held[cur]++; return 0;
}
int verif_unlock(pthread_mutex_t *m)
{
	int i = lkof(m); if (cur < 0) { if (lk[i].owner != 99) SETERR("unlock without lock"); lk[i].owner = -1; return 0; }
	if (lk[i].owner != cur) { SETERR("unlock of a lock which the thread does not own"); abortrun(); }
	lk[i].owner = -1; locks_held[cur]--; point(); return 0;
}
/* ------------------------------------------------ shared accesses */
#define POOLSZ (NSL * CHUNK)
static u8 *g_pool, *g_al[2]; static u8 g_used[NSL]; static int g_nmap, g_fd[MAXT + 1], g_flip;
static u8 *a_rd, *a_wr; static uw n_gr, o_data, o_pool; static int g_grew;
static u8 *g_mrd, *g_mwr;
static void acc(uw a, int wr, uw size)
{
	uw g; u8 m, r, w;
	if (cur < 0) return;
	if (a - (uw)__start_libbss < (uw)(__stop_libbss - __start_libbss)) g = (a - (uw)__start_libbss) >> 2;
	else if (a - (uw)__start_libdata < (uw)(__stop_libdata - __start_libdata)) g = o_data + ((a - (uw)__start_libdata) >> 2);
	else if (a - (uw)g_pool < POOLSZ) {
		g = o_pool + ((a - (uw)g_pool) >> 2);
		if (!g_used[(a - (uw)g_pool) / CHUNK]) { SETERR("access to released memory"); abortrun(); }
	} else return;
	m = (u8)(1 << cur); r = a_rd[g]; w = a_wr[g];
	if (wr) { if (!(w & m)) a_wr[g] = w |= m; } else if (!(r & m)) a_rd[g] = r |= m;
	r |= w; if (w && (r & (r - 1))) { if (!(a_rd[g] & 0x80)) { a_rd[g] |= 0x80; g_grew = 1; } point(); }
}
#define ACC(n) void __tsan_read##n(void *a) { acc((uw)a, 0, n); } void __tsan_write##n(void *a) { acc((uw)a, 1, n); } void __tsan_unaligned_read##n(void *a) { acc((uw)a, 0, n); } void __tsan_unaligned_write##n(void *a) { acc((uw)a, 1, n); } \
	void __tsan_volatile_read##n(void *a) { acc((uw)a, 0, n); } void __tsan_volatile_write##n(void *a) { acc((uw)a, 1, n); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, uw n) { acc((uw)a, 0, n); }
void __tsan_write_range(void *a, uw n) { acc((uw)a, 1, n); }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
#define ATOM(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int mo) { acc((uw)a, 0, b / 8); return *a; } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { acc((uw)a, 1, b / 8); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { T o; acc((uw)a, 1, b / 8); o = *a; *a = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { T o; acc((uw)a, 1, b / 8); o = *a; *a = o + v; return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { T o; acc((uw)a, 1, b / 8); o = *a; *a = o - v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { T o; acc((uw)a, 1, b / 8); o = *a; *a = o | v; return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { T o; acc((uw)a, 1, b / 8); o = *a; *a = o & v; return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) { acc((uw)a, 1, b / 8); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, mo, f); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { T o; acc((uw)a, 1, b / 8); o = *a; if (o == e) *a = v; return o; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) { }
void __tsan_atomic_signal_fence(int mo) { }
/* ------------------------------------------------ system */
typedef struct { u8 *w, *x; unsigned long size; int prot, slot; } map_t;
static map_t mp[40]; static int nmp;
#define STKSZ 65536ul
static int deny[MAXT]; static u8 *stkpool[MAXT]; static int instack[MAXT]; static uw stkmap[MAXT];
static u8 *heap[MAXT + 1]; static uw hpos[MAXT + 1]; static int hlive[MAXT + 1];
#define HEAPSZ (256 * 1024ul)
void *verif_malloc(unsigned long size) { int t = cur < 0 ? MAXT : cur; u8 *p; size = (size + 31) & ~15ul; if (hpos[t] + size > HEAPSZ) die("heap"); p = heap[t] + hpos[t]; hpos[t] += size; hlive[t]++; p[0] = (u8)t; return p + 16; }
void verif_free(void *p) { if (!p) return; hlive[((u8 *)p)[-16]]--; }
int verif_printf(const char *fmt, ...) { return (int)strlen(fmt); }
void verif_flush(void *a, void *b) { }
static int takeslot(int n) { int i, j; for (i = 0; i <= NSL - n; i++) { for (j = 0; j < n && !g_used[i + j]; j++); if (j == n) { memset(g_used + i, 1, (size_t)n); return i; } } die("pool is full"); return 0; }
void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off)
{
	u8 *p; int s, i, n = (int)((len + CHUNK - 1) / CHUNK);
	if (cur >= 0) point();
	if (!len) { errno = EINVAL; return MAP_FAILED; }
	if (cur >= 0 && instack[cur]) { if (stkmap[cur] || len > STKSZ) die("stack mapping"); stkmap[cur] = len; return stkpool[cur]; }
	if ((cur >= 0 && deny[cur]) || len > (1ul << 30)) { errno = ENOMEM; return MAP_FAILED; }
	if (nmp >= 39) die("mappings");
	if (g_kind == PROT && fd >= 0) {
		for (i = 0; i < nmp; i++) if (mp[i].prot == fd) break;
		if (prot & PROT_WRITE) { if (prot & PROT_EXEC) SETERR("a mapping is writable and executable"); s = takeslot(n); p = g_pool + (unsigned long)s * CHUNK; mp[nmp].w = p; mp[nmp].x = NULL; mp[nmp].size = len; mp[nmp].slot = s; mp[nmp].prot = fd; nmp++; return p; }
		if (i == nmp || mp[i].x || mp[i].size != len) { SETERR("unexpected executable mapping"); return MAP_FAILED; }
		g_flip ^= 1; mp[i].x = g_al[0] + (unsigned long)mp[i].slot * CHUNK; return mp[i].x;
	}
	s = takeslot(n); p = g_pool + (unsigned long)s * CHUNK; memset(p, 0, 64);
	mp[nmp].w = mp[nmp].x = p; mp[nmp].size = len; mp[nmp].slot = s; mp[nmp].prot = -1; nmp++; return p;
}
int verif_munmap(void *a, unsigned long len)
{
	int i; u8 *p = a; if (cur >= 0) point();
	if (cur >= 0 && instack[cur]) { if (p != stkpool[cur] || len != stkmap[cur]) SETERR("munmap of another stack"); stkmap[cur] = 0; return 0; }
	for (i = 0; i < nmp; i++) if (mp[i].w == p || mp[i].x == p) break;
	if (i == nmp) { SETERR("munmap of something else"); return -1; }
	if (mp[i].size != len) { SETERR("munmap of %lu bytes, %lu are mapped", len, mp[i].size); return -1; }
	if (g_kind == PROT) { if (mp[i].x == p) { mp[i].x = NULL; if (mp[i].w) return 0; } else { memset(p, 0xee, 256); mp[i].w = NULL; if (mp[i].x) return 0; } }
	else memset(p, 0xee, 256);
	memset(g_used + mp[i].slot, 0, (len + CHUNK - 1) / CHUNK);
	memmove(mp + i, mp + i + 1, sizeof(mp[0]) * (size_t)(nmp - i - 1)); nmp--; return 0;
}
int verif_mprotect(void *a, unsigned long len, int prot)
{
	int i; u8 *p = a; if (cur >= 0) point();
	if ((prot & (PROT_WRITE | PROT_EXEC)) == (PROT_WRITE | PROT_EXEC)) SETERR("a range becomes writable and executable");
	for (i = 0; i < nmp; i++) if (mp[i].x <= p && p + len <= mp[i].x + ((mp[i].size + 4095) & ~4095ul)) return 0;
	SETERR("mprotect of something else"); return -1;
}
static int g_nfd;
int verif_open(const char *path, int flags, int mode) { if (cur >= 0) point(); g_nfd++; return 1000 + g_fd[0]++; }
int verif_mkostemp(char *t, int flags) { return verif_open(t, flags, 0); }
int verif_ftruncate(int fd, long len) { return 0; }
int verif_close(int fd) { int i; for (i = 0; i < nmp; i++) if (mp[i].prot == fd) mp[i].prot = -1; g_nfd--; return 0; }
int verif_unlink(const char *p) { return 0; }
/* ------------------------------------------------ model and operations */
enum { O_M100, O_M20K, O_M50K, O_MBIG, O_FREE, O_FSET, O_TRIM, O_GEN, O_RUN, O_FEAT, O_STACK, O_DENY, O_N };
static const char *const on[] = { "malloc(100)", "malloc(20000)", "malloc(50000)", "malloc(66000)", "free-last", "free-shared", "trim", "generate", "run", "cpu-features", "stack", "denied-malloc(66000)" };
static const uw msz[] = { 100, 20000, 50000, 66000 };
typedef struct { u8 *x, *w; uw size; u32 tag; int code, owner; } blk;
static blk bl[48]; static int nb; static u32 g_tag; static u64 g_out[MAXT];
static u8 prog[MAXT][4]; static int progn[MAXT], g_setup;
static int setblk[MAXT];
static void mix(int t, u64 v) { g_out[t] = (g_out[t] ^ v) * 0x9E3779B97F4A7C15ull; g_out[t] ^= g_out[t] >> 29; }
static void fill(blk *b, int check)
{
	uw pos[2], i, k, n = b->size < 64 ? b->size : 64; pos[0] = 0; pos[1] = b->size - n; if (b->code) return;
	for (k = 0; k < 2; k++) for (i = 0; i < n; i++) {
		u8 v = (u8)(b->tag * 37 + (pos[k] + i) * 11);
		if (!check) b->w[pos[k] + i] = v;
		else if (b->w[pos[k] + i] != v || b->x[pos[k] + i] != v) { SETERR("contents of a block of %lu bytes change at %lu", (unsigned long)b->size, (unsigned long)(pos[k] + i)); return; }
	}
}
static map_t *mapof(u8 *x, uw size) { int i; for (i = 0; i < nmp; i++) if (mp[i].x && x >= mp[i].x && x + size <= mp[i].x + mp[i].size) return &mp[i]; return NULL; }
static u64 offs(u8 *x) { map_t *m = mapof(x, 1); return m ? (u64)m->slot * CHUNK + (u64)(x - m->x) : 1; }
static blk *addblk(u8 *w, u8 *x, uw size, int owner, int code, u32 tag)
{
	int j; blk *b = &bl[nb]; b->w = w; b->x = x; b->size = size; b->owner = owner; b->code = code; b->tag = tag;
	if (!mapof(x, size)) { SETERR("a block of %lu bytes is outside of the mappings", (unsigned long)size); return NULL; }
	for (j = 0; j < nb; j++) if (x < bl[j].x + bl[j].size && bl[j].x < x + size) { SETERR("a block of %lu bytes overlaps a live block", (unsigned long)size); return NULL; }
	nb++; fill(b, 0); return b;
}
static void do_malloc(int t, uw size, u32 tag)
{
	u8 *p = sljit_malloc_exec(size); if (g_err) return;
	if (!p) { SETERR("malloc(%lu) returns NULL", (unsigned long)size); return; }
	addblk(p, p + SLJIT_EXEC_OFFSET(p), size, t, 0, tag); mix(t, offs(p + SLJIT_EXEC_OFFSET(p)));
}
static void freeblk(int i) { blk b = bl[i]; fill(&b, 1); memmove(bl + i, bl + i + 1, sizeof(blk) * (size_t)(nb - i - 1)); nb--; if (b.code) sljit_free_code(b.x, NULL); else sljit_free_exec(b.x); }
static int lastof(int owner) { int i; for (i = nb - 1; i >= 0; i--) if (bl[i].owner == owner) return i; return -1; }
typedef double (*cfun)(double *, sw);
static void do_gen(int t, int k)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); void *code; int j; uw sz; if (!c) { SETERR("no compiler"); return; }
	sljit_emit_enter(c, 0, SLJIT_ARGS2(F64, P, W), 2 | SLJIT_ENTER_FLOAT(2), 2, 0);
	for (j = 0; j < k + 1; j++) sljit_emit_op2(c, SLJIT_ADD, SLJIT_S1, 0, SLJIT_S1, 0, SLJIT_IMM, k + 1);
	sljit_emit_op1(c, SLJIT_CLZ, SLJIT_R0, 0, SLJIT_S1, 0);
	sljit_emit_op2(c, SLJIT_ADD, SLJIT_S1, 0, SLJIT_S1, 0, SLJIT_R0, 0);
	sljit_emit_fop1(c, SLJIT_CONV_F64_FROM_SW, SLJIT_FR1, 0, SLJIT_S1, 0);
	sljit_emit_fop1(c, SLJIT_NEG_F64, SLJIT_FR0, 0, SLJIT_MEM1(SLJIT_S0), 0); sljit_emit_fop1(c, SLJIT_ABS_F64, SLJIT_FR1, 0, SLJIT_FR1, 0); sljit_emit_fop2(c, SLJIT_ADD_F64, SLJIT_FR0, 0, SLJIT_FR0, 0, SLJIT_FR1, 0);
	sljit_emit_return(c, SLJIT_MOV_F64, SLJIT_FR0, 0);
	code = sljit_generate_code(c, 0, NULL); sz = sljit_get_generated_code_size(c); j = sljit_get_compiler_error(c); sljit_free_compiler(c);
	if (g_err) return; if (!code) { SETERR("no code, error %d", j); return; }
	if (addblk((u8 *)code, (u8 *)code, sz, t, k + 1, 0)) mix(t, offs(code)); mix(t, sz);
}
static void runcode(blk *b) { sw a = 5 + b->code * b->code; double x = 2.5, r = ((cfun)b->x)(&x, 5), e = (double)(a + __builtin_clzl((unsigned long)a)) - 2.5; n_runs++; if (r != e) SETERR("code returns %g, expected %g", r, e); }
static void do_stack(int t)
{
	struct sljit_stack *s; instack[t] = 1; s = sljit_allocate_stack(100 + t, 5000, NULL); if (!s) { SETERR("no stack"); return; }
	if (s->end - s->min_start != 8192 || s->end - s->start != 100 + t) SETERR("stack of %ld bytes, %ld reserved", (long)(s->end - s->start), (long)(s->end - s->min_start));
	s->end[-1] = 7; if (sljit_stack_resize(s, s->min_start) != s->min_start || s->end[-1] != 7) SETERR("stack resize"); if (sljit_stack_resize(s, s->end)) SETERR("stack resize out of range"); sljit_free_stack(s, NULL); if (stkmap[t]) SETERR("the stack is not unmapped"); instack[t] = 0;
}
static void do_op(int t, int o, int seq)
{
	int i, f;
	switch (o) {
	case O_M100: case O_M20K: case O_M50K: case O_MBIG: do_malloc(t, msz[o], (u32)(t * 8 + seq + 1)); break;
	case O_FREE: i = lastof(t); if (i >= 0) freeblk(i); break;
	case O_FSET: i = lastof(10 + t); if (i >= 0) freeblk(i); break;
	case O_DENY: deny[t] = 1; { u8 *p = sljit_malloc_exec(66000); deny[t] = 0; if (p) { p += SLJIT_EXEC_OFFSET(p); mix(t, offs(p)); addblk(p - SLJIT_EXEC_OFFSET(p), p, 66000, 35 + t, 0, 40 + (u32)t); } } break;
	case O_TRIM: sljit_free_unused_memory_exec(); break;
	case O_GEN: do_gen(t, t * 3 + seq); break;
	case O_RUN: i = lastof(t); if (i >= 0 && bl[i].code) runcode(&bl[i]); break;
	case O_FEAT: { static const int fs[] = { SLJIT_HAS_FPU, SLJIT_HAS_CLZ, SLJIT_HAS_CTZ, SLJIT_HAS_CMOV, SLJIT_HAS_SIMD, SLJIT_HAS_ROT, SLJIT_HAS_PREFETCH, SLJIT_HAS_MEMORY_BARRIER, SLJIT_HAS_AVX, SLJIT_HAS_AVX2 };
		for (f = 0; f < 10; f++) mix(t, (u64)sljit_has_cpu_feature(fs[f])); break; }
	default: do_stack(t); break;
	}
	n_steps++;
}
static void thread(int t) { int i; for (i = 0; i < progn[t]; i++) { boundary(); do_op(t, prog[t][i], i); } done[t] = 1; if (locks_held[t]) SETERR("a thread ends with a lock held"); others(); }
static void htext(void) { int t, i; char *p = g_txt; p += sprintf(p, "%s, setup %d:", g_kind == PROT ? "dual mapping" : g_kind == WX ? "separate mappings" : "chunks", g_setup); for (t = 0; t < nthr; t++) { p += sprintf(p, " T%d[", t); for (i = 0; i < progn[t]; i++) p += sprintf(p, "%s%s", i ? " " : "", on[prog[t][i]]); p += sprintf(p, "]"); } }
static void sched_text(char *s) { int i; s += sprintf(s, " schedule"); for (i = 0; i < plen && i < 200; i++) if (path[i]) s += sprintf(s, " %d:%d", i, path[i]); }
/* one execution along path[]; the result is the hash of its outcome */
static u64 execute(void)
{
	static uw pr[] = { 100, 30000, 65000, 20000 }; int i, t; u64 h; blk pb[4];
	memcpy(__start_libbss, sv_bss, (size_t)(__stop_libbss - __start_libbss)); memcpy(__start_libdata, sv_data, (size_t)(__stop_libdata - __start_libdata));
	memset(g_used, 0, sizeof(g_used)); nmp = 0; nb = 0; g_nfd = 0; g_fd[0] = 0; g_flip = 0; nlk = 0; memset(hpos, 0, sizeof(hpos)); memset(hlive, 0, sizeof(hlive)); memset(g_out, 0, sizeof(g_out));
	memset(blocked, 0, sizeof(blocked)); memset(done, 0, sizeof(done)); memset(instack, 0, sizeof(instack)); memset(deny, 0, sizeof(deny)); memset(stkmap, 0, sizeof(stkmap)); memset(locks_held, 0, sizeof(locks_held)); np = 0; preempt = 0; runlen = 0; npoints = 0; cur = -1; g_tag = 100;
	/* setup: blocks which belong to the threads, side by side or in a full chunk, with separators or not */
	if (g_setup == 1) for (i = 0; i < nthr; i++) do_malloc(0, 500, 50 + (u32)i), bl[nb - 1].owner = 10 + i;
	if (g_setup == 2) { for (i = 0; i < nthr; i++) { do_malloc(0, 20000, 50 + (u32)i); bl[nb - 1].owner = 10 + i; } do_malloc(0, 3000, 90); bl[nb - 1].owner = 20; }
	if (g_setup == 3) for (i = 0; i < nthr; i++) { do_malloc(0, 65000, 50 + (u32)i); bl[nb - 1].owner = 10 + i; do_malloc(0, 200, 60 + (u32)i); bl[nb - 1].owner = 20; }
	memset(g_out, 0, sizeof(g_out)); plen = plen;
	if (!g_err) {
		for (t = 0; t < nthr; t++) { getcontext(&ctx[t]); ctx[t].uc_stack.ss_sp = stk[t]; ctx[t].uc_stack.ss_size = 256 * 1024; ctx[t].uc_link = NULL; makecontext(&ctx[t], (void (*)(void))thread, 1, t); }
		{ volatile int back = 0; getcontext(&mainc); if (!back) { int o[MAXT]; for (t = 0; t < nthr; t++) o[t] = t; back = 1; t = choose(nthr); cur = t; setcontext(&ctx[t]); } }
		cur = -1;
	}
	if (g_err) return 0;
	for (i = 0; i < nlk; i++) if (lk[i].owner >= 0) SETERR("a lock is still held");
	if (g_nfd) SETERR("a descriptor is left open");
	for (i = 0; i < nb && !g_err; i++) { if (!mapof(bl[i].x, bl[i].size)) SETERR("a live block is not mapped"); else if (bl[i].code) runcode(&bl[i]); else fill(&bl[i], 1); }
	for (t = 0; t < nthr; t++) if (hlive[t]) SETERR("thread %d leaks memory", t);
	if (g_err) return 0;
	/* later behaviour */
	for (h = 0, t = 0; t < nthr; t++) h = h * 0x100000001b3ull ^ g_out[t];
	g_out[0] = h; mix(0, (u64)nmp);
	for (i = 0; i < 4 && !g_err; i++) { do_malloc(0, pr[i], 70 + (u32)i); bl[nb - 1].owner = 30 + i; mix(0, (u64)nmp); }
	for (i = 3; i >= 0 && !g_err; i--) { freeblk(lastof(30 + i)); mix(0, (u64)nmp); }
	/* a fixed order of the final frees: by thread */
	for (t = 0; t < 40 && !g_err; t++) while ((i = lastof(t)) >= 0 && !g_err) { freeblk(i); mix(0, (u64)nmp); }
	sljit_free_unused_memory_exec(); if (!g_err && nmp) SETERR("mappings remain after everything is freed and trimmed");
	return g_out[0];
}
static u64 souts[4096]; static int nsouts;
static int nextpath(void) { while (plen) { if (path[plen - 1] + 1 < pathn[plen - 1]) { path[plen - 1]++; return 1; } plen--; } return 0; }
static void fail(const char *w) { char s[1200]; if (g_err) w = g_err; htext(); s[0] = 0; if (!serial) sched_text(s); violation(g_cur, "threads", "%s | %s |%s", g_txt, w, s); g_err = NULL; finish(1); }
static void scenario(int bnd)
{
	u64 h; int i, again;
	g_phase = "serial"; htext(); g_crash_txt = g_txt; nsouts = 0; serial = 1; plen = 0; n_progs++; TICK();
	do { h = execute(); if (g_err) fail(NULL); for (i = 0; i < nsouts && souts[i] != h; i++); if (i == nsouts) { if (nsouts >= 4096) die("outcomes"); souts[nsouts++] = h; } } while (nextpath());
	serial = 0; g_phase = "interleaved";
	memset(a_rd, 0, n_gr); memset(a_wr, 0, n_gr);
	for (bound = 0; bound <= bnd; bound++) do {
		again = 0; plen = 0; g_grew = 0;
		do {
			h = execute(); if (g_err) fail(NULL); n_states++;
			for (i = 0; i < nsouts && souts[i] != h; i++); if (i == nsouts) fail("the outcome differs from every serial order");
			/* an access which became shared was not a scheduling point before: start again */
			if (g_grew) { again = 1; if (bound == 0) { g_grew = 0; } else break; }
			if (!(n_states & 255)) { TICK(); if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; return; } }
		} while (nextpath());
	} while (again);
	if (g_nsamples < 2) snprintf(g_samples[g_nsamples++], 600, "%s: %d serial outcomes", g_txt, nsouts);
}
static int legal(const u8 *p, int n, int setup)
{
	int i, live = 0, gen = 0, fs = 0;
	for (i = 0; i < n; i++) switch (p[i]) {
	case O_FREE: if (!live--) return 0; gen = 0; break; case O_FSET: if (!setup || fs++) return 0; break; case O_RUN: if (!gen) return 0; break;
	case O_GEN: live++; gen = 1; break; case O_M100: case O_M20K: case O_M50K: case O_MBIG: live++; gen = 0; break; default: break;
	}
	return 1;
}
/* all programs of n operations from the list, for each thread; symmetric choices once */
static void all(int nt, int n, const u8 *ops, int no, int setup, int bnd)
{
	static u8 pl[4000][4]; int np_ = 0, idx[MAXT] = { 0 }, i, t, tot = 1;
	for (i = 0; i < n; i++) tot *= no;
	for (i = 0; i < tot; i++) { int v = i, k; u8 p[4]; for (k = 0; k < n; k++) { p[k] = ops[v % no]; v /= no; } if (legal(p, n, setup)) memcpy(pl[np_++], p, 4); }
	g_setup = setup; nthr = nt;
	for (;;) {
		for (t = 1; t < nt && idx[t] >= idx[t - 1]; t++);
		if (t == nt && mine()) { g_cur = g_idx - 1; for (t = 0; t < nt; t++) { memcpy(prog[t], pl[idx[t]], 4); progn[t] = n; } scenario(bnd); if (g_capped) return; }
		for (t = nt - 1; t >= 0 && ++idx[t] == np_; t--) idx[t] = 0;
		if (t < 0) break;
	}
}
int main(int argc, char **argv)
{
	static const u8 A[] = { O_M100, O_M20K, O_M50K, O_FREE, O_FSET, O_TRIM }, B[] = { O_M100, O_M50K, O_MBIG, O_FREE, O_TRIM, O_DENY }, G[] = { O_GEN, O_RUN, O_FREE, O_M100, O_TRIM, O_FEAT, O_STACK }, C[] = { O_M50K, O_FSET, O_TRIM, O_GEN }, F[] = { O_GEN, O_FEAT, O_STACK }, D[] = { O_DENY, O_M100, O_TRIM };
	int i, fd, s, x = 0;
	parse_args(argc, argv); g_suite = "threads"; x = g_thorough;
	if (g_kind == PROT) {
		char t[] = "/tmp/verifXXXXXX"; fd = mkstemp(t); if (fd < 0) die("mkstemp"); unlink(t); if (ftruncate(fd, POOLSZ)) die("ftruncate");
		g_pool = mmap(NULL, POOLSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); g_al[0] = mmap(NULL, POOLSZ, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0); if (g_al[0] == MAP_FAILED) die("mmap"); close(fd);
	} else g_pool = mmap(NULL, POOLSZ, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g_pool == MAP_FAILED) die("mmap");
	sv_bss = malloc((size_t)(__stop_libbss - __start_libbss) + 1); memcpy(sv_bss, __start_libbss, (size_t)(__stop_libbss - __start_libbss));
	sv_data = malloc((size_t)(__stop_libdata - __start_libdata) + 1); memcpy(sv_data, __start_libdata, (size_t)(__stop_libdata - __start_libdata));
	o_data = ((uw)(__stop_libbss - __start_libbss) >> 2) + 1; o_pool = o_data + ((uw)(__stop_libdata - __start_libdata) >> 2) + 1; n_gr = o_pool + (POOLSZ >> 2) + 1; a_rd = calloc(1, n_gr); a_wr = calloc(1, n_gr);
	for (i = 0; i < MAXT; i++) stk[i] = malloc(256 * 1024), stkpool[i] = aligned_alloc(4096, STKSZ); for (i = 0; i <= MAXT; i++) heap[i] = malloc(HEAPSZ);
	for (s = 0; s < 4; s++) { all(2, 1, A, 6, s, 4 + x); all(3, 1, A, 6, s, 2 + x); }
	all(2, 1, G, 7, 0, 3 + x); all(2, 2, G, 7, 0, 1 + x); all(3, 1, F, 3, 0, 2 + x); all(3, 1, D, 3, 0, 2 + x);
	for (s = 0; s < 4; s++) { all(2, 2, A, 6, s, 2 + x); all(2, 2, C, 4, s, 2 + x); }
	all(2, 2, B, 6, 0, 2 + x);
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); return 0;
}
