/* P14: every history of allocations, resizes and frees of utility stacks up to a depth, on the real implementation. Mappings come from a
   pool with unmapped neighbours; a range given back to the system loses its contents at once. */
#include <errno.h>
#include "eng.h"
#include <sys/mman.h>
#include "sljitLir.h"
#ifndef VPAGE
#define VPAGE 4096ul
#endif
#if (defined SLJIT_UTIL_SIMPLE_STACK_ALLOCATION && SLJIT_UTIL_SIMPLE_STACK_ALLOCATION)
#define SIMPLE 1
#else
#define SIMPLE 0
#endif
static const char *g_err; static char g_errb[240], g_txt[900];
#define SETERR(...) do { if (!g_err) { snprintf(g_errb, sizeof(g_errb), __VA_ARGS__); g_err = g_errb; } } while (0)
#define NR 4
#define RSZ (8 * VPAGE)
/* ---------------- system: regions of the pool are separated by unmapped pages */
static u8 *g_pool; static struct { u8 *p; uw len; int map; void *data; } rgn[NR + 8]; static int g_fail = -1, g_req; static void *g_data;
static struct { void *p; void *data; uw size; int live; } sm[16];
static u8 *region(int i) { return g_pool + VPAGE + (uw)i * (RSZ + VPAGE); }
static u8 *take(uw len, int map, void *data)
{
	int i; for (i = 0; i < NR; i++) if (!rgn[i].p) break;
	if (i == NR) die("pool"); if (len > RSZ) return NULL;
	/* what is not mapped by pages ends at the end of the region: nothing behind it may be used */
	rgn[i].p = map ? region(i) : region(i) + ((RSZ - len) & ~(uw)15); rgn[i].len = len; rgn[i].map = map; rgn[i].data = data;
	memset(region(i), map ? 0 : 0xcd, RSZ); return rgn[i].p;
}
void *verif_malloc2(unsigned long size, void *data)
{
	int i; if (data != g_data) SETERR("allocator data is %p", data);
	if (g_req++ == g_fail) return NULL;
	if (size <= 256 && size == sizeof(struct sljit_stack)) {
		for (i = 0; i < 16; i++) if (!sm[i].live) break; if (i == 16) die("blocks");
		sm[i].p = malloc(size); memset(sm[i].p, 0xcd, size); sm[i].data = data; sm[i].live = 1; return sm[i].p;
	}
	return take(size, 0, data);
}
void verif_free2(void *p, void *data)
{
	int i; if (!p) return;
	for (i = 0; i < 16; i++) if (sm[i].live && sm[i].p == p) { if (sm[i].data != data) SETERR("freed with other allocator data"); sm[i].live = 0; memset(p, 0xdd, sizeof(struct sljit_stack)); free(p); return; }
	for (i = 0; i < NR; i++) if (rgn[i].p == p && !rgn[i].map) { if (rgn[i].data != data) SETERR("freed with other allocator data"); memset(region(i), 0xee, RSZ); rgn[i].p = NULL; return; }
	SETERR("free of something else");
}
void *verif_mmap(void *a, unsigned long len, int prot, int flags, int fd, long off)
{
	u8 *p; if (g_req++ == g_fail) { errno = ENOMEM; return MAP_FAILED; }
	if (!len) { errno = EINVAL; return MAP_FAILED; }
	if ((prot & 7) != (PROT_READ | PROT_WRITE) || !(flags & MAP_ANONYMOUS) || !(flags & MAP_PRIVATE)) SETERR("mapping rights %d flags %d", prot, flags);
	p = len <= RSZ ? take((len + VPAGE - 1) & ~(VPAGE - 1), 1, NULL) : NULL; if (!p) { errno = ENOMEM; return MAP_FAILED; }
	return p;
}
int verif_munmap(void *a, unsigned long len)
{
	int i; len = (len + VPAGE - 1) & ~(VPAGE - 1);
	for (i = 0; i < NR; i++) if (rgn[i].p == (u8 *)a && rgn[i].map) { if (rgn[i].len != len) SETERR("munmap of %lu bytes, %lu are mapped", len, (unsigned long)rgn[i].len); memset(region(i), 0xee, RSZ); rgn[i].p = NULL; return 0; }
	SETERR("munmap of something else"); return -1;
}
int verif_madvise(void *a, unsigned long len, int advice)
{
	int i; u8 *p = a; len = (len + VPAGE - 1) & ~(VPAGE - 1);
	if (((uw)p & (VPAGE - 1)) || !len) return EINVAL;
	for (i = 0; i < NR; i++) if (rgn[i].p && rgn[i].map && p >= rgn[i].p && len <= rgn[i].len && p + len <= rgn[i].p + rgn[i].len) { if (advice == MADV_DONTNEED || advice == MADV_FREE || advice == POSIX_MADV_DONTNEED) memset(p, 0, len); return 0; }
	SETERR("advice for memory which is not part of a stack"); return -1;
}
long verif_sysconf(int n) { return (long)VPAGE; }
/* ---------------- model */
typedef struct { struct sljit_stack *s; u8 *min, *end, *start, *top; uw res; u8 *shadow; u8 tag; void *data; } stk;
static stk st[2]; static u8 g_sh[2][RSZ]; static int g_tagc; static u8 g_dat[2];
static void fillr(stk *k, u8 *from, u8 *to) { uw i; u8 t; if (from >= to) return; t = (u8)(++g_tagc * 29 + 1); memset(from, t, (uw)(to - from)); for (i = 0; i < (uw)(to - from); i += 256) from[i] = (u8)(i >> 8); memcpy(k->shadow + (from - k->min), from, (uw)(to - from)); }
static int inregion(u8 *p, uw len) { int i; for (i = 0; i < NR; i++) if (rgn[i].p && p >= rgn[i].p && len <= rgn[i].len && p + len <= rgn[i].p + rgn[i].len) return 1; return 0; }
static void state(const char *op)
{
	int i, n = 0, m = 0, l = 0; n_steps++;
	for (i = 0; i < 2 && !g_err; i++) {
		stk *k = &st[i]; if (!k->s) continue; l++;
		if (k->s->start != k->start || k->s->end != k->end || k->s->min_start != k->min || k->s->top != k->top) { SETERR("%s: stack %d reports min_start %+ld start %+ld end %+ld top %+ld of the expected values", op, i, (long)(k->s->min_start - k->min), (long)(k->s->start - k->start), (long)(k->s->end - k->end), (long)(k->s->top - k->top)); return; }
		if (!inregion(k->start, (uw)(k->end - k->start))) { SETERR("%s: stack %d is not in its memory", op, i); return; }
		if (memcmp(k->start, k->shadow + (k->start - k->min), (uw)(k->end - k->start))) { uw j; for (j = 0; k->start[j] == k->shadow[(uw)(k->start - k->min) + j]; j++); SETERR("%s: contents of stack %d change %lu bytes above its start (%lu bytes below its end)", op, i, (unsigned long)j, (unsigned long)((uw)(k->end - k->start) - j)); return; }
	}
	for (i = 0; i < 16; i++) n += sm[i].live; for (i = 0; i < NR; i++) m += rgn[i].p != NULL;
	if (n != l || m != l) SETERR("%s: %d blocks and %d regions belong to %d stacks", op, n, m, l);
}
static const struct { uw start, max; } al[] = { { 1, 1 }, { VPAGE, VPAGE }, { 1, VPAGE + 1 }, { VPAGE + 1, 3 * VPAGE }, { 3 * VPAGE, 3 * VPAGE }, { 5, 4 * VPAGE + 5 }, { 2 * VPAGE, 4 * VPAGE - 1 },
	{ 0, VPAGE }, { 2, 1 }, { 0, 0 }, { 1, ~(uw)0 }, { ~(uw)0, ~(uw)0 }, { 100, ~(uw)0 - VPAGE + 2 }, { 7, ~(uw)0 - VPAGE + 1 }, { VPAGE, ~(uw)0 / 2 + 1 } };
#define NAL 15
#define NGOOD 7
static void do_alloc(int i, int a, int fail)
{
	stk *k = &st[i]; struct sljit_stack *s; uw sz = al[a].max; int bad = a >= NGOOD; k->data = i ? NULL : g_dat; g_data = k->data; g_fail = fail; g_req = 0;
	s = sljit_allocate_stack(al[a].start, al[a].max, k->data); g_fail = -1; if (g_err) return;
	if (bad || fail >= 0) { if (s) SETERR("a stack is allocated"); return; }
	if (!s) { SETERR("no stack is allocated"); return; }
	k->s = s; k->min = s->min_start; k->end = s->end; k->start = s->start; k->top = s->end; k->shadow = g_sh[i]; k->res = (uw)(k->end - k->min);
	if (k->res < sz || k->res >= sz + VPAGE || (SIMPLE && k->res != sz)) { SETERR("%lu bytes are reserved", (unsigned long)k->res); k->s = NULL; return; }
	if ((uw)(k->end - k->start) != al[a].start) { SETERR("the size of the stack is %ld", (long)(k->end - k->start)); return; }
	if (!inregion(k->min, k->res)) { SETERR("the reserved range is not in its memory"); return; }
	fillr(k, k->start, k->end);
}
#define NT 20
static u8 *target(stk *k, int t)
{
	switch (t) {
	case 0: return k->min - 1; case 1: return k->min; case 2: return k->min + 1; case 3: return k->min + VPAGE - 1; case 4: return k->min + VPAGE; case 5: return k->min + VPAGE + 1; case 6: return k->min + 2 * VPAGE;
	case 7: return k->end - 1; case 8: return k->end; case 9: return k->end + 1; case 10: return k->end - VPAGE; case 11: return k->end - VPAGE - 1; case 12: return k->end - VPAGE + 1; case 13: return k->end - 2 * VPAGE;
	case 14: return k->start; case 15: return k->start - 1; case 16: return k->start + 1; case 17: return NULL; case 18: return (u8 *)~(uw)0; default: return k->start + VPAGE;
	}
}
static int same(stk *k, int t) { int j; for (j = 0; j < t; j++) if (target(k, j) == target(k, t)) return 1; return 0; }
static void do_resize(int i, int t)
{
	stk *k = &st[i]; u8 *n = target(k, t), *r; int ok = n >= k->min && n < k->end; g_req = 0; r = sljit_stack_resize(k->s, n); if (g_err) return;
	if (!ok) { if (r) SETERR("a resize outside of the reserved range succeeds"); return; }
	if (r != n) { SETERR("the resize returns %s", r ? "something else" : "NULL"); return; }
	if (n < k->start) { u8 *o = k->start; k->start = n; fillr(k, n, o); } else k->start = n;
	/* the top pointer belongs to the user */
	k->s->top = k->top = k->end - (k->end - k->start) / 2;
}
static void do_free(int i) { stk *k = &st[i]; sljit_free_stack(k->s, k->data); k->s = NULL; }
/* ops: alloc 0..NAL-1 per stack, denied allocation (a good one, request 0 or 1), resize, free */
typedef struct { u8 kind, s, a, f; } hop; static hop hist[12]; static int g_depth, g_two;
static void htext(int n)
{
	int i; char *p = g_txt; p += sprintf(p, "page %lu%s:", VPAGE, SIMPLE ? " simple" : "");
	static const char *tn[] = { "min_start-1", "min_start", "min_start+1", "min_start+page-1", "min_start+page", "min_start+page+1", "min_start+2page", "end-1", "end", "end+1", "end-page", "end-page-1", "end-page+1", "end-2page", "start", "start-1", "start+1", "NULL", "last address", "start+page" };
	for (i = 0; i < n; i++) { hop *o = &hist[i]; if (o->kind == 0) p += sprintf(p, " %d=allocate(%#lx,%#lx)", o->s, (unsigned long)al[o->a].start, (unsigned long)al[o->a].max); else if (o->kind == 1) p += sprintf(p, " denied%d-allocate(%#lx)", o->f, (unsigned long)al[o->a].max); else if (o->kind == 2) p += sprintf(p, " resize(%d,%s)", o->s, tn[o->a]); else p += sprintf(p, " free(%d)", o->s); }
}
static int apply(hop *o)
{
	switch (o->kind) { case 0: do_alloc(o->s, o->a, -1); state("allocate"); break; case 1: do_alloc(o->s, o->a, o->f); state("denied allocation"); break; case 2: if (same(&st[o->s], o->a)) return 0; do_resize(o->s, o->a); state("resize"); break; default: do_free(o->s); state("free"); }
	return 1;
}
static void replay(int n)
{
	int i; g_phase = "history"; g_tagc = 0; memset(rgn, 0, sizeof(rgn)); st[0].s = st[1].s = NULL;
	for (i = 0; i < n; i++) { if (!apply(&hist[i])) { n = i; break; } if (g_err) { n = i + 1; break; } }
	n_runs++;
	for (i = 0; i < 2 && !g_err; i++) if (st[i].s) { do_free(i); state("final free"); }
	if (g_err) { htext(n); violation(g_cur, "stack", "%s | %s", g_txt, g_err); g_err = NULL; for (i = 0; i < 16; i++) sm[i].live = 0; }
}
static void dfs(int d, int live)
{
	int s, a, ns = g_two ? 2 : 1; hop *o = &hist[d];
	if (d == 2) { if (!mine()) return; g_cur = g_idx - 1; TICK(); htext(2); g_crash_txt = g_txt; }
	if (d == g_depth) { replay(d); n_states++; return; }
	for (s = 0; s < ns; s++) {
		if (!(live & (1 << s))) {
			if (s && !(live & 1) && d == 0) continue;
			for (a = 0; a < NAL; a++) { if (g_two && a >= NGOOD && a != 8 && a != 10) continue; o->kind = 0; o->s = (u8)s; o->a = (u8)a; dfs(d + 1, a < NGOOD ? live | (1 << s) : live); }
			for (a = 0; a < 2; a++) { o->kind = 1; o->s = (u8)s; o->a = 3; o->f = (u8)a; dfs(d + 1, live); }
		} else {
			for (a = 0; a < NT; a++) { if (g_two && (a == 3 || a == 5 || a == 11 || a == 12 || a == 16 || a == 18)) continue; o->kind = 2; o->s = (u8)s; o->a = (u8)a; dfs(d + 1, live); }
			o->kind = 3; o->s = (u8)s; dfs(d + 1, live & ~(1 << s));
		}
	}
}
int main(int argc, char **argv)
{
	int i, dp = 0;
	parse_args(argc, argv); g_suite = "stack";
	g_pool = mmap(NULL, (RSZ + VPAGE) * NR + 2 * VPAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (g_pool == MAP_FAILED) die("mmap");
	g_pool = (u8 *)(((uw)g_pool + VPAGE - 1) & ~(VPAGE - 1));
	for (i = 0; i < NR; i++) if (mprotect(region(i), RSZ, PROT_READ | PROT_WRITE)) die("mprotect");
#if !defined __x86_64__
	dp = -1;
#endif
	if (VPAGE > 4096) dp--;
	if (g_thorough) dp++;
	g_two = 0; g_depth = 5 + dp; dfs(0, 0); g_two = 1; g_depth = 5 + dp; dfs(0, 0);
	if (!g_nsamples) { htext(2); snprintf(g_samples[g_nsamples++], 600, "%s ...", g_txt); }
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); return 0;
}
