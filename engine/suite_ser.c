/* P10: the compiler is serialized, restored in a new compiler and continued after any API call of any program over the
   alphabet (one cut, all cuts, pairs of cuts); the code and the label / jump / constant lists must be those of the
   uninterrupted compilation. Truncated buffers lie against an inaccessible page and must be refused without leaking. */
#include "eng.h"
#include "alpha.h"
#include <sys/mman.h>
#define BUFSZ 16384
#define MAXL 256
static u8 g_fill; static long g_live;
void *verif_malloc(unsigned long size) { void *p = malloc(size); if (p) { memset(p, g_fill, size); g_live++; } return p; }
void verif_free(void *p) { if (p) g_live--; free(p); }
int verif_printf(const char *fmt, ...) { return (int)strlen(fmt); }
void verif_flush(void *a, void *b) { if (a < b) __builtin___clear_cache((char *)a, (char *)b); }
static int g_ids[8], g_len; static u8 *g_buf, *g_guard; static uw g_guardsz;
static u64 g_count, g_cut1, g_cut2; static int g_mode, g_failed;
enum { PLAIN, SWITCH, EVERY, KEEP, TRUNC };
static void bad(const char *key, const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); g_failed = 1;
	violation(g_cur, key, "%s | mode %d, serialized after call %ld (%ld) | %s", al_txt, g_mode, (long)g_cut1, (long)g_cut2, b); }
/* pointers are translated by their place in the lists */
static void *tr_label(struct sljit_compiler *a, struct sljit_compiler *b, void *p)
{
	struct sljit_label *x = sljit_get_first_label(a), *y = sljit_get_first_label(b);
	for (; x && y; x = sljit_get_next_label(x), y = sljit_get_next_label(y)) if ((void *)x == p) return y;
	return p;
}
static void *tr_jump(struct sljit_compiler *a, struct sljit_compiler *b, void *p)
{
	struct sljit_jump *x = sljit_get_first_jump(a), *y = sljit_get_first_jump(b);
	for (; x && y; x = sljit_get_next_jump(x), y = sljit_get_next_jump(y)) if ((void *)x == p) return y;
	return p;
}
static void *tr_const(struct sljit_compiler *a, struct sljit_compiler *b, void *p)
{
	struct sljit_const *x = sljit_get_first_const(a), *y = sljit_get_first_const(b);
	for (; x && y; x = sljit_get_next_const(x), y = sljit_get_next_const(y)) if ((void *)x == p) return y;
	return p;
}
/* the lists of two compilers describe the same thing */
static int same_lists(struct sljit_compiler *a, struct sljit_compiler *b)
{
	struct sljit_label *l = sljit_get_first_label(a), *m = sljit_get_first_label(b); struct sljit_jump *j = sljit_get_first_jump(a), *k = sljit_get_first_jump(b);
	struct sljit_const *p = sljit_get_first_const(a), *q = sljit_get_first_const(b); int n = 0;
	for (; l && m; l = sljit_get_next_label(l), m = sljit_get_next_label(m), n++) if (sljit_get_label_index(l) != sljit_get_label_index(m)) { bad("labels", "label %d has index %d instead of %d", n, (int)sljit_get_label_index(m), (int)sljit_get_label_index(l)); return 0; }
	if (l || m) { bad("labels", "number of labels"); return 0; }
	for (n = 0; j && k; j = sljit_get_next_jump(j), k = sljit_get_next_jump(k), n++) {
		if (!sljit_jump_has_label(j) != !sljit_jump_has_label(k) || !sljit_jump_has_target(j) != !sljit_jump_has_target(k) || !sljit_jump_is_mov_addr(j) != !sljit_jump_is_mov_addr(k)) { bad("jumps", "kind of jump %d", n); return 0; }
		if (sljit_jump_has_label(j) && sljit_get_label_index(sljit_jump_get_label(j)) != sljit_get_label_index(sljit_jump_get_label(k))) { bad("jumps", "label of jump %d", n); return 0; }
		if (sljit_jump_has_label(j) && tr_label(a, b, sljit_jump_get_label(j)) != (void *)sljit_jump_get_label(k)) { bad("jumps", "label of jump %d is not in the list", n); return 0; }
		if (sljit_jump_has_target(j) && sljit_jump_get_target(j) != sljit_jump_get_target(k)) { bad("jumps", "target of jump %d", n); return 0; }
	}
	if (j || k) { bad("jumps", "number of jumps"); return 0; }
	for (; p && q; p = sljit_get_next_const(p), q = sljit_get_next_const(q));
	if (p || q) { bad("consts", "number of constants"); return 0; }
	return 1;
}
static void truncated(uw *ser, uw size)
{
	uw s; struct sljit_compiler *c; long live = g_live;
	if (size + 16 > g_guardsz) return;
	for (s = 0; s < size; s++) {
		if (s % sizeof(uw) && s + 2 * sizeof(uw) < size && s > 3 * sizeof(uw)) continue;   /* sizes which are no multiple of a word: at both ends */
		n_steps++; memcpy(g_guard + ((g_guardsz - s) & ~(sizeof(uw) - 1)), ser, s);
		g_phase = "deserialize truncated"; c = sljit_deserialize_compiler((uw *)(g_guard + ((g_guardsz - s) & ~(sizeof(uw) - 1))), s, 0, NULL);
		if (c) { bad("truncated", "%d bytes of %d are accepted", (int)s, (int)size); sljit_free_compiler(c); return; }
		if (g_live != live) { bad("truncated", "%d bytes of %d: memory is leaked (%d pieces)", (int)s, (int)size, (int)(g_live - live)); return; }
	}
	for (s = 0; s < 4; s++) { /* other signature or version */
		memcpy(g_guard, ser, size); ((u16 *)g_guard)[s % 3] ^= 0x40; n_steps++;
		if ((c = sljit_deserialize_compiler((uw *)g_guard, size, 0, NULL))) { bad("foreign", "a buffer with a different signature or version is accepted"); sljit_free_compiler(c); return; }
	}
#if (defined SLJIT_DEBUG && SLJIT_DEBUG) || (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
	{ uw z; uw *t = sljit_serialize_compiler(al.c, SLJIT_SERIALIZE_IGNORE_DEBUG, &z); live = g_live; if (!t) { bad("serialize", "without debug info"); return; }
	if (z >= size) bad("ignore", "debug information is not left out"); if ((c = sljit_deserialize_compiler(t, z, 0, NULL))) { bad("ignore", "a buffer without debug information is accepted"); sljit_free_compiler(c); } else if (g_live != live) bad("ignore", "memory is leaked");
	verif_free(t); }
#endif
}
static void cut(void)
{
	uw size = 1, *s; struct sljit_compiler *c2; int i; long live;
	g_phase = "serialize"; s = sljit_serialize_compiler(al.c, 0, &size); n_steps++;
	if (!s) { bad("serialize", "refused, error %d", sljit_get_compiler_error(al.c)); al.stop = 1; return; }
	if (size % sizeof(uw) || !size) bad("serialize", "size %d", (int)size);
	if (g_mode == TRUNC) truncated(s, size);
	if (g_mode == KEEP || g_mode == TRUNC) { verif_free(s); return; }
	/* exactly `size` bytes are readable */
	if (size + 16 < g_guardsz) { memcpy(g_guard + g_guardsz - size, s, size); verif_free(s); s = (uw *)(g_guard + g_guardsz - size); live = -1; } else live = 0;
	g_phase = "deserialize"; g_fill ^= 0xff; c2 = sljit_deserialize_compiler(s, size, 0, NULL);
	if (!live) verif_free(s); else memset(s, 0xee, size);
	if (!c2) { bad("deserialize", "refused"); al.stop = 1; return; }
	if (sljit_get_compiler_error(c2)) { bad("deserialize", "error %d", sljit_get_compiler_error(c2)); }
	same_lists(al.c, c2);
	for (i = 0; i < AL_MAXJ; i++) if (al.j[i].j) al.j[i].j = tr_jump(al.c, c2, al.j[i].j);
	for (i = 0; i < AL_MAXL; i++) if (al.l[i]) al.l[i] = tr_label(al.c, c2, al.l[i]);
	for (i = 0; i < 16; i++) if (al.k[i]) al.k[i] = tr_const(al.c, c2, al.k[i]);
	for (i = 0; i < 24; i++) if (al.rb[i].u.label) al.rb[i].u.label = tr_label(al.c, c2, al.rb[i].u.label);
	if (al.tj) al.tj = tr_jump(al.c, c2, al.tj);
	sljit_free_compiler(al.c); al.c = c2; n_states++;
}
static void hook(void)
{
	u64 k = g_count++;
	if (al.stop || g_failed) return;
	switch (g_mode) {
	case SWITCH: if (k == g_cut1 || k == g_cut2) cut(); break;
	case EVERY: case KEEP: g_cut1 = k; cut(); break;
	case TRUNC: if (k == g_cut1) cut(); break;
	}
	g_phase = "compile";
}
static u8 g_rbytes[BUFSZ]; static uw g_n; static uw g_raddr[MAXL * 3]; static int g_nraddr;
static u64 g_calls;
/* compiles the program; the reference is kept by the first call */
static int compile(int mode, u64 c1, u64 c2)
{
	struct sljit_generate_code_buffer b; void *code; int n = 0, i, err, ref = mode == PLAIN; uw size; uw ad[MAXL * 3]; long live = g_live;
	struct sljit_label *l; struct sljit_jump *j; struct sljit_const *k;
	TICK(); g_mode = mode; g_cut1 = c1; g_cut2 = c2; g_count = 0; g_phase = "compile"; g_fill = ref ? 0 : 0xa5; n_progs++; g_failed = 0;
	al_reset(sljit_create_compiler(NULL)); al_hook = hook;
	hook(); al_program(g_ids, g_len); al_hook = NULL;
	if (g_failed) { sljit_free_compiler(al.c); return 0; }
	if (sljit_get_compiler_error(al.c)) { bad("compile", "error %d", sljit_get_compiler_error(al.c)); sljit_free_compiler(al.c); return 0; }
	memset(g_buf, 0xcc, BUFSZ); b.buffer = g_buf; b.size = BUFSZ - 64; b.executable_offset = 0; g_phase = "generate";
	code = sljit_generate_code(al.c, SLJIT_GENERATE_CODE_BUFFER, &b); size = sljit_get_generated_code_size(al.c); err = sljit_get_compiler_error(al.c);
	if (!code) { bad("generate", "error %d", err); sljit_free_compiler(al.c); return 0; }
	for (l = sljit_get_first_label(al.c); l && n < MAXL; l = sljit_get_next_label(l)) ad[n++] = sljit_get_label_addr(l);
	for (j = sljit_get_first_jump(al.c); j && n < 2 * MAXL; j = sljit_get_next_jump(j)) ad[n++] = sljit_get_jump_addr(j);
	for (k = sljit_get_first_const(al.c); k && n < 3 * MAXL; k = sljit_get_next_const(k)) ad[n++] = sljit_get_const_addr(k);
	for (i = 0; i < al.nrb; i++) { struct sljit_label *x = al.rb[i].u.label; ad[n++] = x ? sljit_get_label_addr(x) : 0; }
	if (ref) { g_calls = g_count; g_n = size; memcpy(g_rbytes, g_buf, BUFSZ); memcpy(g_raddr, ad, sizeof(ad)); g_nraddr = n; }
	else if (size != g_n) { bad("size", "%d bytes instead of %d", (int)size, (int)g_n); }
	else if (memcmp(g_rbytes, g_buf, BUFSZ)) { for (i = 0; g_rbytes[i] == g_buf[i]; i++); bad("bytes", "byte %d of %d is %02x instead of %02x", i, (int)g_n, g_buf[i], g_rbytes[i]); }
	else if (n != g_nraddr) bad("lists", "number of labels, jumps, constants");
	else if (memcmp(ad, g_raddr, (size_t)n * sizeof(uw))) { for (i = 0; ad[i] == g_raddr[i]; i++); bad("lists", "address %d of the labels, jumps and constants differs", i); }
	sljit_free_compiler(al.c);
	if (!g_failed && g_live != live) bad("leak", "%d pieces of memory", (int)(g_live - live));
	return !g_failed;
}
/* depth 0: cuts within the items only; 1: all cuts; 2: all pairs of cuts */
static void prog(int depth)
{
	u64 k, m; u64 first;
	g_cur = g_idx - 1; al_text(g_ids, g_len); al_init_mem();
	if (!compile(PLAIN, 0, 0)) return;
	n_runs++; first = 0; (void)first;
	if (!compile(EVERY, 0, ~(u64)0) || !compile(KEEP, 0, ~(u64)0)) return;
	for (k = depth ? 0 : 16; k < g_calls; k++) if (!compile(SWITCH, k, ~(u64)0)) return;
	if (depth >= 1) for (k = 0; k < g_calls; k += 3) if (!compile(TRUNC, k, ~(u64)0)) return;
	if (depth == 2) for (k = 0; k < g_calls; k++) for (m = k + 1; m < g_calls; m++) if (!compile(SWITCH, k, m)) return;
	if (g_nsamples < 6 && (g_cur % 97) == 0) snprintf(g_samples[g_nsamples++], 700, "%s: %d cut points, %d bytes of code", al_txt, (int)g_calls, (int)g_n);
}
int main(int argc, char **argv)
{
	int a, b, c2; long x;
	parse_args(argc, argv); g_suite = "ser"; al_init_mem();
	g_buf = mmap(NULL, BUFSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	g_guardsz = 65536; g_guard = mmap(NULL, 2 * g_guardsz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g_buf == MAP_FAILED || g_guard == MAP_FAILED || mprotect(g_guard, g_guardsz, PROT_READ | PROT_WRITE)) die("mmap");
	for (a = -1; a < AL_N; a++) { if (!mine()) continue; g_len = a >= 0; g_ids[0] = a; prog(g_thorough ? 2 : 1); }
	for (a = 0; a < AL_N; a++) for (b = 0; b < AL_N; b++) { if (!g_thorough && (a * 5 + b) % 3) continue; if (!mine()) continue; g_len = 2; g_ids[0] = a; g_ids[1] = b; prog(g_thorough && (a + b) % 8 == 0); }
	for (a = 0, x = 0; a < AL_NCORE; a++) for (b = 0; b < AL_NCORE; b++) for (c2 = 0; c2 < AL_NCORE; c2++, x++) { if (x % (g_thorough ? 3 : 40) != 0) continue; if (!mine()) continue; g_len = 3; g_ids[0] = al_core[a]; g_ids[1] = al_core[b]; g_ids[2] = al_core[c2]; prog(0); }
	/* long programs: several memory fragments, constant pools */
	for (a = 0; a < AL_N; a++) { int i; if (!mine()) continue; g_len = 8; for (i = 0; i < 8; i++) g_ids[i] = i & 1 ? 68 : (a + i * 5) % AL_N; g_cut1 = 0; prog(g_thorough); }
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
