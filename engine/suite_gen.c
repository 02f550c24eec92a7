/* P09: every program over the alphabet up to a length is compiled repeatedly in different surroundings (leftover heap and
   stack contents, diagnostics, another compiler at work in between, buffer contents, buffer sizes, allocator memory, separate
   writable and executable mappings); the code, its extent and its results must not depend on them. */
#include <fcntl.h>
#include "eng.h"
#include "maps.h"
#include "alpha.h"
#if !(defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) && !(defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
#define FLUSHES 1
#else
#define FLUSHES 0
#endif
#if defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR
#define DUAL 1
#else
#define DUAL 0
#endif
static u8 g_fill; static int g_printed; static struct { uw a, b; } g_fl[64]; static int g_nfl;
void *verif_malloc(unsigned long size) { void *p = malloc(size); if (p) memset(p, g_fill, size); return p; }
void verif_free(void *p) { free(p); }
int verif_printf(const char *fmt, ...) { g_printed++; return (int)strlen(fmt); }
void verif_flush(void *a, void *b) { if (g_nfl < 64) { g_fl[g_nfl].a = (uw)a; g_fl[g_nfl++].b = (uw)b; } if (DUAL && g_execoff && (uw)a >= (uw)g_reg + (uw)g_execoff && (uw)b <= (uw)g_reg + (uw)g_execoff + g_regsz && a != b) remap_flush((uw)a, (uw)b - (uw)a); }
static void __attribute__((noinline)) paint(int v) { volatile u8 b[12000]; memset((void *)b, v, sizeof(b)); }
static void bad(const char *key, const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); violation(g_cur, key, "%s | %s", al_txt, b); }
/* alignment gaps in front of a constant pool are not written */
#if defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
#define POOLGAP 32
#elif defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6
#define POOLGAP 48
#else
#define POOLGAP 0
#endif
/* a second compiler that works between the calls of the first one */
static struct sljit_compiler *g_c2; static int g_k2, g_k2s;
static void other(void)
{
	struct sljit_compiler *c = g_c2;
	if (g_k2 == g_k2s && (g_k2 % 9 == 1 || g_k2 % 9 == 8)) { g_k2++; return; } /* no flags yet */
	switch (g_k2++ % 9) {
	case 0: sljit_emit_op2(c, SLJIT_ADD | SLJIT_SET_Z, SLJIT_R0, 0, SLJIT_R1, 0, SLJIT_IMM, 0x123456); break;
	case 1: sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_ZERO); break;
	case 2: sljit_emit_fop2(c, SLJIT_ADD_F64, SLJIT_FR0, 0, SLJIT_FR1, 0, SLJIT_MEM1(SLJIT_SP), 8); break;
	case 3: sljit_set_label(sljit_emit_cmp(c, SLJIT_LESS, SLJIT_R0, 0, SLJIT_IMM, 5), sljit_emit_label(c)); break;
	case 4: sljit_emit_const(c, SLJIT_MOV, SLJIT_R0, 0, -1); break;
	case 5: sljit_emit_op1(c, SLJIT_MOV32, SLJIT_MEM1(SLJIT_SP), 16, SLJIT_IMM, 0x778899); break;
	case 6: sljit_emit_fset64(c, SLJIT_FR0, 1.0); break;
	case 7: sljit_emit_op2(c, SLJIT_MUL | SLJIT_SET_OVERFLOW, SLJIT_R0, 0, SLJIT_R1, 0, SLJIT_R1, 0); break;
	default: sljit_emit_op_flags(c, SLJIT_XOR, SLJIT_R1, 0, SLJIT_OVERFLOW); break;
	}
}
#define BUFSZ 32768
static u8 *g_buf; static FILE *g_verb; static char *g_vtext; static size_t g_vlen;
static u8 g_rbytes[BUFSZ]; static uw g_n; static u64 g_h;
typedef struct { u8 heap, stack, fill; int verb, two; uw size; uw place; } var_t;
static int g_ids[8], g_len; static void *g_code; static uw g_size; static int g_err;
static uw g_robytes;
static int compile(var_t *v)
{
	struct sljit_compiler *c; struct sljit_generate_code_buffer b; int i;
	TICK(); g_phase = "compile"; g_fill = v->heap; g_printed = 0; g_nfl = 0;
	paint(v->stack); c = sljit_create_compiler(NULL); if (!c) die("compiler");
	if (v->two) { g_c2 = sljit_create_compiler(NULL); g_k2 = g_k2s = v->two; sljit_emit_enter(g_c2, 0, SLJIT_ARGS1(W, W), 3 | SLJIT_ENTER_FLOAT(3), 2, 64); al_hook = other; } else al_hook = NULL;
	if (v->verb) { g_verb = open_memstream(&g_vtext, &g_vlen); sljit_compiler_verbose(c, g_verb); }
	al_reset(c); paint(v->stack); al_program(g_ids, g_len); al_hook = NULL;
	for (i = 0, g_robytes = 0; i < al.nrb; i++) g_robytes += al.rb[i].size;
	if (v->verb) { fflush(g_verb); if (!g_vlen) bad("verbose", "no diagnostics"); }
	if (sljit_get_compiler_error(c)) { bad("compile", "error %d", sljit_get_compiler_error(c)); return 0; }
	memset(g_buf + v->place - 64, v->fill, BUFSZ - v->place); b.buffer = g_buf + v->place; b.size = v->size; b.executable_offset = g_execoff;
	paint(v->stack); g_phase = "generate"; n_steps++; n_progs++;
	g_code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b); g_err = sljit_get_compiler_error(c); g_size = sljit_get_generated_code_size(c);
	if (v->verb) { fclose(g_verb); free(g_vtext); }
	sljit_free_compiler(c);
	if (v->two) { if (sljit_get_compiler_error(g_c2)) bad("second", "the other compiler fails with %d", sljit_get_compiler_error(g_c2)); sljit_free_compiler(g_c2); }
	return 1;
}
/* everything outside of [place, place + n) still holds the fill value */
static int untouched(var_t *v, uw n)
{
	uw i; for (i = 0; i < 64; i++) if (g_buf[v->place - 64 + i] != v->fill) { bad("extent", "a byte %d before the buffer was written", (int)(64 - i)); return 0; }
	for (i = v->place + n; i < BUFSZ - 64; i++) if (g_buf[i] != v->fill) { bad("extent", "byte %d is written, buffer size %d, limit %d", (int)(i - v->place), (int)v->size, (int)n); return 0; }
	return 1;
}
static int same(var_t *v, const char *what)
{
	uw i, un = 0;
	if (g_dump && g_code) { FILE *f = fopen("/tmp/eng_dump2.bin", "wb"); fwrite(g_buf + v->place, 1, g_size, f); fclose(f); }
	if (!g_code) { bad("generate", "%s: error %d", what, g_err); return 0; }
	if (g_size != g_n) { bad("size", "%s: size %d instead of %d", what, (int)g_size, (int)g_n); return 0; }
	for (i = 0; i < g_n; i++) if (g_buf[v->place + i] != g_rbytes[i]) { if (g_rbytes[i] == 0xcc && g_buf[v->place + i] == v->fill && v->fill != 0xcc && ++un <= g_robytes + POOLGAP) continue;
		bad("bytes", "%s: byte %d of %d is %02x instead of %02x", what, (int)i, (int)g_n, g_buf[v->place + i], g_rbytes[i]); return 0; }
	return untouched(v, v->size);
}
static int fits(var_t *r, uw s, int *acc)
{
	var_t v = *r; v.heap = 0; v.size = s; v.fill = 0x77; if (!compile(&v)) return 0;
	if (g_code) { if (s < g_n) { bad("buffer", "code of %d bytes is accepted into a buffer of %d", (int)g_size, (int)s); return 0; } if (!same(&v, "exact buffer")) return 0; *acc = 1; return 1; }
	if (g_err != SLJIT_ERR_EX_ALLOC_FAILED) { bad("buffer", "error %d for a small buffer (%d)", g_err, (int)s); return 0; }
	if (*acc) { bad("buffer", "a buffer of %d bytes is refused, a smaller one was accepted", (int)s); return 0; }
	if (s > g_n + 1000) { bad("buffer", "a buffer of %d bytes is refused for %d bytes of code", (int)s, (int)g_n); return 0; }
	return untouched(&v, 0);
}
static void prog(int full)
{
	var_t r = { 0, 0, 0xcc, 0, 0, BUFSZ - 1024, 256 }, v; uw s, i, lo, hi; u64 h; int acc = 0;
	g_cur = g_idx - 1; al_text(g_ids, g_len);
	al_init_mem(); if (!compile(&r)) return;
	if (!g_code) { bad("generate", "error %d", g_err); return; }
	g_n = g_size; memcpy(g_rbytes, g_buf + r.place, g_n); n_states++;
	if (g_dump) { FILE *f = fopen("/tmp/eng_dump.bin", "wb"); fwrite(g_rbytes, 1, g_n, f); fclose(f); printf("code %p size %d\n", g_code, (int)g_n); fflush(stdout); }
	if (!untouched(&r, r.size)) return;
	if (FLUSHES) { uw e = (uw)g_buf + r.place + (uw)g_execoff, x = e; int q; for (q = 0; q < g_nfl; q++) if (g_fl[q].a <= x && g_fl[q].b > x) { x = g_fl[q].b; q = -1; } if (x < e + g_n) { bad("flush", "code is flushed up to offset %d of %d only", (int)(x - e), (int)g_n); return; } }
	g_phase = "run"; n_runs++; g_h = al_run(g_code);
	if (DUAL) { return; }
	v = r; v.heap = 0xff; v.stack = 0xff; v.fill = 0x33; v.verb = 1; if (!compile(&v)) return;
	if (g_printed) { bad("verbose", "diagnostics are written to the standard output"); return; }
	if (!same(&v, "other heap, stack and buffer contents, diagnostics on")) return;
	v = r; v.heap = 0xa5; v.stack = 0x5a; v.two = 1 + (int)(g_idx % 9); if (!compile(&v) || !same(&v, "another compiler at work")) return;
	/* buffer sizes: a buffer is refused without being touched, or everything is inside of it */
	for (i = 0; full && i < g_n + 100; i++) if (!fits(&r, i, &acc)) return;
	if (!full) { /* the smallest accepted size */
		if (!fits(&r, 0, &acc) || !fits(&r, g_n - 1, &acc)) return;
		for (lo = g_n - 1, hi = g_n + 1024; hi - lo > 1; ) { s = (lo + hi) / 2; acc = 0; if (!fits(&r, s, &acc)) return; if (acc) hi = s; else lo = s; }
	}
	/* allocator memory */
	{ struct sljit_compiler *c; void *p; g_fill = 0x11; paint(3); c = sljit_create_compiler(NULL); al_reset(c); al_program(g_ids, g_len); g_phase = "generate (allocator)"; p = sljit_generate_code(c, 0, NULL);
	if (!p) { bad("generate", "error %d in allocator memory", sljit_get_compiler_error(c)); sljit_free_compiler(c); return; }
	sljit_free_compiler(c); g_phase = "run (allocator)"; n_runs++; h = al_run(p); sljit_free_code(p, NULL);
	if (h != g_h) { bad("run", "the result in allocator memory differs"); return; } }
	g_phase = "run again"; 
	if (g_nsamples < 6 && (g_cur % 97) == 0) snprintf(g_samples[g_nsamples++], 700, "%s: %d bytes of code", al_txt, (int)g_n);
}
/* the same code at another place and with separate mappings gives the same result */
static u64 g_hplain; 
static void dual(void)
{
	u8 *b0 = g_buf, *rw = NULL; uw n; (void)rw; static u8 *plain; sw off = g_execoff;
	if (!plain) { plain = mmap(NULL, BUFSZ, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (plain == MAP_FAILED) die("mmap"); }
	g_buf = plain; g_execoff = 0; prog(0); g_hplain = g_h; n = g_n; g_buf = b0; g_execoff = off;
	remap_flush((uw)g_buf + (uw)g_execoff, BUFSZ);
	prog(0); if (g_h != g_hplain) bad("run", "the result with separate mappings differs"); (void)n;
}
int main(int argc, char **argv)
{
	int a, b, c2; long x;
	parse_args(argc, argv); g_suite = "gen"; al_init_mem();
	if (DUAL) { if (!region((uw)0x30000000, 1 << 20, 0x4001000)) die("region"); g_buf = g_reg; }
	else { g_buf = mmap(NULL, BUFSZ, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (g_buf == MAP_FAILED) die("mmap"); }
	for (a = -1; a < AL_N; a++) { if (!mine()) continue; g_len = a >= 0; g_ids[0] = a; if (DUAL) dual(); else prog(1); }
	for (a = 0; a < AL_N; a++) for (b = 0; b < AL_N; b++) { if (!g_thorough && (a * 5 + b) % (DUAL ? 6 : 2)) continue; if (!mine()) continue; g_len = 2; g_ids[0] = a; g_ids[1] = b; if (DUAL) dual(); else prog(g_thorough && !DUAL && (a + b) % 8 == 0); }
	for (a = 0, x = 0; a < AL_NCORE; a++) for (b = 0; b < AL_NCORE; b++) for (c2 = 0; c2 < AL_NCORE; c2++, x++) { if (x % (g_thorough ? 2 : DUAL ? 60 : 16) != 0) continue; if (!mine()) continue; g_len = 3; g_ids[0] = al_core[a]; g_ids[1] = al_core[b]; g_ids[2] = al_core[c2]; if (DUAL) dual(); else prog(0); }
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
