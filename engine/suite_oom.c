/* P11: every memory request (block, executable mapping, temporary file) made by programs over the alphabet is denied, alone
   and together with all later ones. The error must be reported, stay, and nothing may leak or be overwritten. */
#include <errno.h>
#include "eng.h"
#include "alpha.h"
#include "oommem.h"
#include "sljitLir.h"
static int g_ids[8], g_len, g_failed, g_err0; static const char *g_what = ""; static u64 g_cases;
const char *__asan_default_options(void) { return "abort_on_error=1:handle_segv=0:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=0"; }
static void bad(const char *key, const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); g_failed = 1;
	violation(g_cur, key, "%s | %s, request %ld%s denied | %s", al_txt, g_what, (long)g_deny, g_forever ? " and later ones" : "", b); }
static int expected(void) { return !g_denied ? SLJIT_SUCCESS : g_deniedk == K_MALLOC ? SLJIT_ERR_ALLOC_FAILED : SLJIT_ERR_EX_ALLOC_FAILED; }
static void status(int is_ptr, s32 st, void *p)
{
	s32 e = sljit_get_compiler_error(al.c); n_steps++;
	if (g_failed) return;
	if (e != expected()) { bad("error", "compiler error is %d after call %ld", e, (long)al.calls); return; }
	if (e && is_ptr && p) { bad("status", "call %ld returns a pointer", (long)al.calls); return; }
	if (!is_ptr && st != e && !(st == SLJIT_ERR_UNSUPPORTED && !e)) { bad("status", "call %ld returns %d, the error is %d", (long)al.calls, st, e); return; }
}
static void balance(long live, long maps)
{
	sljit_free_unused_memory_exec(); blk_check();
	if (g_memerr) { bad("memory", "%s", g_memerr); g_memerr = NULL; }
	if (g_live != live) bad("leak", "%ld blocks", g_live - live);
	if (g_maps != maps) bad("leak", "%ld bytes of mappings", g_maps - maps);
	if (g_fds) bad("leak", "%ld file descriptors", g_fds);
}
static u64 g_h; static uw g_n;
/* programs with many labels, jumps and constants: further blocks are requested for each kind of object */
static int g_many, g_manyn;
static void many_program(void)
{
	int i, k = g_many; static struct sljit_jump *j[700]; static struct sljit_label *l[700]; void *q; struct sljit_jump *w;
	al_begin();
#define ST_(x) do { if (al.stop) return; al_s(x); } while (0)
#define PT_(v, x) do { if (al.stop) return; (v) = (x); al_p((void *)(v)); } while (0)
	for (i = 0; i < g_manyn; i++) {
		if (k & 4) PT_(q, sljit_emit_const(al.c, i & 1 ? SLJIT_MOV : SLJIT_MOV32, RG(R0), i));
		if (k & 1) { PT_(j[i], (k & 8) ? sljit_emit_op_addr(al.c, SLJIT_MOV_ADDR, RG(R2)) : i & 1 ? sljit_emit_jump(al.c, SLJIT_JUMP) : sljit_emit_cmp(al.c, SLJIT_LESS, RG(R0), IM(5))); if (!(k & 2)) { if (k & 8) sljit_set_target(j[i], (uw)al_mem + (uw)i); else PT_(l[i], sljit_emit_label(al.c)); } }
		if (k & 2) { ST_(sljit_emit_op2(al.c, SLJIT_ADD, RG(R1), RG(R1), IM(i))); PT_(l[i], (k & 16) ? sljit_emit_aligned_label(al.c, SLJIT_LABEL_ALIGN_4, NULL) : sljit_emit_label(al.c)); }
	}
	if (k & 1) for (i = 0; i < g_manyn; i++) { if (al.stop) return; if (!(k & 8) || (k & 2)) sljit_set_label(j[i], l[i]); }
	if (k & 8) ST_(sljit_emit_op1(al.c, SLJIT_MOV, RG(R2), IM(9)));
	(void)w; (void)q; al_end();
}
static void build(void) { if (g_many) many_program(); else al_program(g_ids, g_len); }
static void arm(const char *what, u64 deny, int forever) { g_what = what; g_deny = deny; g_forever = forever; g_req = 0; g_denied = 0; memset(g_kinds, 0, sizeof(g_kinds)); TICK(); g_failed = 0; g_cases++; }
/* one life of a compiler; returns the number of requests */
static u8 *g_cbuf;
static u64 g_reqgen;
static u64 life(const char *what, u64 deny, int forever, int ref, int buf)
{
	struct sljit_compiler *c; void *code, *p; int absorbed = 0; u64 req; uw z = 1, *s; s32 e; u64 h; long live = g_live, maps = g_maps;
	struct sljit_generate_code_buffer gb;
	gb.buffer = g_cbuf + 256; gb.size = 16384; gb.executable_offset = 0; if (buf) { mprotect(g_cbuf, 20480, PROT_READ | PROT_WRITE | PROT_EXEC); memset(g_cbuf, 0x77, 20480); }
	arm(what, deny, forever); n_progs++; g_phase = "compile";
	c = sljit_create_compiler(g_ald[0]);
	if (!c) { if (!g_denied) bad("create", "no compiler"); balance(live, maps); return g_req; }
	al_reset(c); sljit_compiler_set_user_data(c, &gb);
	if (g_denied) bad("create", "a compiler is returned");
	else {
		al_status = status; build(); al_status = NULL; e = sljit_get_compiler_error(c);
		if (!g_failed && e) { /* the error state stays */
			g_phase = "use after the error"; p = sljit_alloc_memory(c, 24); if (p) bad("sticky", "sljit_alloc_memory works");
			s = sljit_serialize_compiler(c, 0, &z); if (s || z) bad("sticky", "the compiler is serialized");
			if (sljit_get_compiler_error(c) != e) bad("sticky", "the error changes");
		}
		if (!g_failed) {
			g_phase = "generate"; g_reqgen = g_req; code = buf ? sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &gb) : sljit_generate_code(c, 0, g_ald[1]); e = sljit_get_compiler_error(c);
			absorbed = code && g_denied && g_deniedk != K_MALLOC;   /* executable memory may be obtained in another way */
			if (absorbed) g_denied = 0;
			if (e != (g_denied ? expected() : SLJIT_ERR_COMPILED)) bad("generate", "error %d", e);
			else if (!code != !!g_denied) bad("generate", code ? "code is returned" : "no code");
			if (!g_failed && !code) { z = 1; s = sljit_serialize_compiler(c, 0, &z); if (s || z) bad("sticky", "the compiler is serialized"); if (sljit_emit_op0(c, SLJIT_NOP) != e || sljit_get_compiler_error(c) != e || sljit_generate_code(c, 0, g_ald[1])) bad("sticky", "work goes on after the failed generation"); }
			if (code) { z = sljit_get_generated_code_size(c); if (ref || absorbed || deny == ~(u64)0) { g_phase = "run"; n_runs++; h = al_run(code); if (ref) { g_h = h; g_n = z; } else if (h != g_h || (z != g_n && !buf)) bad /* alignment gaps depend on the address */("later", "a later compilation is different"); } if (!buf) sljit_free_code(code, g_ald[1]); }
			if (buf) { int i; for (i = 0; i < 256; i++) if (g_cbuf[i] != 0x77 || g_cbuf[16640 + i] != 0x77) bad("memory", "something around the buffer of the caller is written"); }
		}
	}
	if (sljit_compiler_get_user_data(c) != &gb || sljit_compiler_get_allocator_data(c) != g_ald[0]) bad("data", "the user or allocator data of the compiler changes");
	g_phase = "free"; req = g_req; sljit_free_compiler(c);
	if (!g_failed) balance(live, maps);
	n_states++; return req;
}
/* saving and restoring with denied requests; the original stays usable */
static void saved(void)
{
	struct sljit_compiler *c, *d; uw z, *s, z2; u64 k, n; int f; void *code; long live = g_live, maps = g_maps, live2;
	arm("serialize", ~(u64)0, 0); g_phase = "compile"; c = sljit_create_compiler(g_ald[0]); al_reset(c); build(); live2 = g_live;
	arm("serialize", 0, 0); z = 1; s = sljit_serialize_compiler(c, 0, &z); n_progs++; if (s || z) { bad("serialize", "result without memory"); return; } if (g_live != live2) { bad("leak", "%ld blocks", g_live - live2); return; }
	/* the denied request is a compiler error like any other */
	if (sljit_get_compiler_error(c) != SLJIT_ERR_ALLOC_FAILED) { bad("serialize", "error %d", sljit_get_compiler_error(c)); return; }
	g_phase = "use after the error"; if (sljit_emit_op0(c, SLJIT_NOP) != SLJIT_ERR_ALLOC_FAILED || sljit_generate_code(c, 0, g_ald[1])) { bad("sticky", "work goes on after a failed serialization"); return; }
	sljit_free_compiler(c); balance(live, maps); c = sljit_create_compiler(g_ald[0]); al_reset(c); build();
	arm("serialize", ~(u64)0, 0); s = sljit_serialize_compiler(c, 0, &z); if (!s) { bad("serialize", "refused after a failure, error %d", sljit_get_compiler_error(c)); return; }
	arm("deserialize", ~(u64)0, 0); d = sljit_deserialize_compiler(s, z, 0, g_ald[0]); n = g_req; if (!d) { bad("deserialize", "refused"); return; } sljit_free_compiler(d); live2 = g_live;
	for (f = 0; f < 2; f++) for (k = 0; k < n; k++) {
		arm("deserialize", k, f); n_progs++; n_steps++; g_phase = "deserialize"; d = sljit_deserialize_compiler(s, z, 0, g_ald[0]);
		if (d) { bad("deserialize", "a compiler is returned"); sljit_free_compiler(d); return; }
		blk_check(); if (g_memerr) { bad("memory", "%s", g_memerr); g_memerr = NULL; return; }
		if (g_live != live2) { bad("leak", "%ld blocks", g_live - live2); return; }
	}
	arm("after serialize", ~(u64)0, 0); verif_free(s); g_phase = "generate"; code = sljit_generate_code(c, 0, g_ald[1]); if (!code) { bad("later", "no code"); return; }
	z2 = sljit_get_generated_code_size(c); sljit_free_compiler(c); n_runs++; g_phase = "run"; if (z2 != g_n || al_run(code) != g_h) bad("later", "the code is different"); sljit_free_code(code, g_ald[1]); balance(live, maps);
}
static s32 size_of(int i) { static const s32 sz[] = { 1, 4, 8, 16, 24, 63, 64, 100, 127, 128, 3, 120 }; s32 s = sz[(i * 5 + 1) % 12]; return s > 16 * (s32)sizeof(uw) ? 16 * (s32)sizeof(uw) : s; }
/* memory owned by the compiler */
static void owned(void)
{
	struct sljit_compiler *c; u64 n = 0, k; int f, i, pass; u8 *p[12]; long live = g_live, maps = g_maps;
	for (pass = 0; pass < 2; pass++) for (f = 0; f <= (pass ? 1 : 0); f++) for (k = 0; k < (pass ? n : 1); k++) {
		arm("alloc_memory", pass ? k : ~(u64)0, f); n_progs++; n_states++; c = sljit_create_compiler(g_ald[0]); if (!c) { if (!g_denied) bad("create", "refused"); balance(live, maps); continue; }
		al_reset(c);
		for (i = 0; i < 12 * 40; i++) {
			s32 s = size_of(i); int j; u8 *q = sljit_alloc_memory(c, s); n_steps++;
			if (!q != !!g_denied) { bad("owned", q ? "memory is returned" : "no memory"); break; }
			if (sljit_get_compiler_error(c) != expected()) { bad("error", "compiler error is %d", sljit_get_compiler_error(c)); break; }
			if (!q) continue;
			if ((uw)q % sizeof(uw)) bad("owned", "not aligned");
			memset(q, i + 1, (size_t)s); p[i % 12] = q;
			for (j = 0; j < 12 && j <= i; j++) { int x = i - j; s32 t = size_of(x), y; for (y = 0; y < t; y++) if (p[x % 12][y] != (u8)(x + 1)) { bad("owned", "pieces overlap"); j = 99; break; } }
			if (g_failed) break;
		}
		if (!pass) n = g_req; sljit_free_compiler(c); if (!g_failed) balance(live, maps); else return;
	}
	arm("alloc_memory", ~(u64)0, 0); c = sljit_create_compiler(g_ald[0]); al_reset(c); n_progs++;
	{ static const s32 no[] = { 0, -1, -4096, 16 * (s32)sizeof(uw) + 1, 4096, 0x7fffffff, (s32)0x80000000 };
	for (i = 0; i < 7; i++) if (sljit_alloc_memory(c, no[i]) || sljit_get_compiler_error(c)) bad("owned", "size %d: not refused, or an error is set", no[i]); }
	sljit_set_compiler_memory_error(c); g_denied = 1; g_deniedk = K_MALLOC; if (sljit_get_compiler_error(c) != SLJIT_ERR_ALLOC_FAILED || sljit_alloc_memory(c, 8)) bad("owned", "sljit_set_compiler_memory_error");
	al_status = status; g_ids[0] = 0; g_len = 1; al_program(g_ids, 1); al_status = NULL; sprintf(al_txt, "sljit_alloc_memory"); if (sljit_generate_code(c, 0, g_ald[1])) bad("sticky", "code is returned"); sljit_free_compiler(c); balance(live, maps);
}
static void stack(void)
{
	static const uw s[][2] = { { 1, 1 }, { 1, 4096 }, { 4096, 4096 }, { 5000, 70000 }, { 65536, 1 << 20 } }; int i, f; u64 k, n; struct sljit_stack *t; long live = g_live, maps = g_maps;
	for (i = 0; i < 5; i++) {
		arm("stack", ~(u64)0, 0); t = sljit_allocate_stack(s[i][0], s[i][1], g_ald[0]); n = g_req; if (!t) { bad("stack", "refused"); return; } sljit_free_stack(t, g_ald[0]); balance(live, maps);
		for (f = 0; f < 2; f++) for (k = 0; k < n; k++) { arm("stack", k, f); n_progs++; n_steps++; n_states++; t = sljit_allocate_stack(s[i][0], s[i][1], g_ald[0]); if (t) { bad("stack", "a stack is returned"); return; } balance(live, maps); }
	}
}
static void prog(void)
{
	u64 n, k, m; int f;
	g_cur = g_idx - 1; al_text(g_ids, g_len); if (g_many) sprintf(al_txt, "%d times kinds %d", g_manyn, g_many); al_init_mem(); sljit_free_unused_memory_exec();
	n = life("compile", ~(u64)0, 0, 1, 0); if (g_failed) return;
	for (f = 0; f < 2; f++) for (k = 0; k < n; k++) { life("compile", k, f, 0, 0); if (g_failed) return; if (g_req <= k) { bad("count", "request is not made"); return; } }
	if (!g_many) { n = life("compile into a buffer", ~(u64)0, 0, 0, 1); m = g_reqgen; if (g_failed) return;
	for (f = 0; f < 2; f++) for (k = m; k < n; k++) { life("compile into a buffer", k, f, 0, 1); if (g_failed) return; } }
	life("afterwards", ~(u64)0, 0, 0, 0); if (g_failed) return;
	saved();
	if (g_many) { snprintf(g_samples[g_nsamples < 6 ? g_nsamples++ : 5], 700, "%s: %d requests, each denied alone and with all later ones", al_txt, (int)n); return; }
	if (g_nsamples < 6 && (g_cur % 97) == 0) snprintf(g_samples[g_nsamples++], 700, "%s: %d requests, each denied alone and with all later ones", al_txt, (int)n);
}
int main(int argc, char **argv)
{
	int a, b, c2, i; long x;
	parse_args(argc, argv); g_suite = "oom"; al_init_mem(); { static char d[2]; g_ald[0] = d; g_ald[1] = d + 1; } g_cbuf = mmap(NULL, 20480, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (mine()) { g_cur = g_idx - 1; sprintf(al_txt, "sljit_alloc_memory"); g_crash_txt = al_txt; owned(); }
	if (mine()) { g_cur = g_idx - 1; sprintf(al_txt, "sljit_allocate_stack"); g_crash_txt = al_txt; stack(); }
	for (a = -1; a < AL_N; a++) { if (!mine()) continue; g_len = a >= 0; g_ids[0] = a; prog(); }
	for (a = 0; a < AL_N; a++) for (b = 0; b < AL_N; b++) { if (!g_thorough && (a * 5 + b) % 2) continue; if (!mine()) continue; g_len = 2; g_ids[0] = a; g_ids[1] = b; prog(); }
	for (a = 0, x = 0; a < AL_NCORE; a++) for (b = 0; b < AL_NCORE; b++) for (c2 = 0; c2 < AL_NCORE; c2++, x++) { if (x % (g_thorough ? 2 : 16) != 0) continue; if (!mine()) continue; g_len = 3; g_ids[0] = al_core[a]; g_ids[1] = al_core[b]; g_ids[2] = al_core[c2]; prog(); }
	/* long programs: the requests for further fragments fall on different calls */
	for (b = 0; b < (g_thorough ? 24 : 6); b++) for (a = 0; a < AL_N; a++) { if (!mine()) continue; g_len = 8; for (i = 0; i < 8; i++) g_ids[i] = (a + i * (b + 1)) % AL_N; prog(); }
	/* fillers move the end of a fragment over every item */
	for (a = 0; a < AL_N; a++) for (b = 1; b < (g_thorough ? 7 : 4); b++) { if (!mine()) continue; g_len = 8; for (i = 0; i < 8; i++) g_ids[i] = i < b ? (i & 1 ? 69 : 68) : a; prog(); }
	for (a = 0; a < 12; a++) { static const int kinds[] = { 3, 7, 1, 2, 4, 9, 11, 18, 15, 19, 23, 5 }; for (b = 0; b < (g_thorough ? 8 : 2); b++) { if (!mine()) continue; g_many = kinds[a]; g_manyn = b == 0 ? 300 : b == 1 ? 120 : b * 90 - 37; prog(); g_many = 0; } }
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
