/* P11: every memory request of the regular expression engine is denied, alone and with all later ones */
#include <errno.h>
#include "eng.h"
#include "oommem.h"
#include "sljitLir.h"
#include "regexJIT.h"
static char g_txt[900]; static int g_failed;
static void bad(const char *key, const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); g_failed = 1; violation(g_cur, key, "pattern '%.200s' request %ld%s denied | %s", g_txt, (long)g_deny, g_forever ? " and later ones" : "", b); }
static void arm(u64 deny, int forever) { g_deny = deny; g_forever = forever; g_req = 0; g_denied = 0; TICK(); }
static void bal(void) { sljit_free_unused_memory_exec(); blk_check(); if (g_memerr) { bad("memory", "%s", g_memerr); g_memerr = NULL; } if (g_live || g_maps || g_fds) { bad("leak", "%ld blocks, %ld bytes of mappings, %ld descriptors", g_live, g_maps, g_fds); g_live = g_maps = g_fds = 0; } }
static void text(int i)
{
	static const char *const t[] = { "a", "", "a|b", "[a-c]x", ".", "^a$", "(a|b)*c", "a{3}", "a{2,4}", "(ab){3,}", "a+b?c*", "[^a-z]+", "a{1!}b{2!}", "(a|{3!})b", "((a|b|c)*(xy)+)+", "{", "(", "a**", "[", "(a|b){0}", "(c?(a|bb{2!}){2,3}()+d){2,3}", "(s(ab){2,4}t){2,}*S(a*(b)(c()|)d+){3,4}{0,0}*M" };
	int k; char *p = g_txt;
	if (i < 22) { strcpy(g_txt, t[i]); return; }
	i -= 22; /* long ones: the lists grow over their blocks */
	if (i < 80) { sprintf(g_txt, "(ab){%d}", i + 8); return; }
	if (i < 120) { i -= 80; for (k = 0; k < 40 + i; k++) *p++ = '('; *p++ = 'a'; for (k = 0; k < 40 + i; k++) *p++ = ')'; *p = 0; return; }
	if (i < 160) { i -= 120; for (k = 0; k < 40 + i; k++) p += sprintf(p, "%sa", k ? "|" : ""); return; }
	if (i < 200) { i -= 160; sprintf(g_txt, "(a[a-c]){%d,%d}", i / 2, i + 1); return; }
	if (i < 240) { i -= 200; sprintf(g_txt, "(a|b){%d,}", i + 1); return; }
	i -= 240; for (k = 0; k < 55 + i; k++) *p++ = 'a'; strcpy(p, "(bc){2}{0}d{0,0}");
}
static u64 one(u64 deny, int forever, int flags, int *e0)
{
	int err = 77, e, id; struct regex_machine *mc; struct regex_match *m; u64 n; static const char in[] = "ababcxyab";
	arm(deny, forever); g_phase = "compile"; mc = regex_compile(g_txt, (int)strlen(g_txt), flags, &err); n_progs++; n_states++;
	if (deny == ~(u64)0) *e0 = err;
	if (!mc) { if (err != (g_denied ? REGEX_MEMORY_ERROR : *e0)) bad("error", "error %d", err); }
	else {
		if (err) bad("error", "machine and error %d", err);
		if (g_denied && g_deniedk == K_MALLOC) bad("error", "a machine is returned");
		g_denied = 0; g_phase = "begin"; m = regex_begin_match(mc);
		if (!m != !!g_denied) bad("begin", m ? "match data is returned" : "refused"); 
		if (m) { g_phase = "match"; regex_continue_match(m, in, 9); n_runs++; regex_get_result(m, &e, &id); regex_free_match(m); }
		else if (!forever && !g_failed) { g_phase = "begin again"; m = regex_begin_match(mc); if (!m) bad("later", "refused after a failure"); else { regex_continue_match(m, in, 9); regex_free_match(m); } }
		regex_free_machine(mc);
	}
	n = g_req; bal(); return n;
}
int main(int argc, char **argv)
{
	int i, f, g, e0; u64 n, k;
	parse_args(argc, argv); g_suite = "oomre";
	for (i = 0; i < 22 + 300; i++) for (f = 0; f < 16; f += i < 22 ? 1 : 6) {
		if (!mine()) continue;
		g_cur = g_idx - 1; text(i); g_crash_txt = g_txt; g_failed = 0;
		n = one(~(u64)0, 0, f, &e0);
		for (g = 0; g < 2 && !g_failed; g++) for (k = 0; k < n && !g_failed; k++) { one(k, g, f, &e0); n_steps++; }
		if (g_nsamples < 4 && g_cur % 50 == 0) snprintf(g_samples[g_nsamples++], 600, "pattern '%.200s' flags %x: %d requests, each denied alone and with all later ones", g_txt, f, (int)n);
	}
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); return 0;
}
