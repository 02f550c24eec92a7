/* P18: every pattern text over a token alphabet is compiled by the engine and, independently, turned into a term which is
   evaluated by sets of positions; results are compared for every input over a small alphabet, after every character, for every
   way of cutting the input into pieces, for every combination of flags. */
#include <errno.h>
#include "eng.h"
#include "oommem.h"
#include "sljitLir.h"
#include "regexJIT.h"
typedef struct node { int k, a, b, min, max; u8 set[32]; } node;
enum { N_SET, N_EMPTY, N_CAT, N_ALT, N_REP, N_ID };
#define MAXN 1200
static node nd[MAXN]; static int nn;
static int mk(int k, int a, int b) { if (nn >= MAXN) die("too many nodes"); memset(&nd[nn], 0, sizeof(node)); nd[nn].k = k; nd[nn].a = a; nd[nn].b = b; return nn++; }
#define SETB(s, c) ((s)[(u8)(c) >> 3] |= (u8)(1 << ((c) & 7)))
#define HASB(s, c) (((s)[(u8)(c) >> 3] >> ((c) & 7)) & 1)
/* ------------------------------------------------ reading of a pattern */
static const u8 *pp, *pe; static int p_bad, p_depth, p_begin, p_end, p_nl;
static int num(const u8 **q) { int v = 0; if (*q >= pe || **q < '0' || **q > '9') return -1; while (*q < pe && **q >= '0' && **q <= '9') v = v * 10 + *(*q)++ - '0'; return v; }
/* {n} {n,} {,n} {n,m} {,} */
static int quant(const u8 *q, int *lo, int *hi, const u8 **after)
{
	int x; if (q >= pe || *q != '{') return 0; q++; x = num(&q); if (q >= pe) return 0;
	if (*q == '}') { if (x < 0) return 0; *lo = *hi = x; *after = q + 1; return 1; }
	if (*q != ',') return 0; q++; *lo = x < 0 ? 0 : x; if (q >= pe) return 0;
	if (*q == '}') { *hi = -1; *after = q + 1; return 1; }
	x = num(&q); if (x < 0 || q >= pe || *q != '}' || x < *lo) return 0; *hi = x; *after = q + 1; return 1;
}
static int ident(const u8 *q, int *id, const u8 **after) { int x; if (q >= pe || *q != '{') return 0; q++; x = num(&q); if (x < 0 || pe - q < 2 || q[0] != '!' || q[1] != '}') return 0; *id = x; *after = q + 2; return 1; }
static int alt(void);
static int atom(void)
{
	int n, i, neg = 0, l, r; u8 c = *pp;
	if (c == '(') { pp++; p_depth++; n = alt(); if (p_bad) return 0; if (pp >= pe || *pp != ')') { p_bad = 1; return 0; } pp++; p_depth--; return n; }
	n = mk(N_SET, 0, 0);
	if (c == '\\') { if (pe - pp < 2) { p_bad = 1; return 0; } SETB(nd[n].set, pp[1]); pp += 2; return n; }
	if (c == '.') { pp++; memset(nd[n].set, 0xff, 32); if (p_nl) { nd[n].set['\n' >> 3] &= ~(1 << ('\n' & 7)); nd[n].set['\r' >> 3] &= ~(1 << ('\r' & 7)); } return n; }
	if (c != '[') { SETB(nd[n].set, c); pp++; return n; }
	pp++; if (pp < pe && *pp == '^') { neg = 1; pp++; }
	if (pp < pe && *pp == ']') { SETB(nd[n].set, ']'); pp++; }
	for (;;) {
		if (pp >= pe) { p_bad = 1; return 0; }
		if (*pp == ']') { pp++; break; }
		if (*pp == '\\') { pp++; if (pp >= pe) { p_bad = 1; return 0; } } l = *pp++;
		if (pe - pp >= 2 && pp[0] == '-' && pp[1] != ']') { pp++; if (*pp == '\\') { pp++; if (pp >= pe) { p_bad = 1; return 0; } } r = *pp++; if (l > r) { i = l; l = r; r = i; } for (i = l; i <= r; i++) SETB(nd[n].set, i); }
		else SETB(nd[n].set, l);
	}
	if (neg) for (i = 0; i < 32; i++) nd[n].set[i] = (u8)~nd[n].set[i];
	return n;
}
static int seq(void)
{
	int cur = -1, item = -1, n, lo, hi, id; const u8 *q;
	/* cur: everything before the last item; item: what a repetition applies to (an item with the identifiers after it) */
	for (;;) {
		if (pp >= pe || *pp == '|' || *pp == ')') break;
		if (*pp == '$' && pp + 1 == pe) { p_end = 1; pp++; break; }
		if (*pp == '*' || *pp == '+' || *pp == '?') { if (item < 0) { p_bad = 1; return 0; } n = mk(N_REP, item, 0); nd[n].min = *pp == '+'; nd[n].max = *pp == '?' ? 1 : -1; item = n; pp++; continue; }
		if (ident(pp, &id, &q)) { n = mk(N_ID, 0, 0); nd[n].min = id; pp = q; if (item < 0) cur = cur < 0 ? n : mk(N_CAT, cur, n); else item = mk(N_CAT, item, n); continue; }
		if (item >= 0 && quant(pp, &lo, &hi, &q)) { n = mk(N_REP, item, 0); nd[n].min = lo; nd[n].max = hi; item = n; pp = q; continue; }
		if (item >= 0) cur = cur < 0 ? item : mk(N_CAT, cur, item);
		item = atom(); if (p_bad) return 0;
	}
	if (item >= 0) cur = cur < 0 ? item : mk(N_CAT, cur, item);
	return cur < 0 ? mk(N_EMPTY, 0, 0) : cur;
}
static int alt(void) { int a = seq(), b; while (!p_bad && pp < pe && *pp == '|') { pp++; b = seq(); if (p_bad) return 0; a = mk(N_ALT, a, b); } return a; }
/* returns the term or -1 */
static int read_pattern(const u8 *s, int len, int flags)
{
	int n; nn = 0; pp = s; pe = s + len; p_bad = p_depth = 0; p_nl = !!(flags & REGEX_NEWLINE); p_begin = !!(flags & REGEX_MATCH_BEGIN); p_end = !!(flags & REGEX_MATCH_END);
	if (len && *s == '^') { p_begin = 1; pp++; }
	n = alt(); if (p_bad || pp < pe) return -1; return n;
}
/* ------------------------------------------------ meaning of a term: where a match which starts at the positions of in can end */
#define MAXI 260
typedef struct { short v[MAXI]; } vec; /* -1: no, otherwise the highest identifier */
static const u8 *g_in; static int g_n;
static int merge(vec *d, vec *s) { int i, ch = 0; for (i = 0; i <= g_n; i++) if (s->v[i] > d->v[i]) { d->v[i] = s->v[i]; ch = 1; } return ch; }
static void cpy(vec *d, vec *s) { memcpy(d->v, s->v, sizeof(short) * (size_t)(g_n + 1)); }
static void eval(int n, vec *in, vec *out)
{
	vec t, u; int i, any;
	switch (nd[n].k) {
	case N_SET: out->v[0] = -1; for (i = 0; i < g_n; i++) out->v[i + 1] = (in->v[i] >= 0 && HASB(nd[n].set, g_in[i])) ? in->v[i] : -1; return;
	case N_EMPTY: cpy(out, in); return;
	case N_ID: for (i = 0; i <= g_n; i++) out->v[i] = in->v[i] < 0 ? -1 : in->v[i] < nd[n].min ? (short)nd[n].min : in->v[i]; return;
	case N_CAT: eval(nd[n].a, in, &t); eval(nd[n].b, &t, out); return;
	case N_ALT: eval(nd[n].a, in, &t); eval(nd[n].b, in, out); merge(out, &t); return;
	case N_REP: cpy(&t, in);
		for (i = 0; i < nd[n].min; i++) { eval(nd[n].a, &t, &u); cpy(&t, &u); }
		cpy(out, &t);
		if (nd[n].max >= 0) for (i = nd[n].min; i < nd[n].max; i++) { eval(nd[n].a, &t, &u); cpy(&t, &u); if (!merge(out, &t)) break; }
		else do { eval(nd[n].a, out, &u); any = merge(out, &u); } while (any);
		return;
	}
}
static int nlc(u8 c) { return c == '\n' || c == '\r'; }
typedef struct { int b, e, id; } res_t;
/* results for all prefixes of the input */
static void reference(int root, int flags, res_t *r)
{
	int b, e, k; vec in, out; int ng = !!(flags & REGEX_MATCH_NON_GREEDY);
	for (k = 0; k <= g_n; k++) { r[k].b = r[k].e = -1; r[k].id = 0; }
	for (b = 0; b <= g_n; b++) {
		if (p_begin && b && !(p_nl && nlc(g_in[b - 1]))) continue;
		for (k = 0; k <= g_n; k++) in.v[k] = -1; in.v[b] = 0; eval(root, &in, &out);
		for (e = b; e <= g_n; e++) {
			if (out.v[e] < 0) continue;
			/* with the end condition: only when the text ends here or a newline follows */
			for (k = e; k <= g_n; k++) {
				if (p_end && k != e && !(p_nl && nlc(g_in[e]))) break;
				if (r[k].b < 0 || (r[k].b == b && (ng ? e < r[k].e : e > r[k].e))) { r[k].b = b; r[k].e = e; r[k].id = out.v[e]; }
			}
		}
	}
}
/* ------------------------------------------------ driver */
static u8 *g_pg, *g_pi; static char g_txt[900]; static int g_failed, g_len; static u8 g_pat[700];
static char *quote(char *o, const u8 *s, int n) { char *p = o; int i; *p++ = '"'; for (i = 0; i < n && p < o + 300; i++) { if (s[i] == '\n') { *p++ = '\\'; *p++ = 'n'; } else if (s[i] == '\r') { *p++ = '\\'; *p++ = 'r'; } else if (s[i] < 32 || s[i] > 126) p += sprintf(p, "\\x%02x", s[i]); else *p++ = (char)s[i]; } *p++ = '"'; *p = 0; return o; }
static void bad(const char *key, const char *fmt, ...) { char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); g_failed = 1; violation(g_cur, key, "%s | %s", g_txt, b); }
static u8 *guard(long n) { u8 *p = mmap(NULL, (size_t)n * 4096 + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) die("mmap"); if (mprotect(p + n * 4096, 65536, PROT_NONE)) die("mprotect"); return p + n * 4096; }
static u8 *input(const u8 *s, int n) { memcpy(g_pi - n, s, (size_t)n); return g_pi - n; }
static int check(struct regex_match *m, res_t *r, const u8 *s, int n, const char *how)
{
	int e = 77, id = 77, b = regex_get_result(m, &e, &id); char q[320]; n_steps++;
	if (b == r->b && (b < 0 || (e == r->e && id == r->id))) return 0;
	if (r->b < 0) bad("match", "%s %s: match %d-%d id %d where there is none", quote(q, s, n), how, b, e, id);
	else bad("match", "%s %s: %d-%d id %d instead of %d-%d id %d", quote(q, s, n), how, b, e, id, r->b, r->e, r->id);
	return 1;
}
/* can the text which ends inside the term at position g_n be continued to a longer match? (no set is empty, so whatever is begun can be completed) */
static int live(int n, vec *in)
{
	vec t, u; int i;
	switch (nd[n].k) {
	case N_SET: return in->v[g_n] >= 0;
	case N_EMPTY: case N_ID: return 0;
	case N_CAT: if (live(nd[n].a, in)) return 1; eval(nd[n].a, in, &t); return live(nd[n].b, &t);
	case N_ALT: return live(nd[n].a, in) || live(nd[n].b, in);
	case N_REP: cpy(&t, in);
		for (i = 0; nd[n].max < 0 || i < nd[n].max; i++) {
			if (live(nd[n].a, &t)) return 1;
			eval(nd[n].a, &t, &u); if (i >= nd[n].min && !merge(&t, &u)) return 0;
			if (i < nd[n].min) cpy(&t, &u);
			if (i > g_n + nd[n].min + 2) return 0;
		}
		return 0;
	}
	return 0;
}
/* is the best match known whatever follows the first n characters? */
static int finished(int root, int flags, res_t *r, int n)
{
	int b, k, old = g_n, l = 0; vec in;
	g_n = n;
	for (b = 0; b <= r[n].b && !l; b++) {
		if (p_begin && b && !(p_nl && nlc(g_in[b - 1]))) continue;
		if (b == r[n].b && (flags & REGEX_MATCH_NON_GREEDY)) break;
		for (k = 0; k <= n; k++) in.v[k] = -1;
		in.v[b] = 0; l = live(root, &in);
	}
	g_n = old;
	return !l;
}
static int check_fin(struct regex_match *m, int root, int flags, res_t *r, const u8 *s, int n, int all, const char *how)
{
	int f = !!regex_is_match_finished(m), w, j; char q[320]; n_steps++;
	if (f) for (j = n; j <= all; j++) if (r[j].b != r[n].b || (r[j].b >= 0 && (r[j].e != r[n].e || r[j].id != r[n].id))) { bad("finished", "%s %s: reported as finished, but with %d more characters the match is %d-%d id %d instead of %d-%d id %d", quote(q, s, n), how, j - n, r[j].b, r[j].e, r[j].id, r[n].b, r[n].e, r[n].id); return 1; }
	if (p_end || p_nl || !n || r[n].b < 0) return 0; /* a match which ends here is lost when characters follow; nothing is promised without a match, before any input and with line starts */
	w = finished(root, flags, r, n);
	if (w != f) { bad("finished", "%s %s: %s as finished, the match is %d-%d id %d", quote(q, s, n), how, f ? "reported" : "not reported", r[n].b, r[n].e, r[n].id); return 1; }
	return 0;
}
static u8 g_al[8]; static int g_nal, g_dbg = 1;
static void one_input(struct regex_match *m, int root, int flags, const u8 *s, int n, int cuts)
{
	res_t r[MAXI]; int i, j; u8 *t; u32 mask; char how[64];
	g_in = s; g_n = n; reference(root, flags, r); n_runs++;
	g_phase = "match"; regex_reset_match(m); if (check(m, &r[0], s, 0, "before any input") || check_fin(m, root, flags, r, s, 0, n, "before any input")) return;
	for (i = 0; i < n; i++) { t = input(s + i, 1); if (g_dbg) regex_continue_match_debug(m, (char *)t, 1); else regex_continue_match(m, (char *)t, 1); if (check(m, &r[i + 1], s, i + 1, "by characters") || check_fin(m, root, flags, r, s, i + 1, n, "by characters")) return; }
	for (mask = 0; mask < (1u << (n > 1 ? n - 1 : 0)); mask++) {
		if (cuts == 1 && (mask & (mask - 1))) continue;
		regex_reset_match(m); n_states++;
		for (i = 0; i < n; i = j) { for (j = i + 1; j < n && !(mask >> (j - 1) & 1); j++); t = input(s + i, j - i); regex_continue_match(m, (char *)t, j - i); if (mask & 1) regex_continue_match(m, (char *)g_pi, 0); }
		sprintf(how, "in pieces (cuts %x)", (unsigned)mask); if (check(m, &r[n], s, n, how) || check_fin(m, root, flags, r, s, n, n, how)) return;
		if (!cuts) break;
	}
}
static void inputs(struct regex_match *m, int root, int flags, int n, int cuts)
{
	u8 s[16]; int i, d[16]; memset(d, 0, sizeof(d));
	for (;;) {
		for (i = 0; i < n; i++) s[i] = g_al[d[i]];
		one_input(m, root, flags, s, n, cuts); if (g_failed) return;
		for (i = n - 1; i >= 0 && ++d[i] == g_nal; i--) d[i] = 0;
		if (i < 0) return;
	}
}
static struct regex_machine *compile(int flags, int *root)
{
	int err = 77; struct regex_machine *mc; char q[320];
	snprintf(g_txt, sizeof(g_txt), "pattern %s flags %x", quote(q, g_pat, g_len), flags); g_crash_txt = g_txt; g_cur = g_idx - 1; TICK(); g_failed = 0; n_progs++;
	memcpy(g_pg - g_len, g_pat, (size_t)g_len); *root = read_pattern(g_pat, g_len, flags);
	g_phase = "compile"; mc = regex_compile((char *)g_pg - g_len, g_len, flags, &err);
	if ((mc == NULL) != (err != REGEX_NO_ERROR)) bad("status", "machine and error %d", err);
	else if (mc && *root < 0) bad("accept", "accepted");
	else if (!mc && *root >= 0) bad("reject", "rejected with %d", err);
	else if (!mc && err != REGEX_INVALID_REGEX) bad("status", "error %d", err);
	return mc;
}
static void done(struct regex_match *m, struct regex_machine *mc)
{
	if (m) regex_free_match(m); if (mc) regex_free_machine(mc);
	blk_check(); if (g_memerr) { bad("memory", "%s", g_memerr); g_memerr = NULL; } if (g_live) { bad("leak", "%ld blocks", g_live); g_live = 0; }
}
static void pattern(int f0, int step, int n, int cuts)
{
	int f, root; struct regex_machine *mc; struct regex_match *m = NULL;
	for (f = f0; f < 16; f += step) {
		mc = compile(f, &root); m = NULL;
		if (mc && !g_failed) { m = regex_begin_match(mc); if (!m) bad("begin", "no match data"); else inputs(m, root, f, n, cuts); }
		done(m, mc); if (g_failed) return;
		if (!mc && f == f0) break; /* validity does not depend on the flags */
	}
	if (mc && g_nsamples < 6 && n_progs % 4001 < 16) snprintf(g_samples[g_nsamples++], 600, "%s: inputs of length %d over %d characters", g_txt, n, g_nal);
}
static const char *const tok[] = { "a", "b", "(", ")", "|", "*", "+", "?", "{1!}", "{2}", ".", "[ab]", "[^a]", "{2!}", "{0}", "{,2}", "{2,}", "{1,3}", "^", "$", "{", "\\n", "{,}", "]" };
#define NTOK 24
#define NTOK1 10
static int g_tier;
static void tokens(int len, int ntok, int f0, int step, int n, int cuts)
{
	int d[12], i, a, depth, ok;
	memset(d, 0, sizeof(d));
	for (;;) {
		/* symmetry of a and b; brackets which cannot be closed are left to the text families */
		a = 0; depth = 0; ok = 1;
		for (i = 0; i < len && ok; i++) { if (d[i] == 0 || d[i] == 12 || d[i] == 11) a = 1; if (d[i] == 1 && !a) ok = 0; if (d[i] == 2) depth++; if (d[i] == 3 && --depth < 0) ok = 0; }
		if (depth) ok = 0;
		if (ok && mine()) {
			g_len = 0; for (i = 0; i < len; i++) { const char *t = d[i] == 21 ? "\n" : tok[d[i]]; strcpy((char *)g_pat + g_len, t); g_len += (int)strlen(t); }
			pattern(f0, step, n, cuts);
			if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; return; }
		}
		for (i = len - 1; i >= 0 && ++d[i] == ntok; i--) d[i] = 0;
		if (i < 0) return;
	}
}
/* raw characters after a fixed start */
static void chars(const char *start, const char *set, int len, int n, int f0, int step)
{
	int d[12], i, ns = (int)strlen(set), ls = (int)strlen(start);
	memset(d, 0, sizeof(d));
	for (;;) {
		if (mine()) { memcpy(g_pat, start, (size_t)ls); for (i = 0; i < len; i++) g_pat[ls + i] = (u8)set[d[i]]; g_len = ls + len; pattern(f0, step, n, 0); if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; return; } }
		for (i = len - 1; i >= 0 && ++d[i] == ns; i--) d[i] = 0;
		if (i < 0) return;
	}
}
/* long patterns: the internal lists cross their block limits */
static void longs(void)
{
	static const char *const unit[] = { "a", "ab", "(a|b)", "a?", "[ab]", "a{2}", "(a|b{1!})", "(ab|a)", "a*" }; int u, k, form, i, f, root; struct regex_machine *mc; struct regex_match *m;
	u8 s[MAXI]; char t[40];
	for (u = 0; u < 9; u++) for (form = 0; form < 7; form++) for (k = 1; k < (form >= 5 ? 40 : 130); k += g_tier && !g_thorough ? 41 : 1) {
		if (!g_thorough && !g_tier && k > 12 && k % 7 && (k & 63) < 56 && (k & 63) > 3) continue;
		if (!mine()) continue;
		g_len = 0; g_pat[0] = 0;
#define ADDS(x) do { strcpy((char *)g_pat + g_len, x); g_len += (int)strlen(x); } while (0)
		switch (form) {
		case 0: sprintf(t, "{%d}", k); if (unit[u][0] != '(' && unit[u][1]) { ADDS("("); ADDS(unit[u]); ADDS(")"); } else ADDS(unit[u]); ADDS(t); break;
		case 1: sprintf(t, "{%d,%d}", k / 2, k); ADDS("("); ADDS(unit[u]); ADDS(")"); ADDS(t); break;
		case 2: sprintf(t, "{%d,}", k); ADDS("b("); ADDS(unit[u]); ADDS(")"); ADDS(t); break;
		case 3: for (i = 0; i < k; i++) ADDS("("); ADDS(unit[u]); for (i = 0; i < k; i++) ADDS(i % 3 == 1 ? ")?" : ")"); break;
		case 4: for (i = 0; i < k && g_len < 500; i++) { if (i) ADDS("|"); ADDS(unit[(u + i) % 9]); } break;
		case 5: for (i = 0; i < k && g_len < 600; i++) ADDS(unit[(u + i) % 9]); break;
		case 6: sprintf(t, "{%d}", k); ADDS("((("); ADDS(unit[u]); ADDS("|ba){2}a){1,2}b)"); ADDS(t); break;
		}
		for (f = 0; f < 16; f += 3) {
			int n = form == 6 ? 40 : k + 6; if (n > 120) n = 120;
			mc = compile(f, &root); m = NULL; if (mc && !g_failed) { m = regex_begin_match(mc); g_dbg = 0;
				for (i = 0; i < n; i++) s[i] = 'a'; one_input(m, root, f, s, n, 0);
				for (i = 0; i < n && !g_failed; i++) s[i] = i % 2 ? 'b' : 'a'; if (!g_failed) one_input(m, root, f, s, n, 0);
				for (i = 0; i < n && !g_failed; i++) s[i] = (i * i / 3) % 3 ? 'a' : 'b'; if (!g_failed) one_input(m, root, f, s, n, 0);
				g_dbg = 1; }
			done(m, mc); if (g_failed) break;
		}
	}
}
/* all byte values */
static void bytes(void)
{
	int a, b, f, root; struct regex_machine *mc; struct regex_match *m; u8 s[4];
	static const int edge[] = { 0, 1, 9, 10, 13, 31, 32, 45, 48, 97, 126, 127, 128, 129, 159, 160, 200, 233, 254, 255 };
	for (a = 0; a < 256; a++) for (b = -1; b < 20; b++) {
		if (g_tier && !g_thorough) { for (f = 0; f < 20 && edge[f] != a; f++); if (f == 20) continue; }
		if (!mine()) continue;
		g_len = 0; if (b < 0) { g_pat[g_len++] = '\\'; g_pat[g_len++] = (u8)a; g_pat[g_len++] = '+'; }
		else { g_pat[g_len++] = '['; if (b & 1) g_pat[g_len++] = '^'; g_pat[g_len++] = '\\'; g_pat[g_len++] = (u8)a; g_pat[g_len++] = '-'; g_pat[g_len++] = '\\'; g_pat[g_len++] = (u8)edge[b]; if (b & 2) { g_pat[g_len++] = 'q'; g_pat[g_len++] = '0'; g_pat[g_len++] = '-'; g_pat[g_len++] = '7'; } g_pat[g_len++] = ']'; }
		for (f = 0; f < 8; f += 5) { mc = compile(f, &root); m = NULL; if (mc && !g_failed) { int c; m = regex_begin_match(mc); for (c = 0; c < 256 && !g_failed; c++) { s[0] = (u8)c; s[1] = (u8)a; s[2] = 'x'; one_input(m, root, f, s, 3, 0); } } done(m, mc); if (g_failed) break; }
	}
}
int main(int argc, char **argv)
{
	int l;
	parse_args(argc, argv); g_suite = "regex"; g_pg = guard(4); g_pi = guard(4);
#ifdef __x86_64__
	g_tier = 0;
#else
	g_tier = 1;
#endif
	memcpy(g_al, "ab\n", 3); g_nal = 3; g_dbg = 1;
	for (l = 0; l <= (g_tier ? 2 : 3) + (g_thorough ? 1 : 0); l++) tokens(l, NTOK, 0, 1, g_tier || (l > 2 && !g_thorough) ? 4 : 5, 2);
	if (!g_tier) { tokens(4, NTOK, 0, g_thorough ? 1 : 3, 3, 1); if (g_thorough) tokens(5, NTOK, 0, 3, 3, 0); }
	g_nal = 2;
	for (l = 3; l <= (g_tier ? 3 + g_thorough : 6 + g_thorough); l++) tokens(l, NTOK1, l & 1, 3, l <= 5 ? 5 : 6, 1);
	memcpy(g_al, "a]-^b\\", 6); g_nal = 6; for (l = 1; l <= (g_tier ? 3 : 6); l++) chars("[", "]^-ab\\", l, 2, 0, 5);
	memcpy(g_al, "a{2}", 4); g_nal = 4; for (l = 1; l <= (g_tier ? 2 : 5); l++) { chars("a{", "012,!}a{*|", l, 3, 0, 5); chars("{", "012,!}a{*|", l, 3, 0, 5); }
	memcpy(g_al, "ab$^", 4); for (l = 1; l <= (g_tier ? 3 : 6); l++) chars("", "ab()|*$^", l, 3, 0, g_tier || l == 6 ? 5 : 1);
	memcpy(g_al, "\r\nab", 4); for (l = 1; l <= (g_tier ? 3 : 5); l++) chars("", "a.\n()|+$", l, 4, 4, 3);
	longs(); bytes();
	/* the verbose flag changes nothing */
	memcpy(g_al, "ab\n", 3); g_nal = 3; for (l = 0; l <= 2; l++) { int d[2]; for (d[0] = 0; d[0] < (l > 0 ? NTOK : 1); d[0]++) for (d[1] = 0; d[1] < (l > 1 ? NTOK : 1); d[1]++) { int f, i, root; struct regex_machine *mc; struct regex_match *m = NULL; if (!mine()) continue;
		g_len = 0; for (i = 0; i < l; i++) { strcpy((char *)g_pat + g_len, tok[d[i]]); g_len = (int)strlen((char *)g_pat); }
		for (f = 16; f < 32; f++) { mc = compile(f, &root); m = NULL; if (mc && !g_failed) { m = regex_begin_match(mc); inputs(m, root, f, 3, 0); } done(m, mc); if (g_failed) break; } } }
	alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0);
	return 0;
}
