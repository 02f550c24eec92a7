/* Bounded explorer for LIR programs: every program of an enumerated family is compiled by the code generator
   under test, executed from every initial state of a bounded set, and the complete final machine state
   (registers, float registers, locals, memory, captured flags) is compared with a reference interpreter. */
#ifndef ENG_H
#define ENG_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "sljitLir.h"

typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32;
typedef uint16_t u16; typedef uint8_t u8; typedef int16_t s16; typedef int8_t s8;
typedef sljit_sw sw; typedef sljit_uw uw;

#define NR SLJIT_NUMBER_OF_REGISTERS
#define NF SLJIT_NUMBER_OF_FLOAT_REGISTERS
#define WB ((int)sizeof(sw))
#define WBITS (WB * 8)
#define IS64 (WB == 8)
#define R(i) SLJIT_R(i)
#define FR(i) SLJIT_FR(i)
#define ST SLJIT_S0
#define MEMSZ 256
#define LOCSZ 64
#define NCAP 24
#define NR_SCR (NR - 1)

typedef struct {
	sw reg[32];                 /* indexed by sljit register number */
	sw cap[NCAP];               /* words written by programs (flag captures) */
	void *body, *ret;
	sw lbase;
	u64 freg[32];
	u32 f32cap[32];
	u8 loc[LOCSZ] __attribute__((aligned(16)));
	u8 guard0[64];
	u8 mem[MEMSZ] __attribute__((aligned(64)));
	u8 guard1[64];
} st_t;

#define O_REG(r) ((sw)offsetof(st_t, reg) + (r) * WB)
#define O_CAP(i) ((sw)offsetof(st_t, cap) + (i) * WB)
#define O_FREG(r) ((sw)offsetof(st_t, freg) + (r) * 8)
#define O_F32(r) ((sw)offsetof(st_t, f32cap) + (r) * 4)
#define O_MEM ((sw)offsetof(st_t, mem))
#include <stddef.h>

enum { K_OP0 = 1, K_OP1, K_OP2, K_OP2U, K_OP2R, K_SHI, K_OPF, K_SEL, K_CMP, K_OP2Z, K_JMPF, K_FOP1, K_FOP2,
	K_FOP2R, K_FCMP, K_FSET32, K_FSET64, K_FCOPY, K_FSEL, K_MEM, K_MEMU, K_FMEM, K_FMEMU, K_LB, K_JUMP,
	K_CONST, K_LABEL, K_SETF, K_SRC, K_ATL, K_ATS, K_CUSTOM };

typedef struct { s32 t; sw w; } opn;
typedef struct { u8 k; u8 skip; s32 op; s32 type; opn d, a, b; double f; } ins_t;
#define MAXINS 32
enum { I_REG, I_MEM, I_LOC, I_FREG, I_FREG32, I_MEMF, I_MEMF32 };
enum { VS_CONST, VS_INT, VS_SHIFT, VS_SHIFT32, VS_SMALL, VS_F64, VS_F32, VS_INT32, VS_DIV, VS_CONV, VS_X64, VS_X32, VS_OUT64, VS_OUT32, VS_RND };
typedef struct { u8 kind; u8 slot; s16 where; sw c; } init_t; /* slot 0xff: constant c */
typedef struct {
	u64 idx;
	int n, ni, ns;
	u8 vs[3];
	u8 rv[34], fv[34];          /* static knowledge used while building: 32/64, 1/2 */
	u8 allow_unsup, tag;
	ins_t in[MAXINS];
	init_t it[40];
	int unsup;
} prog_t;

#define NWIN 12
#define WINSZ 64
typedef struct { st_t s; u8 rv[34]; u8 fv[34]; int z, v, vt; u8 win[NWIN][WINSZ]; } ref_t; /* rv: 0 undefined, 32, 64(word) */

/* ---------------------------------------------------------------- globals */
static int g_shard = 0, g_nshards = 1; static s64 g_only = -1; static int g_thorough = 0; static u64 g_seed = 1;
static int g_dump = 0;
static volatile u64 g_cur = 0; static const char *volatile g_phase = "init";
static u64 n_progs, n_runs, n_steps, n_states, n_unsup, n_undef, n_viol, g_idx, n_total;
static const char *g_suite = "?";
static u64 g_cursub;
static double g_deadline_s = 0; 
#include <time.h>
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_t0; static int g_capped;

static char g_samples[6][700]; static int g_nsamples;

static void jstr(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
		else if (*s == '\n') fputs("\\n", f);
		else if ((u8)*s < 32) fputc(' ', f);
		else fputc(*s, f);
	}
	fputc('"', f);
}

static void finish(int code)
{
	int i;
	printf("RESULT {\"suite\":\"%s\",\"platform\":", g_suite);
	jstr(stdout, sljit_get_platform_name());
	printf(",\"programs\":%llu,\"total\":%llu,\"runs\":%llu,\"transitions\":%llu,\"states\":%llu,\"unsupported\":%llu,\"undefined_skipped\":%llu,\"violations\":%llu,\"capped\":%d,\"samples\":[",
		(unsigned long long)n_progs, (unsigned long long)n_total, (unsigned long long)n_runs, (unsigned long long)n_steps, (unsigned long long)n_states,
		(unsigned long long)n_unsup, (unsigned long long)n_undef, (unsigned long long)n_viol, g_capped);
	for (i = 0; i < g_nsamples; i++) { if (i) putchar(','); jstr(stdout, g_samples[i]); }
	printf("]}\n");
	fflush(stdout);
	_exit(code);
}

static void violation(u64 idx, const char *key, const char *fmt, ...)
{
	char buf[3000]; va_list ap;
	va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
	n_viol++;
	printf("VIOL {\"suite\":\"%s\",\"idx\":%llu,\"key\":", g_suite, (unsigned long long)idx); jstr(stdout, key);
	printf(",\"msg\":"); jstr(stdout, buf); printf("}\n"); fflush(stdout);
	if (n_viol >= 60) finish(1);
}

static const char *g_crash_txt = ""; /* plain description of the current program */
static void on_sig(int sig)
{
	char b[900], t[620]; const char *q = g_crash_txt; int m = 0, n;
	for (; *q && m < 600; q++) { if (*q == '"' || *q == '\\') t[m++] = '\\'; t[m++] = (u8)*q < 32 ? ' ' : *q; }
	t[m] = 0;
	n = snprintf(b, sizeof(b), "\nCRASH {\"suite\":\"%s\",\"sig\":%d,\"idx\":%llu,\"sub\":%llu,\"phase\":\"%s\",\"txt\":\"%s\"}\n", g_suite, sig, (unsigned long long)g_cur, (unsigned long long)g_cursub, g_phase, t);
	if (sig == SIGABRT) fflush(stdout); /* the assertion message */
	if (write(1, b, (size_t)n)) {}
	_exit(3);
}
static void install_signals(void)
{
	static char alt[65536]; stack_t ss; struct sigaction sa; int s[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM }; unsigned i;
	memset(&ss, 0, sizeof(ss)); ss.ss_sp = alt; ss.ss_size = sizeof(alt); sigaltstack(&ss, NULL);
	memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESETHAND;
	for (i = 0; i < sizeof(s) / sizeof(*s); i++) sigaction(s[i], &sa, NULL);
}
#define TICK() alarm(100)

static int parse_args(int argc, char **argv)
{
	int i;
	for (i = 1; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "--shard")) g_shard = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--nshards")) g_nshards = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--only")) g_only = atoll(argv[i + 1]);
		else if (!strcmp(argv[i], "--thorough")) g_thorough = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--seed")) g_seed = (u64)atoll(argv[i + 1]);
		else if (!strcmp(argv[i], "--dump")) g_dump = atoi(argv[i + 1]);
		else if (!strcmp(argv[i], "--deadline")) g_deadline_s = atof(argv[i + 1]);
	}
	g_t0 = now_s();
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	install_signals();
	return 0;
}

/* ---------------------------------------------------------------- text */
static const char *opname1[] = { "mov","mov_u8","mov_s8","mov_u16","mov_s16","mov_u32","mov_s32","mov32","mov_p","clz","ctz","rev","rev_u16","rev_s16","rev_u32","rev_s32" };
static const char *opname2[] = { "add","addc","sub","subc","mul","and","or","xor","shl","mshl","lshr","mlshr","ashr","mashr","rotl","rotr" };
static const char *opnamef1[] = { "mov.f","conv_f.f","conv_sw.f","conv_s32.f","conv_f.sw","conv_f.s32","conv_f.uw","conv_f.u32","cmp.f","neg.f","abs.f" };
static const char *condname[] = { "eq","ne","lt","ge","gt","le","slt","sge","sgt","sle","ov","nov","c","nc","stored","nstored","f_eq","f_ne","f_lt","f_ge","f_gt","f_le","unord","ord",
	"o_eq","u_ne","o_lt","u_ge","o_gt","u_le","u_eq","o_ne","u_lt","o_ge","u_gt","o_le","jump","fast_call","call","call_reg_arg" };
static const char *kname[] = { "?","op0","op1","op2","op2u","op2r","shift_into","op_flags","select","cmp","op2cmpz","jump","fop1","fop2","fop2r","fcmp","fset32","fset64","fcopy","fselect","mem","mem_update","fmem","fmem_update","local_base","goto","const","label","set_flags","op_src","atomic_load","atomic_store","custom" };

static char *rname(char *o, int r, int f)
{
	if (f) return o + sprintf(o, "fr%d", r - 1);
	if (r == SLJIT_SP) return o + sprintf(o, "sp");
	if (r == ST) return o + sprintf(o, "st");
	return o + sprintf(o, "r%d", r - 1);
}
static char *oname(char *o, opn x, int f)
{
	if (x.t == 0) return o + sprintf(o, "-");
	if (x.t == SLJIT_IMM) return o + sprintf(o, "#0x%llx", (unsigned long long)(uw)x.w);
	if (x.t & SLJIT_MEM) {
		o += sprintf(o, "[");
		if (x.t & 0x7f) o = rname(o, x.t & 0x7f, 0);
		if (x.t >> 8) { o += sprintf(o, "+"); o = rname(o, x.t >> 8, 0); o += sprintf(o, "<<%d", (int)x.w); }
		else if (!(x.t & 0x7f)) o += sprintf(o, "abs");
		else o += sprintf(o, "%+lld", (long long)x.w);
		return o + sprintf(o, "]");
	}
	o = rname(o, x.t & 0x7f, f);
	if (x.t >> 8) { o += sprintf(o, ":"); o = rname(o, x.t >> 8, f); }
	return o;
}
static int opc(s32 op) { return op & 0xff; }
static char *iname(char *o, ins_t *i)
{
	int c = opc(i->op); int fl = i->k >= K_FOP1 && i->k <= K_FSEL && i->k != K_FCOPY;
	o += sprintf(o, "%s.", kname[i->k]);
	switch (i->k) {
	case K_OP1: case K_MEM: case K_MEMU: case K_CONST: case K_ATL: case K_ATS: o += sprintf(o, "%s", opname1[(c - SLJIT_OP1_BASE) & 15]); if (i->k != K_OP1) o += sprintf(o, "/%x", (unsigned)i->op); break;
	case K_OP2: case K_OP2U: case K_OP2Z: case K_SHI: case K_OPF:
		if (c >= SLJIT_OP2_BASE) o += sprintf(o, "%s", opname2[(c - SLJIT_OP2_BASE) & 15]); else o += sprintf(o, "mov"); break;
	case K_FOP1: o += sprintf(o, "%s", c - SLJIT_FOP1_BASE < 11 ? opnamef1[c - SLJIT_FOP1_BASE] : "?"); break;
	case K_FOP2: o += sprintf(o, "%s", c == SLJIT_ADD_F64 ? "add" : c == SLJIT_SUB_F64 ? "sub" : c == SLJIT_MUL_F64 ? "mul" : "div"); break;
	default: o += sprintf(o, "%x", (unsigned)i->op);
	}
	if (i->op & SLJIT_32) o += sprintf(o, "32");
	if (i->k == K_OP2 || i->k == K_OP2U || i->k == K_OP2Z || i->k == K_OPF || (i->k == K_FOP1 && c == SLJIT_CMP_F64)) {
		if (i->op & SLJIT_SET_Z) o += sprintf(o, ".z");
		if ((i->op >> 10) & 0x3f) o += sprintf(o, ".set_%s", condname[(i->op >> 10) & 0x3f]);
	}
	if (i->k == K_OPF || i->k == K_SEL || i->k == K_CMP || i->k == K_JMPF || i->k == K_FCMP || i->k == K_FSEL)
		o += sprintf(o, "(%s%s)", condname[i->type & 0x3f], (i->type & SLJIT_32) ? ",32" : "");
	o += sprintf(o, " "); o = oname(o, i->d, fl);
	if (i->a.t) { o += sprintf(o, ", "); o = oname(o, i->a, fl); }
	if (i->b.t) { o += sprintf(o, ", "); o = oname(o, i->b, fl); }
	if (i->k == K_SHI) o += sprintf(o, ", src2=%d", i->type);
	if (i->k == K_FSET32 || i->k == K_FSET64) o += sprintf(o, " %a", i->f);
	if (i->skip) o += sprintf(o, " skip %d", i->skip);
	return o + sprintf(o, "; ");
}
static void ptext(prog_t *p, char *o, int max)
{
	int i; char *s = o; *o = 0;
	for (i = 0; i < p->n; i++) { if (o - s > max - 160) { strcpy(o, "..."); return; } o = iname(o, &p->in[i]); }
}

/* ---------------------------------------------------------------- value sets */
static u64 fb(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u32 fb32(float d) { u32 x; memcpy(&x, &d, 4); return x; }
static double bf(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static float bf32(u32 x) { float d; memcpy(&d, &x, 4); return d; }

static u64 vs_vals[16][96]; static int vs_n[16];
static void vs_add(int s, u64 v) { int i; if (WB == 4 && (s < VS_F64 || s == VS_INT32 || s == VS_DIV || s == VS_RND)) v = (u64)(s64)(s32)v; for (i = 0; i < vs_n[s]; i++) if (vs_vals[s][i] == v) return; vs_vals[s][vs_n[s]++] = v; }
static void vs_init(void)
{
	static const u64 iv[] = { 0, 1, ~0ull, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffull, 0x8000000000000000ull,
		0x12345678, 0x9abcdef012345678ull, 0xffffffff80000000ull, 0x100000000ull, 0xff80, 0x8081828384858687ull, 0x7f, 0xfffffffffffffffeull };
	static const u64 sm[] = { 0, 1, ~0ull, 0x7fffffff, 0x80000000, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x9abcdef012345678ull };
	static const u64 i32v[] = { 0, 1, 0xffffffff, 2, 0x7fffffff, 0x80000000, 0x12345678, 0x9abcdef0, 0x80, 0xff7f, 0x8000, 0xfffffffe, 0x7f00ff01 };
	static const double fd[] = { 0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 1e300, 5e-324, 3.0, 0.1 };
	static const double cv[] = { 0.0, -0.0, 0.5, -0.5, 0.99999999, -0.99999999, 1.0, -1.0, 1.5, -1.5, 2.5, 2147483646.0, 2147483647.0, 2147483646.5, -2147483647.0, -2147483648.0, 1e6, -123456.789, 16777217.0,
		4503599627370497.5, -4503599627370497.5, 9007199254740993.0, 1152921504606846976.0, -9223372036854775808.0, 9223372036854774784.0, 4294967295.0, 4294967296.0, -4294967296.0 };
	unsigned i; int s;
	for (i = 0; i < sizeof(iv) / 8; i++) vs_add(VS_INT, iv[i]);
	for (i = 0; i < sizeof(sm) / 8; i++) vs_add(VS_SMALL, sm[i]);
	for (i = 0; i < sizeof(i32v) / 8; i++) vs_add(VS_INT32, i32v[i]);
	{ static const int sh[] = { 0, 1, 2, 7, 15, 31, 32, 33, 47, 63 }; for (i = 0; i < 10; i++) { if (sh[i] < WBITS) vs_add(VS_SHIFT, (u64)sh[i]); if (sh[i] < 32) vs_add(VS_SHIFT32, (u64)sh[i]); } }
	for (i = 0; i < sizeof(iv) / 8; i++) vs_add(VS_DIV, iv[i]);
	vs_add(VS_DIV, 3); vs_add(VS_DIV, 10); vs_add(VS_DIV, (u64)-7);
	for (i = 0; i < sizeof(fd) / 8; i++) { vs_add(VS_F64, fb(fd[i])); vs_add(VS_F32, fb32((float)fd[i])); }
	vs_add(VS_F64, fb(INFINITY)); vs_add(VS_F64, fb(-INFINITY)); vs_add(VS_F64, 0x7ff8000000000000ull); vs_add(VS_F64, fb(-1e-308)); vs_add(VS_F64, fb(1.7976931348623157e308)); vs_add(VS_F64, fb(16777217.0)); vs_add(VS_F64, fb(1e-42));
	vs_add(VS_F32, fb32(INFINITY)); vs_add(VS_F32, fb32(-INFINITY)); vs_add(VS_F32, 0x7fc00000); vs_add(VS_F32, 1); vs_add(VS_F32, 0x7f7fffff);
	for (i = 0; i < sizeof(cv) / 8; i++) vs_add(VS_CONV, fb(cv[i]));
	{ static const u64 x64[] = { 0, 1ull << 63, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x3ff0000000000001ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000001234ull, 1, 0x800fffffffffffffull, 0x0010000000000000ull,
		0x7fefffffffffffffull, 0x4008000000000000ull, 0x3fb999999999999aull, 0xc1e0000000000000ull, 0x41dfffffffc00000ull, 0x47efffffe0000000ull, 0x47efffffefffffffull, 0x47effffff0000000ull, 0x3690000000000000ull, 0x36a0000000000000ull, 0x380fffffe0000000ull, 0x3ff0000010000000ull, 0x3ff0000030000000ull };
	static const u32 x32[] = { 0, 0x80000000u, 0x3f800000, 0xbf800000u, 0x3f800001, 0x7f800000, 0xff800000u, 0x7fc00000, 0xffc01234u, 1, 0x807fffffu, 0x00800000, 0x7f7fffff, 0x40400000, 0x3dcccccd, 0xcf000000u, 0x4effffff, 0x4b800000, 0x4b800001, 0x33800000 };
	static const double o64[] = { 2147483648.0, 2147483647.5, 2147483648.5, -2147483649.0, -2147483648.5, -2147483650.0, 4294967296.0, 9223372036854775808.0, -9223372036854777856.0, 1e19, -1e19, 1.8446744073709552e19, 1e300, -1e300, 3e9, -3e9 };
	static const u64 rn[] = { 0, 1, ~0ull, 0x7fffffff, 0x80000000, 0xffffffff, 0x1000001, 0x1000002, 0x1000003, 0x7fffffc0, 0x7fffff80, 0x7fffffbf, 0xffffff80, 0xffffff7f, 0xfffffe7f, 0xff000001, 0x8000000000000000ull, 0x7fffffffffffffffull, 0xfffffffffffffbffull, 0xfffffffffffffc00ull, 0xfffffffffffffc01ull,
		0x8000000000000400ull, 0x8000000000000401ull, 0x8000000000000bffull, 0x8000000000000c00ull, 0x8000000000000c01ull, 0x20000000000001ull, 0x20000000000003ull, 0x40000000000002ull, 0x40000000000003ull, 0x8000008000000000ull, 0x8000008000000001ull, 0x8000018000000000ull, 0x8000017fffffffffull, 0x7fffffbfffffffffull, 0x7fffffc000000000ull, 0xffffff7fffffffffull, 0xffffff8000000000ull,
		0x0100000100000000ull, 0x0100000000000001ull, 0x0080000080000000ull, 0x0080000080000001ull, 0xfffffffe80000000ull, 0x123456789abcdef0ull, 0xfedcba9876543210ull, 0x8000000000000001ull };
	for (i = 0; i < sizeof(x64) / 8; i++) vs_add(VS_X64, x64[i]);
	for (i = 0; i < sizeof(x32) / 4; i++) vs_add(VS_X32, x32[i]);
	for (i = 0; i < sizeof(o64) / 8; i++) { vs_add(VS_OUT64, fb(o64[i])); vs_add(VS_OUT32, fb32((float)o64[i])); }
	vs_add(VS_OUT64, fb(INFINITY)); vs_add(VS_OUT64, fb(-INFINITY)); vs_add(VS_OUT64, 0x7ff8000000000000ull); vs_add(VS_OUT64, 0xfff8000000000000ull);
	vs_add(VS_OUT32, fb32(INFINITY)); vs_add(VS_OUT32, fb32(-INFINITY)); vs_add(VS_OUT32, 0x7fc00000); vs_add(VS_OUT32, 0xffc00000u);
	for (i = 0; i < sizeof(cv) / 8; i++) vs_add(VS_OUT32, fb32((float)cv[i]));
	for (i = 0; i < sizeof(rn) / 8; i++) vs_add(VS_RND, rn[i]); }
	(void)s;
}

/* ---------------------------------------------------------------- reference interpreter */
static int ref_err; /* set: behaviour undefined by the API for this input, run skipped */
static uw sext32(uw x) { return (uw)(sw)(s32)x; }

/* address -> pointer into the reference copy */
static st_t *g_st; /* the real state block (fixed address) */
static u8 *g_win[NWIN]; static int g_nwin; /* data windows at chosen absolute addresses, may be unmapped (NULL) */
static u8 *rptr(ref_t *r, uw a, int len)
{
	uw base = (uw)g_st, lb = (uw)r->s.lbase;
	if (a >= base && a + (uw)len <= base + sizeof(st_t)) return (u8 *)&r->s + (a - base);
	if (lb && a >= lb && a + (uw)len <= lb + LOCSZ) return r->s.loc + (a - lb);
	{ int i; for (i = 0; i < NWIN; i++) if (g_win[i] && a >= (uw)g_win[i] && a - (uw)g_win[i] + (uw)len <= WINSZ) return r->win[i] + (a - (uw)g_win[i]); }
	ref_err = 2; /* generator error: reported, never executed */
	return r->s.mem;
}
static uw raddr(ref_t *r, opn x)
{
	uw a;
	if (x.t == SLJIT_MEM1(SLJIT_SP)) return (uw)r->s.lbase + (uw)x.w;
	if (!(x.t & 0x7f)) return (uw)x.w;
	a = (uw)r->s.reg[x.t & 0x7f];
	if (x.t >> 8) return a + ((uw)r->s.reg[x.t >> 8] << (x.w & 3));
	return a + (uw)x.w;
}
static uw rd(ref_t *r, uw a, int len, int sg)
{
	u8 *p = rptr(r, a, len); u8 b; u16 h; u32 w; u64 q;
	switch (len) {
	case 1: memcpy(&b, p, 1); return sg ? (uw)(sw)(s8)b : b;
	case 2: memcpy(&h, p, 2); return sg ? (uw)(sw)(s16)h : h;
	case 4: memcpy(&w, p, 4); return sg ? (uw)(sw)(s32)w : w;
	default: memcpy(&q, p, 8); return (uw)q;
	}
}
static void wr(ref_t *r, uw a, int len, uw v)
{
	u8 *p = rptr(r, a, len); u8 b = (u8)v; u16 h = (u16)v; u32 w = (u32)v; u64 q = (u64)v;
	switch (len) { case 1: memcpy(p, &b, 1); break; case 2: memcpy(p, &h, 2); break; case 4: memcpy(p, &w, 4); break; default: memcpy(p, &q, 8); }
}
/* integer operand of a plain operation (w32: 32 bit form) */
static uw iget(ref_t *r, opn x, int w32)
{
	if (x.t == SLJIT_IMM) return w32 ? sext32((uw)x.w) : (uw)x.w;
	if (x.t & SLJIT_MEM) return (w32 && IS64) ? rd(r, raddr(r, x), 4, 1) : rd(r, raddr(r, x), WB, 1);
	if (w32 && IS64) return sext32((uw)r->s.reg[x.t]);
	return (uw)r->s.reg[x.t];
}
static void iput(ref_t *r, opn x, uw v, int w32)
{
	if (x.t & SLJIT_MEM) { wr(r, raddr(r, x), (w32 && IS64) ? 4 : WB, v); return; }
	r->s.reg[x.t] = (sw)v; r->rv[x.t] = (w32 && IS64) ? 32 : 64;
}
static u64 nbits(int w32) { return w32 ? 32 : (u64)WBITS; }
static uw msk(uw v, int w32) { return w32 ? (uw)(u32)v : v; }

static uw ref_op2(ref_t *r, s32 op, uw a, uw b, int *undef)
{
	int w32 = (op & SLJIT_32) || !IS64; uw n = (uw)nbits(w32), res = 0, ua = msk(a, w32), ub = msk(b, w32); int c = opc(op);
	sw sa = w32 ? (sw)(s32)a : (sw)a, sb = w32 ? (sw)(s32)b : (sw)b; int z, lt, slt, ov = 0, cf = 0; int ft = (op >> 10) & 0x3f;
	int cin = 0;
	if (c == SLJIT_ADDC || c == SLJIT_SUBC) { if (r->v < 0 || r->vt != SLJIT_CARRY) { *undef = 1; return 0; } cin = r->v; }
	switch (c) {
	case SLJIT_ADD: res = ua + ub; break;
	case SLJIT_ADDC: res = ua + ub + (uw)cin; break;
	case SLJIT_SUB: res = ua - ub; break;
	case SLJIT_SUBC: res = ua - ub - (uw)cin; break;
	case SLJIT_MUL: res = ua * ub; break;
	case SLJIT_AND: res = ua & ub; break;
	case SLJIT_OR: res = ua | ub; break;
	case SLJIT_XOR: res = ua ^ ub; break;
	case SLJIT_SHL: if (ub >= n) *undef = 1; /* fallthrough */
	case SLJIT_MSHL: res = ua << (ub & (n - 1)); break;
	case SLJIT_LSHR: if (ub >= n) *undef = 1; /* fallthrough */
	case SLJIT_MLSHR: res = ua >> (ub & (n - 1)); break;
	case SLJIT_ASHR: if (ub >= n) *undef = 1; /* fallthrough */
	case SLJIT_MASHR: res = (uw)(sa >> (ub & (n - 1))); break;
	case SLJIT_ROTL: ub &= n - 1; res = ub ? (ua << ub) | (ua >> (n - ub)) : ua; break;
	case SLJIT_ROTR: ub &= n - 1; res = ub ? (ua >> ub) | (ua << (n - ub)) : ua; break;
	}
	res = msk(res, w32);
	z = res == 0; lt = ua < ub; slt = sa < sb;
	{ sw sr = w32 ? (sw)(s32)res : (sw)res;
	if (c == SLJIT_ADD) { ov = ((sa ^ sr) & (sb ^ sr)) < 0; cf = res < ua; }
	if (c == SLJIT_ADDC) { cf = res < ua || (cin && res == ua); }
	if (c == SLJIT_SUB) { ov = ((sa ^ sb) & (sa ^ sr)) < 0; cf = ua < ub; }
	if (c == SLJIT_SUBC) { cf = ua < ub || (cin && ua == ub); }
	if (c == SLJIT_MUL) {
		if (w32) { s64 m = (s64)(s32)ua * (s64)(s32)ub; ov = m != (s64)(s32)m; }
		else { sw m; ov = __builtin_mul_overflow((sw)ua, (sw)ub, &m); }
	} }
	r->z = (op & SLJIT_SET_Z) ? z : -1;
	r->v = -1; r->vt = ft;
	switch (ft) {
	case SLJIT_LESS: r->v = lt; break; case SLJIT_GREATER: r->v = ub < ua; break;
	case SLJIT_SIG_LESS: r->v = slt; break; case SLJIT_SIG_GREATER: r->v = sb < sa; break;
	case SLJIT_OVERFLOW: r->v = ov; break; case SLJIT_CARRY: r->v = cf; break;
	}
	return w32 ? sext32(res) : res;
}
static int bswap_len(int c) { return c == SLJIT_REV ? WB : (c == SLJIT_REV_U16 || c == SLJIT_REV_S16) ? 2 : 4; }
static uw bswapn(uw v, int len) { uw r = 0; int i; for (i = 0; i < len; i++) r |= ((v >> (8 * i)) & 0xff) << (8 * (len - 1 - i)); return r; }
static int mlen(int c)
{
	switch (c) { case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: return 2;
	case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: return 4; default: return WB; }
}
static uw ext(int c, uw v)
{
	switch (c) { case SLJIT_MOV_U8: return (u8)v; case SLJIT_MOV_S8: return (uw)(sw)(s8)v; case SLJIT_MOV_U16: return (u16)v; case SLJIT_MOV_S16: return (uw)(sw)(s16)v;
	case SLJIT_MOV_U32: return (u32)v; case SLJIT_MOV_S32: case SLJIT_MOV32: return (uw)(sw)(s32)v; default: return v; }
}
static void ref_op1(ref_t *r, s32 op, opn d, opn a)
{
	int c = opc(op), w32 = (op & SLJIT_32) && IS64, len; uw v, n;
	if (c <= SLJIT_MOV_P) {
		int res32 = IS64 && (w32 || c == SLJIT_MOV32);
		len = mlen(c);
		if (a.t & SLJIT_MEM) v = ext(c, rd(r, raddr(r, a), len, 0));
		else if (a.t == SLJIT_IMM) v = ext(c, (uw)a.w);
		else v = ext(c, (uw)r->s.reg[a.t]);
		if (d.t & SLJIT_MEM) wr(r, raddr(r, d), len, v);
		else { r->s.reg[d.t] = (sw)v; r->rv[d.t] = res32 ? 32 : 64; }
		return;
	}
	r->z = r->v = -1;
	if (c == SLJIT_CLZ || c == SLJIT_CTZ) {
		v = msk(iget(r, a, w32), w32 || !IS64); n = 0; len = (int)nbits(w32 || !IS64);
		if (c == SLJIT_CLZ) { while ((int)n < len && !((v >> (len - 1 - (int)n)) & 1)) n++; }
		else { while ((int)n < len && !((v >> n) & 1)) n++; }
		iput(r, d, n, w32); return;
	}
	len = (c == SLJIT_REV && w32) ? 4 : bswap_len(c);
	if (a.t & SLJIT_MEM) v = rd(r, raddr(r, a), len, 0); else v = (uw)r->s.reg[a.t];
	v = bswapn(v, len);
	if (c == SLJIT_REV_S16) v = (uw)(sw)(s16)v;
	if (c == SLJIT_REV_S32 || (c == SLJIT_REV && len == 4)) v = (uw)(sw)(s32)v;
	if (d.t & SLJIT_MEM) wr(r, raddr(r, d), len, v);
	else { r->s.reg[d.t] = (sw)v; r->rv[d.t] = w32 ? 32 : 64; }
}
static int ref_cond(ref_t *r, int t)
{
	t &= 0x3f;
	if (t == SLJIT_EQUAL || t == SLJIT_NOT_EQUAL) { if (r->z < 0) { ref_err = 1; return 0; } return r->z ^ (t & 1); }
	if (r->v < 0 || r->vt != (t & ~1)) { ref_err = 1; return 0; }
	return r->v ^ (t & 1);
}
static int ref_icmp(int t, uw a, uw b, int w32)
{
	uw ua = msk(a, w32), ub = msk(b, w32); sw sa = w32 ? (sw)(s32)a : (sw)a, sb = w32 ? (sw)(s32)b : (sw)b;
	switch (t & 0x3f & ~1) {
	case SLJIT_EQUAL: return (ua == ub) ^ (t & 1); case SLJIT_LESS: return (ua < ub) ^ (t & 1); case SLJIT_GREATER: return (ua > ub) ^ (t & 1);
	case SLJIT_SIG_LESS: return (sa < sb) ^ (t & 1); default: return (sa > sb) ^ (t & 1); }
}
/* 0/1, or -1 when the condition is unspecified for unordered operands */
static int ref_fcmp(int t, double a, double b)
{
	int un = a != a || b != b, v; t &= 0x3f;
	switch (t & ~1) {
	case SLJIT_F_EQUAL: v = un ? -1 : a == b; break;
	case SLJIT_F_LESS: v = un ? -1 : a < b; break;
	case SLJIT_F_GREATER: v = un ? -1 : a > b; break;
	case SLJIT_UNORDERED: v = un; break;
	case SLJIT_ORDERED_EQUAL: v = !un && a == b; break;
	case SLJIT_ORDERED_LESS: v = !un && a < b; break;
	case SLJIT_ORDERED_GREATER: v = !un && a > b; break;
	case SLJIT_UNORDERED_OR_EQUAL: v = un || a == b; break;
	case SLJIT_UNORDERED_OR_LESS: v = un || a < b; break;
	case SLJIT_UNORDERED_OR_GREATER: v = un || a > b; break;
	default: v = -1;
	}
	return v < 0 ? v : v ^ (t & 1);
}
/* pair mode: a single precision register is one half of a double precision register (ARM, MIPS) */
static int g_pair;
#define F64SEC ((int)(SLJIT_F64_SECOND(SLJIT_FR0) - SLJIT_FR0))
static u32 pget(ref_t *r, int t) { int h = t > NF; if (h) t -= F64SEC; return (u32)(r->s.freg[t] >> (h ? 32 : 0)); }
static void pput(ref_t *r, int t, u32 v) { int h = t > NF; if (h) t -= F64SEC; if (g_pair == 2) r->fv[t] = 1; r->s.freg[t] = h ? (r->s.freg[t] & 0xffffffffull) | ((u64)v << 32) : (r->s.freg[t] & ~0xffffffffull) | v; }
static double fget(ref_t *r, opn x, int f32)
{
	if (x.t & SLJIT_MEM) {
		u8 *p = rptr(r, raddr(r, x), f32 ? 4 : 8); u32 w; u64 q;
		if (f32) { memcpy(&w, p, 4); return bf32(w); }
		memcpy(&q, p, 8); return bf(q);
	}
	if (g_pair && f32) return bf32(pget(r, x.t));
	if (r->fv[x.t] != (f32 ? 1 : 2)) ref_err = 3;
	return f32 ? (double)bf32((u32)r->s.freg[x.t]) : bf(r->s.freg[x.t]);
}
static u64 fgetbits(ref_t *r, opn x, int f32)
{
	if (x.t & SLJIT_MEM) { u8 *p = rptr(r, raddr(r, x), f32 ? 4 : 8); u32 w; u64 q; if (f32) { memcpy(&w, p, 4); return w; } memcpy(&q, p, 8); return q; }
	if (g_pair && f32) return pget(r, x.t);
	if (r->fv[x.t] != (f32 ? 1 : 2)) ref_err = 3;
	return r->s.freg[x.t];
}
#define NANMARK 0x100
/* where float values were stored by the program (offset in the state block): in a program which computes, a NaN there may have any payload */
static int nanw_n; static struct { long off; int len; } nanw[64];
static void nan_note(ref_t *r, u8 *p, int f32) { long o = (long)(p - (u8 *)&r->s); if (o >= 0 && o < (long)sizeof(st_t) && nanw_n < 64) { nanw[nanw_n].off = o; nanw[nanw_n++].len = f32 ? 4 : 8; } }
static void fputbits(ref_t *r, opn x, u64 v, int f32, int mustnan)
{
	/* NaN produced by computation: any NaN is right; represented canonically, comparison treats NaNs as equal */
	(void)mustnan;
	if (x.t & SLJIT_MEM) { u8 *p = rptr(r, raddr(r, x), f32 ? 4 : 8); u32 w = (u32)v; if (f32) memcpy(p, &w, 4); else memcpy(p, &v, 8); nan_note(r, p, f32); return; }
	if (g_pair && f32) { pput(r, x.t, (u32)v); return; }
	r->s.freg[x.t] = f32 ? (u32)v : v; r->fv[x.t] = f32 ? 1 : 2;
}
static uw conv_to_int(double d, int bits)
{
	s64 mx = bits == 64 ? INT64_MAX : INT32_MAX, mn = bits == 64 ? INT64_MIN : INT32_MIN; int k;
	double hi = bits == 64 ? 9223372036854775808.0 : 2147483648.0, lo = bits == 64 ? -9223372036854775808.0 : -2147483649.0;
	if (d != d) k = SLJIT_CONV_NAN_FLOAT;
	else if (d >= hi) k = SLJIT_CONV_MAX_FLOAT;
	else if (bits == 64 ? d < lo : d <= lo) k = SLJIT_CONV_MIN_FLOAT;
	else return (uw)(s64)d;
	return k == SLJIT_CONV_RESULT_MAX_INT ? (uw)mx : k == SLJIT_CONV_RESULT_MIN_INT ? (uw)mn : 0;
}
/* returns number of following instructions to skip */
static int ref_step(ref_t *r, ins_t *i)
{
	int c = opc(i->op), w32 = (i->op & SLJIT_32) && IS64, f32 = (i->op & SLJIT_32) != 0, un = 0; uw v, a, b; double x, y;
	switch (i->k) {
	case K_CUSTOM: { ins_t t = *i; t.b = t.a; t.a = t.d; t.k = i->type == 1 ? K_FOP2 : K_OP2; t.op = i->type == 1 ? SLJIT_ADD_F64 : SLJIT_ADD; return ref_step(r, &t); }
	case K_OP0:
		if (c == SLJIT_NOP || c == SLJIT_MEMORY_BARRIER || c == SLJIT_ENDBR) return 0;
		if (c == SLJIT_SKIP_FRAMES_BEFORE_RETURN) { r->z = r->v = -1; return 0; }
		a = (uw)r->s.reg[SLJIT_R0]; b = (uw)r->s.reg[SLJIT_R1]; r->z = r->v = -1;
		if (c == SLJIT_LMUL_UW) {
			if (IS64) { unsigned long long hi, lo; u64 al = (u32)a, ah = (u64)a >> 32, bl = (u32)b, bh = (u64)b >> 32, t, k, w1, w2;
				t = al * bl; lo = (u32)t; k = t >> 32; t = ah * bl + k; w1 = (u32)t; w2 = t >> 32; t = al * bh + w1; hi = ah * bh + w2 + (t >> 32); lo |= t << 32;
				r->s.reg[SLJIT_R0] = (sw)lo; r->s.reg[SLJIT_R1] = (sw)hi; }
			else { u64 m = (u64)(u32)a * (u32)b; r->s.reg[SLJIT_R0] = (sw)(u32)m; r->s.reg[SLJIT_R1] = (sw)(m >> 32); }
			return 0;
		}
		if (c == SLJIT_LMUL_SW) {
			if (IS64) { u64 al = (u32)a, ah = (u64)a >> 32, bl = (u32)b, bh = (u64)b >> 32, t, k, w1, w2, hi, lo;
				t = al * bl; lo = (u32)t; k = t >> 32; t = ah * bl + k; w1 = (u32)t; w2 = t >> 32; t = al * bh + w1; hi = ah * bh + w2 + (t >> 32); lo |= t << 32;
				if ((sw)a < 0) hi -= (u64)b;
				if ((sw)b < 0) hi -= (u64)a;
				r->s.reg[SLJIT_R0] = (sw)lo; r->s.reg[SLJIT_R1] = (sw)hi; }
			else { s64 m = (s64)(s32)a * (s32)b; r->s.reg[SLJIT_R0] = (sw)(s32)m; r->s.reg[SLJIT_R1] = (sw)(s32)(m >> 32); }
			return 0;
		}
		{ uw q, m; int sg = c == SLJIT_DIVMOD_SW || c == SLJIT_DIV_SW;
		if (msk(b, w32 || !IS64) == 0) { ref_err = 1; return 0; }
		if (!sg) { uw ua = msk(a, w32 || !IS64), ub = msk(b, w32 || !IS64); q = ua / ub; m = ua % ub; }
		else if (w32 || !IS64) { if ((s32)b == -1 && (s32)a == INT32_MIN) { ref_err = 1; return 0; } q = (uw)(sw)((s32)a / (s32)b); m = (uw)(sw)((s32)a % (s32)b); }
		else { if ((sw)b == -1 && (s64)a == INT64_MIN) { ref_err = 1; return 0; } q = (uw)((sw)a / (sw)b); m = (uw)((sw)a % (sw)b); }
		r->s.reg[SLJIT_R0] = (sw)q; r->rv[SLJIT_R0] = w32 ? 32 : 64;
		if (c == SLJIT_DIVMOD_UW || c == SLJIT_DIVMOD_SW) { r->s.reg[SLJIT_R1] = (sw)m; r->rv[SLJIT_R1] = w32 ? 32 : 64; } }
		return 0;
	case K_OP1: ref_op1(r, i->op, i->d, i->a); return 0;
	case K_CONST: ref_op1(r, i->op, i->d, i->a); return 0;
	case K_OP2: case K_OP2U: case K_OP2Z:
		a = iget(r, i->a, w32); b = iget(r, i->b, w32);
		if (i->b.t == SLJIT_IMM && c >= SLJIT_SHL && c <= SLJIT_MASHR) b &= (uw)nbits(w32 || !IS64) - 1;
		{ s32 o = i->k == K_OP2Z ? (i->op | SLJIT_SET_Z) : i->op; int z;
		v = ref_op2(r, o, a, b, &un); if (un) { ref_err = 1; return 0; }
		if (i->k != K_OP2U) iput(r, i->d, v, w32);
		if (i->k == K_OP2Z) { z = r->z; r->z = -1; if ((i->op & SLJIT_JUMP_IF_ZERO) ? z : !z) return i->skip; } }
		return 0;
	case K_OP2R: a = iget(r, i->a, w32); b = iget(r, i->b, w32); r->z = r->v = -1; iput(r, i->d, msk((uw)r->s.reg[i->d.t] + a * b, w32), w32); return 0;
	case K_SHI: {
		uw n = (uw)nbits(w32 || !IS64), s3 = msk(iget(r, i->b, w32), w32 || !IS64), s1, s2; int o = c;
		s1 = msk((uw)r->s.reg[i->a.t & 0xff], w32 || !IS64); s2 = msk((uw)r->s.reg[i->type], w32 || !IS64);
		if (i->b.t == SLJIT_IMM || o == SLJIT_MSHL || o == SLJIT_MLSHR) s3 &= n - 1;
		if (s3 >= n) { ref_err = 1; return 0; }
		if ((i->op & SLJIT_SHIFT_INTO_NON_ZERO) && s3 == 0) { ref_err = 1; return 0; }
		if (o == SLJIT_SHL || o == SLJIT_MSHL) v = (s1 << s3) | ((s2 >> 1) >> (s3 ^ (n - 1)));
		else v = (s1 >> s3) | msk(msk(s2 << 1, w32 || !IS64) << (s3 ^ (n - 1)), w32 || !IS64);
		r->z = r->v = -1; iput(r, i->d, msk(v, w32 || !IS64), w32); return 0; }
	case K_OPF: {
		int f = ref_cond(r, i->type);
		if (c < SLJIT_OP2_BASE) { iput(r, i->d, (uw)f, w32 || c == SLJIT_MOV32); return 0; }
		a = iget(r, i->d, w32); v = ref_op2(r, (i->op & ~(0x3f << 10)), a, (uw)f, &un);
		iput(r, i->d, v, w32); r->v = -1; return 0; }
	case K_SEL: {
		int f = ref_cond(r, i->type); int t32 = (i->type & SLJIT_32) && IS64;
		a = iget(r, i->a, t32); b = (uw)r->s.reg[i->b.t]; iput(r, i->d, f ? a : b, t32); return 0; }
	case K_CMP: { int t32 = (i->type & SLJIT_32) || !IS64; a = iget(r, i->a, t32 && IS64); b = iget(r, i->b, t32 && IS64); r->z = r->v = -1; return ref_icmp(i->type, a, b, t32) ? i->skip : 0; }
	case K_JMPF: { int f = ref_cond(r, i->type); if (r->vt == SLJIT_CARRY) { r->v = -1; } return f ? i->skip : 0; }
	case K_JUMP: return i->skip;
	case K_LABEL: return 0;
	case K_SETF: return 0;
	case K_SRC: return 0;
	case K_FOP1:
		if (c == SLJIT_MOV_F64) { fputbits(r, i->d, fgetbits(r, i->a, f32), f32, 0); return 0; }
		if (c == SLJIT_NEG_F64) { r->z = r->v = -1; fputbits(r, i->d, fgetbits(r, i->a, f32) ^ (f32 ? 0x80000000ull : 1ull << 63), f32, 0); return 0; }
		if (c == SLJIT_ABS_F64) { r->z = r->v = -1; fputbits(r, i->d, fgetbits(r, i->a, f32) & ~(f32 ? 0x80000000ull : 1ull << 63), f32, 0); return 0; }
		if (c == SLJIT_CMP_F64) { int ft = (i->op >> 10) & 0x3f; x = fget(r, i->d, f32); y = fget(r, i->a, f32); r->z = -1; r->vt = ft; r->v = ft ? ref_fcmp(ft, x, y) : -1; return 0; }
		r->z = r->v = -1;
		if (c == SLJIT_CONV_F64_FROM_F32) { x = fget(r, i->a, !f32); fputbits(r, i->d, f32 ? fb32((float)x) : fb(x), f32, 0); return 0; }
		if (c == SLJIT_CONV_SW_FROM_F64 || c == SLJIT_CONV_S32_FROM_F64) {
			int b32 = c == SLJIT_CONV_S32_FROM_F64; x = fget(r, i->a, f32); v = conv_to_int(x, b32 || !IS64 ? 32 : 64); iput(r, i->d, v, b32 && IS64); return 0; }
		{ int srcw32 = c == SLJIT_CONV_F64_FROM_S32 || c == SLJIT_CONV_F64_FROM_U32; int uns = c == SLJIT_CONV_F64_FROM_UW || c == SLJIT_CONV_F64_FROM_U32;
		v = iget(r, i->a, srcw32 && IS64);
		if (srcw32 || !IS64) { if (uns) { u32 q = (u32)v; fputbits(r, i->d, f32 ? fb32((float)q) : fb((double)q), f32, 0); } else { s32 q = (s32)v; fputbits(r, i->d, f32 ? fb32((float)q) : fb((double)q), f32, 0); } }
		else if (uns) { u64 q = v; fputbits(r, i->d, f32 ? fb32((float)q) : fb((double)q), f32, 0); } else { s64 q = (s64)v; fputbits(r, i->d, f32 ? fb32((float)q) : fb((double)q), f32, 0); } }
		return 0;
	case K_FOP2:
		x = fget(r, i->a, f32); y = fget(r, i->b, f32); r->z = r->v = -1;
		if (f32) { volatile float p = (float)x, q = (float)y, s; s = c == SLJIT_ADD_F64 ? p + q : c == SLJIT_SUB_F64 ? p - q : c == SLJIT_MUL_F64 ? p * q : p / q; fputbits(r, i->d, fb32(s), 1, 1); }
		else { volatile double p = x, q = y, s; s = c == SLJIT_ADD_F64 ? p + q : c == SLJIT_SUB_F64 ? p - q : c == SLJIT_MUL_F64 ? p * q : p / q; fputbits(r, i->d, fb(s), 0, 1); }
		return 0;
	case K_FOP2R: {
		u64 p = fgetbits(r, i->a, f32), q = fgetbits(r, i->b, f32), sb = f32 ? 0x80000000ull : 1ull << 63; r->z = r->v = -1;
		fputbits(r, i->d, (p & ~sb) | (q & sb), f32, 0); return 0; }
	case K_FCMP: { int t32 = (i->type & SLJIT_32) != 0, f; x = fget(r, i->a, t32); y = fget(r, i->b, t32); r->z = r->v = -1; f = ref_fcmp(i->type, x, y); if (f < 0) { ref_err = 1; return 0; } return f ? i->skip : 0; }
	case K_FSET32: fputbits(r, i->d, fb32((float)i->f), 1, 0); return 0;
	case K_FSET64: fputbits(r, i->d, fb(i->f), 0, 0); return 0;
	case K_FCOPY:
		/* d: float reg, a: int reg or pair */
		if (i->op == SLJIT_COPY_TO_F64) {
			if (IS64) r->s.freg[i->d.t] = (u64)r->s.reg[i->a.t];
			else if (i->a.t >> 8) r->s.freg[i->d.t] = ((u64)(u32)r->s.reg[i->a.t & 0xff] << 32) | (u32)r->s.reg[i->a.t >> 8];
			else r->s.freg[i->d.t] = ((u64)(u32)r->s.reg[i->a.t] << 32) | (u32)r->s.freg[i->d.t];
			r->fv[i->d.t] = 2;
		} else if (i->op == SLJIT_COPY32_TO_F32) { r->s.freg[i->d.t] = (u32)r->s.reg[i->a.t]; r->fv[i->d.t] = 1; }
		else if (i->op == SLJIT_COPY_FROM_F64) {
			if (IS64) { r->s.reg[i->a.t] = (sw)r->s.freg[i->d.t]; r->rv[i->a.t] = 64; }
			else { if (i->a.t >> 8) { r->s.reg[i->a.t >> 8] = (sw)(s32)r->s.freg[i->d.t]; r->rv[i->a.t >> 8] = 64; } r->s.reg[i->a.t & 0xff] = (sw)(s32)(r->s.freg[i->d.t] >> 32); r->rv[i->a.t & 0xff] = 64; }
		} else { r->s.reg[i->a.t] = (sw)(s32)r->s.freg[i->d.t]; r->rv[i->a.t] = 32; }
		return 0;
	case K_FSEL: { int f = ref_cond(r, i->type); int t32 = (i->type & SLJIT_32) != 0; u64 p = fgetbits(r, i->a, t32), q = fgetbits(r, i->b, t32); fputbits(r, i->d, f ? p : q, t32, 0); return 0; }
	case K_MEM: case K_MEMU: {
		int st = (i->op & SLJIT_MEM_STORE) != 0, len = mlen(c), base = i->a.t & 0x7f; uw ad, nb = 0;
		int upd = i->k == K_MEMU;
		if (upd) {
			uw off = (i->a.t >> 8) ? ((uw)r->s.reg[i->a.t >> 8] << (i->a.w & 3)) : (uw)i->a.w;
			nb = (uw)r->s.reg[base] + off; ad = (i->op & SLJIT_MEM_POST) ? (uw)r->s.reg[base] : nb;
		} else ad = raddr(r, i->a);
		if (i->d.t >> 8) { /* pair */
			int r1 = i->d.t & 0x7f, r2 = i->d.t >> 8; uw v1, v2;
			if (st) { v1 = (uw)r->s.reg[r1]; v2 = (uw)r->s.reg[r2]; wr(r, ad, WB, v1); wr(r, ad + (uw)WB, WB, v2); }
			else { v1 = rd(r, ad, WB, 1); v2 = rd(r, ad + (uw)WB, WB, 1); r->s.reg[r1] = (sw)v1; r->s.reg[r2] = (sw)v2; r->rv[r1] = r->rv[r2] = 64; }
		} else if (st) wr(r, ad, len, (uw)r->s.reg[i->d.t]);
		else { v = ext(c, rd(r, ad, len, 0)); if (upd) r->s.reg[base] = (sw)nb; r->s.reg[i->d.t] = (sw)v; r->rv[i->d.t] = (IS64 && (w32 || c == SLJIT_MOV32)) ? 32 : 64; return 0; }
		if (upd) r->s.reg[base] = (sw)nb;
		return 0; }
	case K_FMEM: case K_FMEMU: {
		int st = (i->op & SLJIT_MEM_STORE) != 0, base = i->a.t & 0x7f, len = f32 ? 4 : 8; uw ad, nb = 0; u8 *p; int upd = i->k == K_FMEMU; u32 w; u64 q;
		if (upd) { uw off = (i->a.t >> 8) ? ((uw)r->s.reg[i->a.t >> 8] << (i->a.w & 3)) : (uw)i->a.w; nb = (uw)r->s.reg[base] + off; ad = (i->op & SLJIT_MEM_POST) ? (uw)r->s.reg[base] : nb; }
		else ad = raddr(r, i->a);
		p = rptr(r, ad, len);
		if (st) { if (f32 && g_pair) q = pget(r, i->d.t); else { q = r->s.freg[i->d.t]; if (r->fv[i->d.t] != (f32 ? 1 : 2)) ref_err = 3; } w = (u32)q; memcpy(p, f32 ? (void *)&w : (void *)&q, (size_t)len); nan_note(r, p, f32); }
		else { if (f32 && g_pair) { memcpy(&w, p, 4); pput(r, i->d.t, w); if (upd) r->s.reg[base] = (sw)nb; return 0; } if (f32) { memcpy(&w, p, 4); r->s.freg[i->d.t] = w; } else { memcpy(&q, p, 8); r->s.freg[i->d.t] = q; } r->fv[i->d.t] = f32 ? 1 : 2; }
		if (upd) r->s.reg[base] = (sw)nb;
		return 0; }
	case K_LB: v = (uw)r->s.lbase + (uw)i->a.w; r->z = r->v = -1; iput(r, i->d, v, 0); return 0;
	}
	ref_err = 4;
	return 0;
}
static void ref_run(ref_t *r, prog_t *p)
{
	int i = 0;
	while (i < p->n && !ref_err) { int k = ref_step(r, &p->in[i]); n_steps++; i += 1 + k; }
}

/* ---------------------------------------------------------------- emission */
static struct sljit_jump *pend_j[64]; static int pend_at[64], pend_n;
#include "custom.h"
static s32 emit_ins(struct sljit_compiler *c, ins_t *i)
{
	struct sljit_jump *j = NULL;
	switch (i->k) {
	case K_OP0: return sljit_emit_op0(c, i->op);
	case K_OP1: return sljit_emit_op1(c, i->op, i->d.t, i->d.w, i->a.t, i->a.w);
	case K_OP2: return sljit_emit_op2(c, i->op, i->d.t, i->d.w, i->a.t, i->a.w, i->b.t, i->b.w);
	case K_OP2U: return sljit_emit_op2u(c, i->op, i->a.t, i->a.w, i->b.t, i->b.w);
	case K_OP2R: return sljit_emit_op2r(c, i->op, i->d.t, i->a.t, i->a.w, i->b.t, i->b.w);
	case K_SHI: return sljit_emit_shift_into(c, i->op, i->d.t, i->a.t, i->type, i->b.t, i->b.w);
	case K_OPF: return sljit_emit_op_flags(c, i->op, i->d.t, i->d.w, i->type);
	case K_SEL: return sljit_emit_select(c, i->type, i->d.t, i->a.t, i->a.w, i->b.t);
	case K_CMP: j = sljit_emit_cmp(c, i->type, i->a.t, i->a.w, i->b.t, i->b.w); break;
	case K_OP2Z: j = sljit_emit_op2cmpz(c, i->op, i->d.t, i->d.w, i->a.t, i->a.w, i->b.t, i->b.w); break;
	case K_JMPF: j = sljit_emit_jump(c, i->type); break;
	case K_JUMP: j = sljit_emit_jump(c, SLJIT_JUMP | i->type); break;
	case K_FOP1: return sljit_emit_fop1(c, i->op, i->d.t, i->d.w, i->a.t, i->a.w);
	case K_FOP2: return sljit_emit_fop2(c, i->op, i->d.t, i->d.w, i->a.t, i->a.w, i->b.t, i->b.w);
	case K_FOP2R: return sljit_emit_fop2r(c, i->op, i->d.t, i->a.t, i->a.w, i->b.t, i->b.w);
	case K_FCMP: j = sljit_emit_fcmp(c, i->type, i->a.t, i->a.w, i->b.t, i->b.w); break;
	case K_FSET32: return sljit_emit_fset32(c, i->d.t, (float)i->f);
	case K_FSET64: return sljit_emit_fset64(c, i->d.t, i->f);
	case K_FCOPY: return sljit_emit_fcopy(c, i->op, i->d.t, i->a.t);
	case K_FSEL: return sljit_emit_fselect(c, i->type, i->d.t, i->a.t, i->a.w, i->b.t);
	case K_MEM: return sljit_emit_mem(c, i->op, i->d.t, i->a.t, i->a.w);
	case K_MEMU: return sljit_emit_mem_update(c, i->op, i->d.t, i->a.t, i->a.w);
	case K_FMEM: return sljit_emit_fmem(c, i->op, i->d.t, i->a.t, i->a.w);
	case K_FMEMU: return sljit_emit_fmem_update(c, i->op, i->d.t, i->a.t, i->a.w);
	case K_LB: return sljit_get_local_base(c, i->d.t, i->d.w, i->a.w);
	case K_CONST: return sljit_emit_const(c, i->op, i->d.t, i->d.w, i->a.w) ? SLJIT_SUCCESS : sljit_get_compiler_error(c);
	case K_LABEL: return sljit_emit_label(c) ? SLJIT_SUCCESS : sljit_get_compiler_error(c);
	case K_SETF: sljit_set_current_flags(c, i->op); return SLJIT_SUCCESS;
	case K_SRC: return sljit_emit_op_src(c, i->op, i->a.t, i->a.w);
	case K_CUSTOM: return emit_custom(c, i->type, i->d.t, i->a.t);
	}
	if (!j) return sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -99;
	pend_j[pend_n] = j;
	return SLJIT_SUCCESS;
}
static s32 emit_prog(struct sljit_compiler *c, prog_t *p)
{
	int i, k; s32 e;
	pend_n = 0;
	for (i = 0; i < p->n; i++) {
		int need = 0;
		for (k = 0; k < pend_n; k++) if (pend_at[k] == i) need = 1;
		if (need) { struct sljit_label *l = sljit_emit_label(c); for (k = 0; k < pend_n; k++) if (pend_at[k] == i) sljit_set_label(pend_j[k], l); }
		int n0 = pend_n; pend_j[n0] = NULL;
		e = emit_ins(c, &p->in[i]);
		if (e) return e;
		if (pend_j[n0]) { pend_at[n0] = i + 1 + p->in[i].skip; pend_n = n0 + 1; }
	}
	{ int need = 0; for (k = 0; k < pend_n; k++) if (pend_at[k] >= p->n) need = 1;
	if (need) { struct sljit_label *l = sljit_emit_label(c); for (k = 0; k < pend_n; k++) if (pend_at[k] >= p->n) sljit_set_label(pend_j[k], l); } }
	return SLJIT_SUCCESS;
}

/* ---------------------------------------------------------------- wrapper and batches */
#define ARENA (8u << 20)
static u8 *g_arena; static uw g_apos;
static int w_floats = 1, w_locals = 1; static void (*g_wrap)(st_t *);
static int nf_use(void) { return NF; }
static void set_ctx(struct sljit_compiler *c) { sljit_set_context(c, 0, SLJIT_ARGS1V(P), NR_SCR | SLJIT_ENTER_FLOAT(nf_use()), 1, LOCSZ); }
static void die(const char *s) { violation(g_cur, s, "fixed harness function '%s' could not be generated", s); finish(1); }

static void *arena_gen(struct sljit_compiler *c)
{
	struct sljit_generate_code_buffer b; void *code;
	g_apos = (g_apos + 63) & ~(uw)63;
	b.buffer = g_arena + g_apos; b.size = ARENA - g_apos; b.executable_offset = 0;
	code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b);
	if (code) g_apos += sljit_get_generated_code_size(c);
	return code;
}
static uw g_wrapend;
static void make_wrapper(void)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); struct sljit_label *l; void *code; int i; static uw ret;
	sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), NR_SCR | SLJIT_ENTER_FLOAT(nf_use()), 1, LOCSZ);
	if (w_locals) for (i = 0; i < LOCSZ / WB; i++) {
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM1(ST), (sw)offsetof(st_t, loc) + i * WB);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), i * WB, SLJIT_R0, 0);
	}
	sljit_get_local_base(c, SLJIT_R0, 0, 0);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(ST), (sw)offsetof(st_t, lbase), SLJIT_R0, 0);
	if (w_floats) for (i = 1; i <= NF; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, i, 0, SLJIT_MEM1(ST), O_FREG(i));
	for (i = 1; i <= NR_SCR; i++) sljit_emit_op1(c, SLJIT_MOV, i, 0, SLJIT_MEM1(ST), O_REG(i));
	sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(ST), (sw)offsetof(st_t, body));
	l = sljit_emit_label(c);
	for (i = 1; i <= NR_SCR; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(ST), O_REG(i), i, 0);
	if (w_floats) for (i = 1; i <= NF; i++) sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_MEM1(ST), O_FREG(i), i, 0);
	if (w_locals) for (i = 0; i < LOCSZ / WB; i++) {
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), i * WB);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(ST), (sw)offsetof(st_t, loc) + i * WB, SLJIT_R0, 0);
	}
	sljit_emit_return_void(c);
	g_phase = "wrapper";
	code = arena_gen(c);
	if (!code) die("wrapper");
	ret = sljit_get_label_addr(l);
	g_st->ret = (void *)ret;
	g_wrap = (void (*)(st_t *))code;
	sljit_free_compiler(c);
	g_wrapend = g_apos;
}

#define MAXB 128
static prog_t g_batch[MAXB]; static int g_nb; static void *g_addr[MAXB];
static st_t g_tmpl; static ref_t g_ref;

static void init_tmpl(void)
{
	int i;
	memset(&g_tmpl, 0, sizeof(g_tmpl));
	for (i = 0; i < 32; i++) { g_tmpl.reg[i] = (sw)(0xa5c3000000000000ull + 0x0123010101ull * (u64)(i + 3)); g_tmpl.freg[i] = fb(1000.5 + i * 3.25); g_tmpl.f32cap[i] = 0x5a5a0000u + (u32)i; }
	for (i = 0; i < NCAP; i++) g_tmpl.cap[i] = (sw)0x7777000 + i;
	for (i = 0; i < LOCSZ; i++) g_tmpl.loc[i] = (u8)(0xc1 + i * 7);
	for (i = 0; i < MEMSZ; i++) g_tmpl.mem[i] = (u8)(0x11 + i * 13);
	g_tmpl.reg[ST] = (sw)g_st;
	memset(g_tmpl.guard0, 0xee, sizeof(g_tmpl.guard0)); memset(g_tmpl.guard1, 0xdd, sizeof(g_tmpl.guard1));
}
static u64 hashst(ref_t *r, u64 salt)
{
	u64 h = 0xcbf29ce484222325ull ^ salt; int i;
	for (i = 1; i <= NR_SCR; i++) h = (h ^ (u64)(uw)(r->rv[i] == 32 ? (uw)(u32)r->s.reg[i] : (uw)r->s.reg[i])) * 0x100000001b3ull;
	for (i = 0; i < NCAP; i++) h = (h ^ (u64)r->s.cap[i]) * 0x100000001b3ull;
	for (i = 1; i <= NF; i++) h = (h ^ r->s.freg[i]) * 0x100000001b3ull;
	for (i = 0; i < MEMSZ; i += 8) { u64 q; memcpy(&q, r->s.mem + i, 8); h = (h ^ q) * 0x100000001b3ull; }
	for (i = 0; i < LOCSZ; i += 8) { u64 q; memcpy(&q, r->s.loc + i, 8); h = (h ^ q) * 0x100000001b3ull; }
	h ^= h >> 29; return h ? h : 1;
}
static u64 hset[4096]; static u32 hgen[4096]; static u32 hcur; static int hcnt;
static int hadd(u64 h) { u32 i = (u32)(h & 4095); while (hgen[i] == hcur) { if (hset[i] == h) return 0; i = (i + 1) & 4095; } if (hcnt > 3000) return 1; hgen[i] = hcur; hset[i] = h; hcnt++; return 1; }

static int isnan64(u64 x) { return (x & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (x & 0xfffffffffffffull); }
static int isnan32(u32 x) { return (x & 0x7f800000u) == 0x7f800000u && (x & 0x7fffffu); }

static int compare(ref_t *r, st_t *s, char *msg)
{
	int i;
	for (i = 1; i <= NR_SCR; i++) {
		if (!r->rv[i]) continue;
		if (r->rv[i] == 32 ? (u32)s->reg[i] != (u32)r->s.reg[i] : s->reg[i] != r->s.reg[i])
			{ sprintf(msg, "r%d=0x%llx expected 0x%llx%s", i - 1, (unsigned long long)(uw)s->reg[i], (unsigned long long)(uw)r->s.reg[i], r->rv[i] == 32 ? " (low 32)" : ""); return 1; }
	}
	for (i = 0; i < NCAP; i++) if (s->cap[i] != r->s.cap[i]) { sprintf(msg, "captured word %d=0x%llx expected 0x%llx", i, (unsigned long long)(uw)s->cap[i], (unsigned long long)(uw)r->s.cap[i]); return 1; }
	if (w_floats) for (i = 1; i <= NF; i++) {
		if (r->fv[i] != 2) continue;
		if (s->freg[i] != r->s.freg[i] && !(r->vt == NANMARK && isnan64(s->freg[i]) && isnan64(r->s.freg[i])))
			{ sprintf(msg, "fr%d=0x%llx expected 0x%llx", i - 1, (unsigned long long)s->freg[i], (unsigned long long)r->s.freg[i]); return 1; }
	}
	for (i = 0; i < 32; i++) if (s->f32cap[i] != r->s.f32cap[i] && !(r->vt == NANMARK && isnan32(s->f32cap[i]) && isnan32(r->s.f32cap[i])))
		{ sprintf(msg, "f32 fr%d=0x%x expected 0x%x", i - 1, s->f32cap[i], r->s.f32cap[i]); return 1; }
	if (r->vt == NANMARK) for (i = 0; i < nanw_n; i++) {
		u8 *a = (u8 *)s + nanw[i].off, *b = (u8 *)&r->s + nanw[i].off; u64 p, q; u32 u, v;
		if (nanw[i].len == 8) { memcpy(&p, a, 8); memcpy(&q, b, 8); if (isnan64(p) && isnan64(q)) memcpy(a, b, 8); }
		else { memcpy(&u, a, 4); memcpy(&v, b, 4); if (isnan32(u) && isnan32(v)) memcpy(a, b, 4); }
	}
	if (w_locals && memcmp(s->loc, r->s.loc, LOCSZ)) { for (i = 0; i < LOCSZ; i++) if (s->loc[i] != r->s.loc[i]) break; sprintf(msg, "local byte %d=0x%x expected 0x%x", i, s->loc[i], r->s.loc[i]); return 1; }
	if (memcmp(s->guard0, r->s.guard0, sizeof(s->guard0) + sizeof(s->mem) + sizeof(s->guard1))) {
		u8 *a = s->guard0, *b = r->s.guard0; int k;
		for (i = 0; i < (int)(sizeof(s->guard0) + sizeof(s->mem) + sizeof(s->guard1)); i++) if (a[i] != b[i]) {
			k = i - (int)sizeof(s->guard0);
			sprintf(msg, "memory byte %d=0x%x expected 0x%x", k, a[i], b[i]); return 1; }
	}
	for (i = 0; i < g_nwin; i++) if (g_win[i] && memcmp(g_win[i], r->win[i], WINSZ)) { int k; for (k = 0; k < WINSZ; k++) if (g_win[i][k] != r->win[i][k]) break; sprintf(msg, "memory at %p=0x%x expected 0x%x", g_win[i] + k, g_win[i][k], r->win[i][k]); return 1; }
	if (s->body != r->s.body || s->ret != r->s.ret) { sprintf(msg, "state block overwritten"); return 1; }
	return 0;
}
/* float results stored to memory: is any NaN payload acceptable? only for programs containing float arithmetic/conversions */
static int nan_loose(prog_t *p)
{
	int i; for (i = 0; i < p->n; i++) if (p->in[i].k == K_FOP2 || (p->in[i].k == K_FOP1 && opc(p->in[i].op) != SLJIT_MOV_F64 && opc(p->in[i].op) != SLJIT_NEG_F64 && opc(p->in[i].op) != SLJIT_ABS_F64)) return 1;
	return 0;
}
static void *g_nopbody;
static void __attribute__((noinline)) call_wrap(st_t *s) { g_wrap(s); __asm__ volatile("" ::: "memory"); }
static void (*g_extra_init)(prog_t *p, st_t *s);
static void run_prog(prog_t *p, void *addr)
{
	u64 v[3]; int ix[3] = { 0, 0, 0 }, lim[3], k, loose = nan_loose(p); char msg[300], txt[1500]; int bad = 0;
	hcur++; hcnt = 0;
	if (hcur == 0) { memset(hgen, 0, sizeof(hgen)); hcur = 1; }
	for (k = 0; k < 3; k++) lim[k] = k < p->ns ? vs_n[p->vs[k]] : 1;
	g_cur = p->idx; g_phase = "run";
	if (w_locals) { void *ret = g_st->ret; memcpy(g_st, &g_tmpl, sizeof(st_t)); g_st->ret = ret; g_st->body = g_nopbody; call_wrap(g_st); g_st->ret = ret; }
	for (;;) {
		st_t *s = g_st; void *ret = s->ret; sw lb = s->lbase;
		for (k = 0; k < 3; k++) v[k] = k < p->ns ? vs_vals[p->vs[k]][ix[k]] : 0;
		memcpy(s, &g_tmpl, sizeof(st_t)); s->ret = ret; s->body = addr; s->lbase = lb;
		for (k = 0; k < p->ni; k++) {
			init_t *t = &p->it[k]; u64 val = t->slot == 0xff ? (u64)t->c : v[t->slot]; sw wv = (sw)val; u32 u = (u32)val;
			switch (t->kind) {
			case I_REG: s->reg[t->where] = wv; break;
			case I_MEM: memcpy(s->mem + t->where, &wv, WB); break;
			case I_LOC: memcpy(s->loc + t->where, &wv, WB); break;
			case I_FREG: s->freg[t->where] = val; break;
			case I_MEMF: memcpy(s->mem + t->where, &val, 8); break;
			case I_MEMF32: memcpy(s->mem + t->where, &u, 4); break;
			}
		}
		if (g_extra_init) g_extra_init(p, s);
		memcpy(&g_ref.s, s, sizeof(st_t));
		for (k = 0; k < g_nwin; k++) if (g_win[k]) { int q; for (q = 0; q < WINSZ; q++) g_ref.win[k][q] = g_win[k][q] = (u8)(0x21 + q * 29 + k); }
		memset(g_ref.rv, 64, sizeof(g_ref.rv)); memset(g_ref.fv, 2, sizeof(g_ref.fv)); g_ref.z = g_ref.v = -1; g_ref.vt = 0;
		ref_err = 0; nanw_n = 0;
		ref_run(&g_ref, p);
		if (ref_err >= 2) { char t2[1500]; ptext(p, t2, 1500); violation(p->idx, "reference", "program addresses memory outside the state block (reference error %d): %s", ref_err, t2); finish(1); }
		if (ref_err) n_undef++;
		else {
			if (loose) g_ref.vt = NANMARK; else g_ref.vt = 0;
			for (k = 0; k < 34; k++) if (p->fv[k] == 1) g_ref.s.f32cap[k] = (u32)g_ref.s.freg[k];
			call_wrap(s);
			n_runs++;
			if (hadd(hashst(&g_ref, 0))) n_states++;
			s->lbase = lb; g_ref.s.lbase = lb;
			if (compare(&g_ref, s, msg)) {
				char key[80]; int q = p->n - 1;
				ptext(p, txt, sizeof(txt));
				for (q = 0; q < p->n; q++) if (p->in[q].k != K_OP1) break;
				if (q == p->n) q = p->n - 1;
				sprintf(key, "%s", kname[p->in[q].k]);
				violation(p->idx, key, "%s | inputs 0x%llx 0x%llx 0x%llx | %s", txt, (unsigned long long)v[0], (unsigned long long)v[1], (unsigned long long)v[2], msg);
				s->ret = ret; bad = 1;
			}
			s->ret = ret;
		}
		if (bad) return;
		for (k = 0; k < 3; k++) { if (++ix[k] < lim[k]) break; ix[k] = 0; }
		if (k == 3) break;
	}
}
static void body_tail(struct sljit_compiler *c, prog_t *p)
{
	int i;
	(void)p;
	for (i = 0; i < 34; i++) if (p->fv[i] == 1) sljit_emit_fop1(c, SLJIT_MOV_F32, SLJIT_MEM1(ST), O_F32(i), i, 0);
	sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(ST), (sw)offsetof(st_t, ret));
}
static void emit_fail(prog_t *p, s32 e)
{
	char txt[1500];
	if (e == SLJIT_ERR_UNSUPPORTED && p->allow_unsup) { n_unsup++; p->unsup = 1; return; }
	ptext(p, txt, sizeof(txt));
	violation(p->idx, "compile", "compile error %d for: %s", (int)e, txt);
	p->unsup = 1;
}
static void flush_batch(void)
{
	struct sljit_compiler *c; struct sljit_label *lab[MAXB]; int i, k; s32 e; int single = 0;
	if (!g_nb) return;
	TICK();
again:
	if (ARENA - g_apos < (1u << 20) || 1) g_apos = g_wrapend;
	if (!single) {
		c = sljit_create_compiler(NULL); e = 0;
		for (i = 0; i < g_nb; i++) {
			g_cur = g_batch[i].idx; g_phase = "compile";
			set_ctx(c); lab[i] = sljit_emit_label(c);
			e = emit_prog(c, &g_batch[i]);
			if (e) break;
			body_tail(c, &g_batch[i]);
		}
		if (!e) { g_phase = "generate"; if (!arena_gen(c)) e = sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -98; }
		if (e) { sljit_free_compiler(c); single = 1; goto again; }
		for (i = 0; i < g_nb; i++) g_addr[i] = (void *)sljit_get_label_addr(lab[i]);
		sljit_free_compiler(c);
	} else {
		for (i = 0; i < g_nb; i++) {
			c = sljit_create_compiler(NULL); g_cur = g_batch[i].idx; g_phase = "compile";
			set_ctx(c); lab[0] = sljit_emit_label(c);
			e = emit_prog(c, &g_batch[i]);
			if (!e) { body_tail(c, &g_batch[i]); g_phase = "generate"; if (!arena_gen(c)) e = sljit_get_compiler_error(c) ? sljit_get_compiler_error(c) : -98; }
			if (e) emit_fail(&g_batch[i], e); else g_addr[i] = (void *)sljit_get_label_addr(lab[0]);
			sljit_free_compiler(c);
		}
	}
	if (g_dump) { FILE *f = fopen("/tmp/eng_dump.bin", "wb"); fwrite(g_arena + g_wrapend, 1, g_apos - g_wrapend, f); fclose(f); printf("base %p\n", (void *)(g_arena + g_wrapend)); for (i = 0; i < g_nb; i++) { char t[1500]; ptext(&g_batch[i], t, 1500); printf("%p %s\n", g_addr[i], t); } fflush(stdout); }
	for (i = 0; i < g_nb; i++) {
		if (g_batch[i].unsup) continue;
		k = g_nsamples;
		run_prog(&g_batch[i], g_addr[i]);
		n_progs++;
		if (k < 3 && (n_progs % 1777 == 1)) { ptext(&g_batch[i], g_samples[k], 600); g_nsamples++; }
	}
	g_nb = 0;
	if (g_deadline_s > 0 && now_s() - g_t0 > g_deadline_s) { g_capped = 1; alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); }
}
/* returns 0 when the index belongs to another shard, so that builders can stop early */
static int mine(void)
{
	u64 i = g_idx++;
	if (g_only >= 0) return (s64)i == g_only;
	return (i % (u64)g_nshards) == (u64)g_shard;
}
#ifdef VERIF_TAIL
/* only programs which end by writing a word register, each followed by a jump which depends on this register */
static int tail(prog_t *p)
{
	ins_t *l = &p->in[p->n - 1]; int r = 0, w = (l->op & SLJIT_32) != 0, o = l->op & 0xff;
	if (!p->n || p->n + 2 > MAXINS) return 0;
	switch (l->k) {
	case K_OP1: case K_OP2: case K_SHI: case K_OPF: case K_LB: case K_CONST: r = l->d.t; break;
	case K_OP2R: r = l->d.t; break;
	case K_OP0: if (o >= (SLJIT_LMUL_UW & 0xff) && o <= (SLJIT_DIV_SW & 0xff)) r = SLJIT_R0; break;
	case K_SEL: r = l->d.t; w = (l->type & SLJIT_32) != 0; break;
	case K_FOP1: if (o == (SLJIT_CONV_SW_FROM_F64 & 0xff)) { r = l->d.t; w = 0; } else if (o == (SLJIT_CONV_S32_FROM_F64 & 0xff)) { r = l->d.t; w = 1; } break;
	}
	if (r <= 0 || r >= SLJIT_IMM || r == SLJIT_SP || r > SLJIT_NUMBER_OF_REGISTERS) return 0;
	l = &p->in[p->n]; memset(l, 0, 2 * sizeof(ins_t)); p->n += 2;
	l->k = K_CMP; l->a.t = r; l->b.t = SLJIT_IMM; l->type = SLJIT_EQUAL | (w ? SLJIT_32 : 0); l->skip = 1;
	l[1].k = K_OP1; l[1].op = SLJIT_MOV; l[1].d.t = SLJIT_MEM1(ST); l[1].d.w = O_CAP(23); l[1].a.t = SLJIT_IMM; l[1].a.w = 3;
	return 1;
}
#endif
static void submit(prog_t *p)
{
#ifdef VERIF_TAIL
	if (!tail(p)) return;
#endif
	p->idx = g_idx - 1;
	g_batch[g_nb++] = *p;
	if (g_nb == MAXB) flush_batch();
}

/* ---------------------------------------------------------------- program builder */
static opn rg(int r) { opn o; o.t = r; o.w = 0; return o; }
static opn im(sw v) { opn o; o.t = SLJIT_IMM; o.w = v; return o; }
static opn m1(int r, sw w) { opn o; o.t = SLJIT_MEM1(r); o.w = w; return o; }
static opn m2(int r, int x, sw sh) { opn o; o.t = SLJIT_MEM2(r, x); o.w = sh; return o; }
static opn m0(void *a) { opn o; o.t = SLJIT_MEM0(); o.w = (sw)a; return o; }
static opn no(void) { opn o; o.t = 0; o.w = 0; return o; }
static int isr(opn o) { return o.t > 0 && o.t < SLJIT_IMM; }

static void pnew(prog_t *p) { p->n = p->ni = p->ns = 0; p->unsup = p->allow_unsup = p->tag = 0; memset(p->rv, 64, sizeof(p->rv)); memset(p->fv, 2, sizeof(p->fv)); }
static ins_t *add(prog_t *p, int k, s32 op, opn d, opn a, opn b)
{
	ins_t *i = &p->in[p->n++];
	if (p->n > MAXINS) die("program too long");
	memset(i, 0, sizeof(*i)); i->k = (u8)k; i->op = op; i->d = d; i->a = a; i->b = b; return i;
}
static void init_slot(prog_t *p, int kind, int where, int slot) { init_t *t = &p->it[p->ni++]; t->kind = (u8)kind; t->where = (s16)where; t->slot = (u8)slot; t->c = 0; }
static void init_const(prog_t *p, int kind, int where, sw c) { init_t *t = &p->it[p->ni++]; t->kind = (u8)kind; t->where = (s16)where; t->slot = 0xff; t->c = c; }
static int slot(prog_t *p, int vs) { p->vs[p->ns] = (u8)vs; return p->ns++; }
static void need32(prog_t *p, opn o) { if (IS64 && isr(o) && p->rv[o.t] != 32) { add(p, K_OP1, SLJIT_MOV32, o, o, no()); p->rv[o.t] = 32; } }
static void needW(prog_t *p, opn o) { if (IS64 && isr(o) && p->rv[o.t] == 32) { add(p, K_OP1, SLJIT_MOV_S32, o, o, no()); p->rv[o.t] = 64; } }
static void need(prog_t *p, opn o, s32 op) { if (op & SLJIT_32) need32(p, o); else needW(p, o); }
static void setrv(prog_t *p, opn o, s32 op) { if (IS64 && isr(o)) p->rv[o.t] = (op & SLJIT_32) ? 32 : 64; }

static void B_op1(prog_t *p, s32 op, opn d, opn a)
{
	int c = opc(op), res32 = (op & SLJIT_32) || c == SLJIT_MOV32;
	if (c == SLJIT_MOV32) { /* source may hold anything */ }
	else if (c == SLJIT_MOV || c == SLJIT_MOV_P) needW(p, a);
	else if (op & SLJIT_32) need32(p, a);
	else if (c > SLJIT_MOV_P) needW(p, a);
	add(p, K_OP1, op, d, a, no());
	if (IS64 && isr(d)) p->rv[d.t] = res32 ? 32 : 64;
}
static void B_op2(prog_t *p, s32 op, opn d, opn a, opn b)
{
	need(p, a, op); need(p, b, op);
	add(p, K_OP2, op, d, a, b); setrv(p, d, op);
}
static void B_op2u(prog_t *p, s32 op, opn a, opn b) { need(p, a, op); need(p, b, op); add(p, K_OP2U, op, no(), a, b); }
static void B_capf(prog_t *p, int i, int type) { ins_t *x = add(p, K_OPF, SLJIT_MOV, m1(ST, O_CAP(i)), no(), no()); x->type = type; }

static void eng_init(const char *suite, int floats, int locals)
{
	g_suite = suite; w_floats = floats; w_locals = locals;
	g_arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	g_st = mmap(NULL, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (g_arena == MAP_FAILED || (void *)g_st == MAP_FAILED) die("mmap");
	g_st = (st_t *)(((uw)g_st + 4096 + 63) & ~(uw)63);
	init_tmpl(); vs_init();
	TICK();
	make_wrapper();
	/* an empty body: run before each program to learn the address of the local area at this stack depth */
	{ struct sljit_compiler *c = sljit_create_compiler(NULL); struct sljit_label *l;
	set_ctx(c); l = sljit_emit_label(c); sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(ST), (sw)offsetof(st_t, ret)); if (!arena_gen(c)) die("learn");
	g_nopbody = (void *)sljit_get_label_addr(l); sljit_free_compiler(c); g_wrapend = g_apos; }
}
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
/* maps the window that straddles address b; the slot stays empty when the kernel refuses */
static void add_window(u64 b)
{
	int i = g_nwin++; uw lo; long pg = sysconf(_SC_PAGESIZE); void *m;
	if (WB == 4 && b > 0xffff0000ull) return;
	lo = ((uw)b - 32) & ~(uw)(pg - 1);
	m = mmap((void *)lo, (size_t)(2 * pg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (m == MAP_FAILED) return;
	if (m != (void *)lo) { munmap(m, (size_t)(2 * pg)); return; }
	g_win[i] = (u8 *)((uw)b - 32);
}
static void eng_done(void) { flush_batch(); alarm(0); n_total = g_idx; finish(n_viol ? 1 : 0); }
#endif
