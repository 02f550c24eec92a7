/* every C function type of up to four word / 32 bit / double / single arguments and five result types,
   as caller (call a generated function) and as callee (called by generated code) */
#ifndef CSIG_H
#define CSIG_H
typedef struct { sw w[4]; s32 i[4]; double d[4]; float f[4]; } av_t;
static volatile av_t g_arg, g_got;            /* passed and received, by argument position */
static volatile struct { sw w; s32 i; double d; float f; } g_rv, g_res; /* value to return, value returned */
static volatile sw g_bad_align, g_called;
static volatile sw g_pv[16]; static volatile double g_pd[24]; static volatile sw g_pressure_bad;
#if defined(__arm__) || defined(__s390x__) || (defined(__mips__) && !defined(__mips64))
#define STK_ALIGN 8
#else
#define STK_ALIGN 16
#endif
static __attribute__((noinline)) void chk_align(void)
{
	char v[32] __attribute__((aligned(STK_ALIGN))); uw p = (uw)v;
	__asm__ volatile("" : "+r"(p) : : "memory");
	v[0] = 1; __asm__ volatile("" : : "r"(v) : "memory");
	if (p & (STK_ALIGN - 1)) g_bad_align++;
}
/* leaves as many caller saved registers as possible holding something else */
static volatile sw g_cs[20]; static volatile double g_cd[32];
static __attribute__((noinline)) void clobber_int(void)
{
	sw a = g_cs[0], b = g_cs[1], c = g_cs[2], d = g_cs[3], e = g_cs[4], f = g_cs[5], g = g_cs[6], h = g_cs[7], i = g_cs[8], j = g_cs[9], k = g_cs[10], l = g_cs[11];
	g_cs[0] = a + l; g_cs[1] = b ^ k; g_cs[2] = c - j; g_cs[3] = d + i; g_cs[4] = e ^ h; g_cs[5] = f + g; g_cs[6] = g - a; g_cs[7] = h ^ b; g_cs[8] = i + c; g_cs[9] = j - d; g_cs[10] = k + e; g_cs[11] = l ^ f;
}
static __attribute__((noinline)) void clobber_dbl(void)
{
	double a = g_cd[0], b = g_cd[1], c = g_cd[2], d = g_cd[3], e = g_cd[4], f = g_cd[5], g = g_cd[6], h = g_cd[7], i = g_cd[8], j = g_cd[9], k = g_cd[10], l = g_cd[11], m = g_cd[12], n = g_cd[13], o = g_cd[14], p = g_cd[15],
		a2 = g_cd[16], b2 = g_cd[17], c2 = g_cd[18], d2 = g_cd[19], e2 = g_cd[20], f2 = g_cd[21], g2 = g_cd[22], h2 = g_cd[23], i2 = g_cd[24], j2 = g_cd[25];
	g_cd[0] = a + j2; g_cd[1] = b - i2; g_cd[2] = c + h2; g_cd[3] = d - g2; g_cd[4] = e + f2; g_cd[5] = f - e2; g_cd[6] = g + d2; g_cd[7] = h - c2; g_cd[8] = i + b2; g_cd[9] = j - a2; g_cd[10] = k + p; g_cd[11] = l - o; g_cd[12] = m + n;
	g_cd[13] = n - a; g_cd[14] = o + b; g_cd[15] = p - c; g_cd[16] = a2 + d; g_cd[17] = b2 - e; g_cd[18] = c2 + f; g_cd[19] = d2 - g; g_cd[20] = e2 + h; g_cd[21] = f2 - i; g_cd[22] = g2 + j; g_cd[23] = h2 - k; g_cd[24] = i2 + l; g_cd[25] = j2 - m;
}
static __attribute__((noinline)) void clobber_all(void)
{
	int i; for (i = 0; i < 20; i++) g_cs[i] = (sw)(0x5ba5 + i * 77); for (i = 0; i < 32; i++) g_cd[i] = 7.75 + i;
	clobber_int(); clobber_dbl();
}
#define KT_0 sw
#define KT_1 s32
#define KT_2 double
#define KT_3 float
#define KF_0 w
#define KF_1 i
#define KF_2 d
#define KF_3 f
#define RT_0 void
#define RT_1 sw
#define RT_2 s32
#define RT_3 double
#define RT_4 float
#define RA_0
#define RA_1 g_res.w =
#define RA_2 g_res.i =
#define RA_3 g_res.d =
#define RA_4 g_res.f =
#define RR_0 return
#define RR_1 return g_rv.w
#define RR_2 return g_rv.i
#define RR_3 return g_rv.d
#define RR_4 return g_rv.f
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define AT(k) CAT(KT_, k)
#define AV(k, n) g_arg.CAT(KF_, k)[n]
#define AR(k, n, x) g_got.CAT(KF_, k)[n] = x
#define PRE g_called++; chk_align(); clobber_all()
#define F0(r) static __attribute__((noinline)) void c_##r(void *fn) { CAT(RA_, r)((CAT(RT_, r)(*)(void))fn)(); } \
	static __attribute__((noinline)) CAT(RT_, r) h_##r(void) { PRE; CAT(RR_, r); }
#define F1(r, a) static __attribute__((noinline)) void c_##r##a(void *fn) { CAT(RA_, r)((CAT(RT_, r)(*)(AT(a)))fn)(AV(a, 0)); } \
	static __attribute__((noinline)) CAT(RT_, r) h_##r##a(AT(a) x0) { AR(a, 0, x0); PRE; CAT(RR_, r); }
#define F2(r, a, b) static __attribute__((noinline)) void c_##r##a##b(void *fn) { CAT(RA_, r)((CAT(RT_, r)(*)(AT(a), AT(b)))fn)(AV(a, 0), AV(b, 1)); } \
	static __attribute__((noinline)) CAT(RT_, r) h_##r##a##b(AT(a) x0, AT(b) x1) { AR(a, 0, x0); AR(b, 1, x1); PRE; CAT(RR_, r); }
#define F3(r, a, b, c) static __attribute__((noinline)) void c_##r##a##b##c(void *fn) { CAT(RA_, r)((CAT(RT_, r)(*)(AT(a), AT(b), AT(c)))fn)(AV(a, 0), AV(b, 1), AV(c, 2)); } \
	static __attribute__((noinline)) CAT(RT_, r) h_##r##a##b##c(AT(a) x0, AT(b) x1, AT(c) x2) { AR(a, 0, x0); AR(b, 1, x1); AR(c, 2, x2); PRE; CAT(RR_, r); }
#define F4(r, a, b, c, d) static __attribute__((noinline)) void c_##r##a##b##c##d(void *fn) { CAT(RA_, r)((CAT(RT_, r)(*)(AT(a), AT(b), AT(c), AT(d)))fn)(AV(a, 0), AV(b, 1), AV(c, 2), AV(d, 3)); } \
	static __attribute__((noinline)) CAT(RT_, r) h_##r##a##b##c##d(AT(a) x0, AT(b) x1, AT(c) x2, AT(d) x3) { AR(a, 0, x0); AR(b, 1, x1); AR(c, 2, x2); AR(d, 3, x3); PRE; CAT(RR_, r); }
#define X4(r, a, b, c) F4(r, a, b, c, 0) F4(r, a, b, c, 1) F4(r, a, b, c, 2) F4(r, a, b, c, 3)
#define X3(r, a, b, c) F3(r, a, b, c) X4(r, a, b, c)
#define X2(r, a, b) F2(r, a, b) X3(r, a, b, 0) X3(r, a, b, 1) X3(r, a, b, 2) X3(r, a, b, 3)
#define X1(r, a) F1(r, a) X2(r, a, 0) X2(r, a, 1) X2(r, a, 2) X2(r, a, 3)
#define X0(r) F0(r) X1(r, 0) X1(r, 1) X1(r, 2) X1(r, 3)
X0(0) X0(1) X0(2) X0(3) X0(4)
typedef struct { void (*call)(void *); void *callee; } csig_t;
#define E(n) { n1(n), (void *)n2(n) },
#define T0(r) { c_##r, (void *)h_##r },
#define T1(r, a) { c_##r##a, (void *)h_##r##a },
#define T2(r, a, b) { c_##r##a##b, (void *)h_##r##a##b },
#define T3(r, a, b, c) { c_##r##a##b##c, (void *)h_##r##a##b##c },
#define T4(r, a, b, c, d) { c_##r##a##b##c##d, (void *)h_##r##a##b##c##d },
#define Y4(r, a, b, c) T4(r, a, b, c, 0) T4(r, a, b, c, 1) T4(r, a, b, c, 2) T4(r, a, b, c, 3)
#define Z3(r, a, b) T3(r, a, b, 0) T3(r, a, b, 1) T3(r, a, b, 2) T3(r, a, b, 3)
#define Z2(r, a) T2(r, a, 0) T2(r, a, 1) T2(r, a, 2) T2(r, a, 3)
#define W4(r, a, b) Y4(r, a, b, 0) Y4(r, a, b, 1) Y4(r, a, b, 2) Y4(r, a, b, 3)
#define W3(r, a) W4(r, a, 0) W4(r, a, 1) W4(r, a, 2) W4(r, a, 3)
#define S3(r, a) Z3(r, a, 0) Z3(r, a, 1) Z3(r, a, 2) Z3(r, a, 3)
#define TAB(r) { T0(r) T1(r, 0) T1(r, 1) T1(r, 2) T1(r, 3) Z2(r, 0) Z2(r, 1) Z2(r, 2) Z2(r, 3) S3(r, 0) S3(r, 1) S3(r, 2) S3(r, 3) W3(r, 0) W3(r, 1) W3(r, 2) W3(r, 3) }
static const csig_t csig[5][341] = { TAB(0), TAB(1), TAB(2), TAB(3), TAB(4) };
/* position in the table of an argument list of base four digits */
static int csig_index(int n, const int *k) { static const int base[] = { 0, 1, 5, 21, 85 }; int i, v = 0; for (i = 0; i < n; i++) v = v * 4 + k[i]; return base[n] + v; }
/* calls fn with many values kept alive across the call: a callee saved register that is not preserved shows up */
static __attribute__((noinline)) void call_pressure(void (*call)(void *), void *fn)
{
	sw a, b, c, d, e, f, g, h, i, j; double p, q, r, s, t, u, v, w; int k;
	for (k = 0; k < 16; k++) g_pv[k] = (sw)0x1234560 + k * 0x1111; for (k = 0; k < 24; k++) g_pd[k] = 0.5 + k;
	a = g_pv[0]; b = g_pv[1]; c = g_pv[2]; d = g_pv[3]; e = g_pv[4]; f = g_pv[5]; g = g_pv[6]; h = g_pv[7]; i = g_pv[8]; j = g_pv[9];
	p = g_pd[0]; q = g_pd[1]; r = g_pd[2]; s = g_pd[3]; t = g_pd[4]; u = g_pd[5]; v = g_pd[6]; w = g_pd[7];
	call(fn);
	if (a != g_pv[0] || b != g_pv[1] || c != g_pv[2] || d != g_pv[3] || e != g_pv[4] || f != g_pv[5] || g != g_pv[6] || h != g_pv[7] || i != g_pv[8] || j != g_pv[9]) g_pressure_bad = 1;
	if (p != g_pd[0] || q != g_pd[1] || r != g_pd[2] || s != g_pd[3] || t != g_pd[4] || u != g_pd[5] || v != g_pd[6] || w != g_pd[7]) g_pressure_bad = 2;
}
static __attribute__((noinline)) void direct_v(void *fn) { ((void (*)(void))fn)(); }
#endif
