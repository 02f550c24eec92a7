/* P17: every entry point of the code generator x every operand / register / type / option code from boundary-complete domains x contexts,
   against a model of the documented calling rules (legal, illegal or not specified), in a library built with argument checks; plus all flag
   histories (setter x operations between x user), all error histories (error x call x call x generate) and all jump target histories. */
#define _GNU_SOURCE
#include "eng.h"
typedef struct { s32 c; sw w; } opd;
typedef struct { int scr, sav, fs, fsav, vs, vsav, local, ret, opt; } ctx_t;
static ctx_t K; static struct sljit_compiler *C; static int has_fpu, has_simd, has_atomic, unordered_alias, sepv;
/* state of the flags after the last call: z and v are 1 / type, 0 / -1: not available, -2: not specified */
static int f_z, f_v, f_32;
#define NRG SLJIT_NUMBER_OF_REGISTERS
#define NFR SLJIT_NUMBER_OF_FLOAT_REGISTERS
#define NVR SLJIT_NUMBER_OF_VECTOR_REGISTERS
#define IS64 (sizeof(sw) == 8)
#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
#define VIRT(r) ((r) >= SLJIT_R3 && (r) <= SLJIT_S3)
#else
#define VIRT(r) 0
#endif
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
#define OPT_EXTRA SLJIT_ENTER_USE_VEX
#else
#define OPT_EXTRA 0
#endif
static int and3(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
/* ---------------------------------------------------------------- legality of operands */
static int l_reg(s32 r) { if (r >= SLJIT_TMP_REGISTER_BASE && r < SLJIT_TMP_REGISTER_BASE + 9 && r < 0x7f) return -1; if (r >= 1 && r <= K.scr) return 1; return r > NRG - K.sav && r <= NRG; }
static int l_mem(s32 c, sw w)
{
	int b = c & 0x7f, o = (c >> 8) & 0x7f, l = 1;
	if (c < 0 || !(c & SLJIT_MEM)) return 0;
	if (c & ~0x7fff) return 0;
	if (c == SLJIT_MEM1(SLJIT_SP)) return w >= 0 && w < K.local;
	if (b) { if (VIRT(b)) return 0; l = l_reg(b); }
	if (o) { if (!b || VIRT(o)) return 0; l = and3(l, l_reg(o)); if (w < 0 || w > 3) return 0; }
	return l;
}
static int l_dst(s32 c, sw w) { int r = l_reg(c); return r ? w == 0 ? r : 0 : l_mem(c, w); }
static int l_src(s32 c, sw w) { return c == SLJIT_IMM ? 1 : l_dst(c, w); }
static int l_freg(s32 r, int is32)
{
	int a = r >= 1 && r <= K.fs, b = r > NFR - K.fsav && r <= NFR;
	if (a || b) return 1;
	if (r >= 1 && r <= NFR) return !sepv && (K.vs || K.vsav) ? -1 : 0;
	if (r < 1) return 0;
	return r < 0x7f ? -1 : 0; /* temporary registers, the other half of a register */
}
static int l_fop(s32 c, sw w, int is32) { if (c > 0 && c < 0x7f) { int r = l_freg(c, is32); return r ? w == 0 ? r : 0 : 0; } return l_mem(c, w); }
static int l_vreg(s32 r, s32 type)
{
	int pair = sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) && ((type >> 12) & 0x3f) == 4; int p = ((r + 1) & ~1) - 1, vs = K.vs, vv = K.vsav;
	if (r < 1 || r >= 0x7f) return 0;
	if (r > NVR) return -1;
	if (!pair) return (r <= vs || r > NVR - vv) ? 1 : 0;
	return ((p <= vs || p > NVR - vv) && (p + 1 <= vs || p + 1 > NVR - vv)) ? 1 : -1;
}
static int l_vop(s32 c, sw w, s32 t) { if (c > 0 && c < 0x7f) { int r = l_vreg(c, t); return r ? w == 0 ? r : 0 : 0; } return l_mem(c, w); }
static int l_args(s32 at, int scr, int sav, int fsc, int call)
{
	int t = at & 15, wn = 0, sn = 0, fn = 0, se = 0, un = 0; u32 a = (u32)at;
	if (t > SLJIT_ARG_TYPE_F32) return 0;
	if (t >= SLJIT_ARG_TYPE_F64 ? fsc == 0 : t >= SLJIT_ARG_TYPE_W ? scr == 0 : 0) return 0;
	for (a >>= 4; a; a >>= 4) {
		t = a & 7; if (wn + fn >= 4) return 0;
		if (t == 0 || t > SLJIT_ARG_TYPE_F32) return 0;
		if (a & 8) { if (call || t > SLJIT_ARG_TYPE_P) return 0; se = ++wn; }
		else if (t >= SLJIT_ARG_TYPE_F64) fn++; else wn++, sn++;
	}
	if (call) return wn <= scr && fn <= fsc;
	(void)un; return se <= scr && sn <= sav && fn <= fsc;
}
static int f_kind(int t) { return t >= SLJIT_F_EQUAL && t <= SLJIT_ORDERED_LESS_EQUAL; }
/* may the condition be used */
static int l_cond(int t)
{
	if (t < 0 || t > SLJIT_ORDERED_LESS_EQUAL) return 0;
	if (t <= SLJIT_NOT_ZERO) return f_z == -2 ? -1 : f_z == 1;
	if (f_v == -2) return -1;
	if (f_v < 0) return 0;
	if ((t & ~1) == f_v) return 1;
	if (f_kind(f_v) && ((t & ~1) == (SLJIT_ORDERED & ~1))) return -1;
	return 0;
}
static int l_addc(s32 op) { return f_v == -2 ? -1 : f_v == SLJIT_CARRY && !!(op & SLJIT_32) == !!f_32; }
static int vflag(s32 op) { return (op >> 10) & 0x3f; }
/* the opcode and the flags of a two operand arithmetic operation */
static int l_op2op(s32 op)
{
	int o = op & 0xff, v = vflag(op);
	if (op < 0 || op & ~(0xff | 0x100 | 0x200 | 0xfc00) || v & 1) return 0;
	if (o < (SLJIT_ADD & 0xff) || o > SLJIT_ROTR) return 0;
	switch (o) {
	case SLJIT_ADD: return v == 0 || v == SLJIT_CARRY || v == SLJIT_OVERFLOW;
	case SLJIT_SUB: return v == 0 || (v >= SLJIT_LESS && v <= SLJIT_CARRY);
	case SLJIT_ADDC: case SLJIT_SUBC: if (!(v == 0 || v == SLJIT_CARRY)) return 0; return and3(l_addc(op), op & SLJIT_SET_Z ? -1 : 1);
	case SLJIT_MUL: return !(op & SLJIT_SET_Z) && (v == 0 || v == SLJIT_OVERFLOW);
	case SLJIT_ROTL: case SLJIT_ROTR: return !(op & SLJIT_SET_Z) && v == 0;
	default: return v == 0;
	}
}
static void kill_flags(void) { f_z = 0; f_v = -1; }
static void op2_flags(s32 op) { f_z = op & SLJIT_SET_Z ? 1 : 0; f_v = vflag(op) ? vflag(op) : -1; f_32 = op & SLJIT_32; }
/* ---------------------------------------------------------------- entry points */
enum { E_ENTER, E_SETCTX, E_RETVOID, E_RET, E_RETTO, E_OP0, E_OP1, E_OP2, E_OP2U, E_OP2R, E_SHINTO, E_OPSRC, E_OPDST, E_FOP1, E_FOP2, E_FOP2R, E_FSET32, E_FSET64, E_FCOPY,
	E_LABEL, E_ALABEL, E_JUMP, E_CALL, E_CMP, E_FCMP, E_OP2CMPZ, E_IJUMP, E_ICALL, E_OPFLAGS, E_SELECT, E_FSELECT, E_MEM, E_MEMU, E_FMEM, E_FMEMU,
	E_VMOV, E_VREP, E_VLANE, E_VLREP, E_VEXT, E_VSIGN, E_VOP2, E_ALOAD, E_ASTORE, E_LBASE, E_CONST, E_OPADDR, E_CUSTOM, NEP };
/* kinds of arguments: o operation, s source, d destination, m memory, f float operand, r register (or pair), F float register, V vector register, v vector operand, t condition, a arguments, n number */
static const struct { const char *n, *k; int ptr; } ep[NEP] = {
	{ "emit_enter", "oannn" }, { "set_context", "oannn" }, { "emit_return_void", "" }, { "emit_return", "os" }, { "emit_return_to", "s" }, { "emit_op0", "o" }, { "emit_op1", "ods" }, { "emit_op2", "odss" }, { "emit_op2u", "oss" },
	{ "emit_op2r", "orss" }, { "emit_shift_into", "orrrs" }, { "emit_op_src", "os" }, { "emit_op_dst", "od" }, { "emit_fop1", "ogg" }, { "emit_fop2", "offf" }, { "emit_fop2r", "oFff" }, { "emit_fset32", "F" }, { "emit_fset64", "F" }, { "emit_fcopy", "oFr" },
	{ "emit_label", "", 1 }, { "emit_aligned_label", "n", 1 }, { "emit_jump", "t", 1 }, { "emit_call", "ta", 1 }, { "emit_cmp", "tss", 1 }, { "emit_fcmp", "tff", 1 }, { "emit_op2cmpz", "odss", 1 }, { "emit_ijump", "ts" }, { "emit_icall", "tas" },
	{ "emit_op_flags", "odt" }, { "emit_select", "trsr" }, { "emit_fselect", "tFfF" }, { "emit_mem", "orm" }, { "emit_mem_update", "orm" }, { "emit_fmem", "oFm" }, { "emit_fmem_update", "oFm" },
	{ "emit_simd_mov", "xVv" }, { "emit_simd_replicate", "xVg" }, { "emit_simd_lane_mov", "xVng" }, { "emit_simd_lane_replicate", "xVVn" }, { "emit_simd_extend", "xVv" }, { "emit_simd_sign", "xVd" }, { "emit_simd_op2", "xVVv" },
	{ "emit_atomic_load", "orr" }, { "emit_atomic_store", "orrr" }, { "get_local_base", "d" }, { "emit_const", "od", 1 }, { "emit_op_addr", "od", 1 }, { "emit_op_custom", "nn" } };
static u8 cust[64] __attribute__((aligned(8)));
/* one call; returns the error code (pointer functions: 0 or the recorded error) */
static s32 docall(int e, const opd *a)
{
	void *p; s32 r;
#define O(i) a[i].c, a[i].w
#define P_(x) p = (void *)(x); r = p ? 0 : sljit_get_compiler_error(C); if (!p && !r) r = -99; return r
	switch (e) {
	case E_ENTER: return sljit_emit_enter(C, a[0].c, a[1].c, a[2].c, a[3].c, a[4].c);
	case E_SETCTX: return sljit_set_context(C, a[0].c, a[1].c, a[2].c, a[3].c, a[4].c);
	case E_RETVOID: return sljit_emit_return_void(C);
	case E_RET: return sljit_emit_return(C, a[0].c, O(1));
	case E_RETTO: return sljit_emit_return_to(C, O(0));
	case E_OP0: return sljit_emit_op0(C, a[0].c);
	case E_OP1: return sljit_emit_op1(C, a[0].c, O(1), O(2));
	case E_OP2: return sljit_emit_op2(C, a[0].c, O(1), O(2), O(3));
	case E_OP2U: return sljit_emit_op2u(C, a[0].c, O(1), O(2));
	case E_OP2R: return sljit_emit_op2r(C, a[0].c, a[1].c, O(2), O(3));
	case E_SHINTO: return sljit_emit_shift_into(C, a[0].c, a[1].c, a[2].c, a[3].c, O(4));
	case E_OPSRC: return sljit_emit_op_src(C, a[0].c, O(1));
	case E_OPDST: return sljit_emit_op_dst(C, a[0].c, O(1));
	case E_FOP1: return sljit_emit_fop1(C, a[0].c, O(1), O(2));
	case E_FOP2: return sljit_emit_fop2(C, a[0].c, O(1), O(2), O(3));
	case E_FOP2R: return sljit_emit_fop2r(C, a[0].c, a[1].c, O(2), O(3));
	case E_FSET32: return sljit_emit_fset32(C, a[0].c, 1.5f);
	case E_FSET64: return sljit_emit_fset64(C, a[0].c, 1.5);
	case E_FCOPY: return sljit_emit_fcopy(C, a[0].c, a[1].c, a[2].c);
	case E_LABEL: P_(sljit_emit_label(C));
	case E_ALABEL: P_(sljit_emit_aligned_label(C, a[0].c, NULL));
	case E_JUMP: P_(sljit_emit_jump(C, a[0].c));
	case E_CALL: P_(sljit_emit_call(C, a[0].c, a[1].c));
	case E_CMP: P_(sljit_emit_cmp(C, a[0].c, O(1), O(2)));
	case E_FCMP: P_(sljit_emit_fcmp(C, a[0].c, O(1), O(2)));
	case E_OP2CMPZ: P_(sljit_emit_op2cmpz(C, a[0].c, O(1), O(2), O(3)));
	case E_IJUMP: return sljit_emit_ijump(C, a[0].c, O(1));
	case E_ICALL: return sljit_emit_icall(C, a[0].c, a[1].c, O(2));
	case E_OPFLAGS: return sljit_emit_op_flags(C, a[0].c, O(1), a[2].c);
	case E_SELECT: return sljit_emit_select(C, a[0].c, a[1].c, O(2), a[3].c);
	case E_FSELECT: return sljit_emit_fselect(C, a[0].c, a[1].c, O(2), a[3].c);
	case E_MEM: return sljit_emit_mem(C, a[0].c, a[1].c, O(2));
	case E_MEMU: return sljit_emit_mem_update(C, a[0].c, a[1].c, O(2));
	case E_FMEM: return sljit_emit_fmem(C, a[0].c, a[1].c, O(2));
	case E_FMEMU: return sljit_emit_fmem_update(C, a[0].c, a[1].c, O(2));
	case E_VMOV: return sljit_emit_simd_mov(C, a[0].c, a[1].c, O(2));
	case E_VREP: return sljit_emit_simd_replicate(C, a[0].c, a[1].c, O(2));
	case E_VLANE: return sljit_emit_simd_lane_mov(C, a[0].c, a[1].c, a[2].c, O(3));
	case E_VLREP: return sljit_emit_simd_lane_replicate(C, a[0].c, a[1].c, a[2].c, a[3].c);
	case E_VEXT: return sljit_emit_simd_extend(C, a[0].c, a[1].c, O(2));
	case E_VSIGN: return sljit_emit_simd_sign(C, a[0].c, a[1].c, O(2));
	case E_VOP2: return sljit_emit_simd_op2(C, a[0].c, a[1].c, a[2].c, O(3));
	case E_ALOAD: return sljit_emit_atomic_load(C, a[0].c, a[1].c, a[2].c);
	case E_ASTORE: return sljit_emit_atomic_store(C, a[0].c, a[1].c, a[2].c, a[3].c);
	case E_LBASE: return sljit_get_local_base(C, O(0), 24);
	case E_CONST: P_(sljit_emit_const(C, a[0].c, O(1), 5));
	case E_OPADDR: P_(sljit_emit_op_addr(C, a[0].c, O(1)));
	default: return sljit_emit_op_custom(C, a[0].c < 0 ? NULL : cust + (a[0].c & 15), (u32)a[1].c);
	}
}
static int l_regpair(s32 r, int distinct) { int a = r & 0xff, b = (r >> 8) & 0x7f; if (r < 0 || r & ~0x7fff) return 0; if (!b) return l_reg(a); if (a & 0x80) return 0; if (distinct && a == b) return 0; return and3(l_reg(a), l_reg(b)); }
static int simd_type(s32 t, int store, int zero, int sgn, int o32, int e2)
{
	s32 ok = 0x3f000 | (0x3f << 18) | SLJIT_SIMD_FLOAT | SLJIT_SIMD_TEST | store | zero | sgn | o32 | (e2 ? 0x3f << 24 : 0); int rs = (t >> 12) & 0x3f;
	if (t & ~ok) return 0; return rs >= 3 && rs <= 6;
}
#define ES(t) (((t) >> 18) & 0x3f)
#define E2S(t) (((t) >> 24) & 0x3f)
#define RS(t) (((t) >> 12) & 0x3f)
/* legality of a call; when it is legal, next: update the state of the flags */
static int legal(int e, const opd *a, int next)
{
	s32 op = a[0].c, o = op & 0xff; int l = 1, v = vflag(op), i, nocon = K.scr < 0; s32 t;
	switch (e) {
	case E_ENTER: case E_SETCTX: {
		int sc = a[2].c & 0xff, sv = a[3].c & 0xff, f = (a[2].c >> 8) & 0xff, fv = (a[3].c >> 8) & 0xff, vs = (a[2].c >> 16) & 0xff, vv = (a[3].c >> 16) & 0xff, keep = op & 3;
		if (op & ~(3 | SLJIT_ENTER_REG_ARG | OPT_EXTRA)) return 0; if (keep && !(op & SLJIT_ENTER_REG_ARG)) return 0;
		if (keep > sv) return 0;
		if ((a[2].c | a[3].c) & ~0xffffff) return 0;
		if (sc > NRG || sv > SLJIT_NUMBER_OF_SAVED_REGISTERS || sc + sv > NRG) return 0;
		if (f > NFR || fv > SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS || f + fv > NFR) return 0;
		if (vs > NVR || vv > SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS || vs + vv > NVR) return 0;
		if (a[4].c < 0 || a[4].c > SLJIT_MAX_LOCAL_SIZE) return 0;
		return l_args(a[1].c, sc, op & SLJIT_ENTER_REG_ARG ? 0 : sv, f, 0); }
	case E_RETVOID: return nocon ? -1 : K.ret == SLJIT_ARG_TYPE_RET_VOID;
	case E_RET:
		if (nocon || K.ret == SLJIT_ARG_TYPE_RET_VOID) return 0;
		if (K.ret >= SLJIT_ARG_TYPE_F64) { if (op != (K.ret == SLJIT_ARG_TYPE_F64 ? SLJIT_MOV_F64 : SLJIT_MOV_F32)) return 0; return has_fpu ? l_fop(O(1), op & SLJIT_32) : 0; }
		if (op == SLJIT_MOV_F64 || op == SLJIT_MOV_F32 || op < 0) return 0;
		if (op < SLJIT_MOV || op > (SLJIT_MOV_P | SLJIT_32) || (o > SLJIT_MOV_P)) return 0;
		if (K.ret == SLJIT_ARG_TYPE_W && op >= SLJIT_MOV && op <= SLJIT_MOV_S32) return l_src(O(1));
		if (K.ret == SLJIT_ARG_TYPE_32 && (op == SLJIT_MOV32 || (op >= SLJIT_MOV32_U8 && op <= SLJIT_MOV32_S16))) return l_src(O(1));
		if (K.ret == SLJIT_ARG_TYPE_P && op == SLJIT_MOV_P) return l_src(O(1));
		return l_src(O(1)) ? -1 : 0;
	case E_RETTO: l = nocon ? 0 : l_src(O(0)); if (next) f_z = f_v = -2; return l;
	case E_OP0:
		if (op & ~(0xff | SLJIT_32)) return 0;
		if ((op & SLJIT_32) && !(o >= (SLJIT_DIVMOD_UW & 0xff) && o <= SLJIT_DIV_SW)) return 0;
		if (o > SLJIT_SKIP_FRAMES_BEFORE_RETURN) return 0;
		if (o >= SLJIT_LMUL_UW && o <= SLJIT_DIV_SW && K.scr < 2) return 0;
		if (next && o != SLJIT_BREAKPOINT && o != SLJIT_NOP && o != SLJIT_MEMORY_BARRIER && o != SLJIT_ENDBR) kill_flags();
		return nocon ? -1 : 1;
	case E_OP1:
		if (op & ~(0xff | SLJIT_32) || o < SLJIT_MOV || o > SLJIT_REV_S32) return 0;
		if (op & SLJIT_32 && (o == SLJIT_MOV || o == SLJIT_MOV_U32 || o == SLJIT_MOV_S32 || o == SLJIT_MOV32 || o == SLJIT_MOV_P || o == SLJIT_REV_U32 || o == SLJIT_REV_S32)) return 0;
		if (next && o > SLJIT_MOV_P) kill_flags();
		return nocon ? 0 : and3(l_dst(O(1)), l_src(O(2)));
	case E_OP2: l = l_op2op(op); if (next) op2_flags(op); return nocon ? 0 : and3(l, and3(l_dst(O(1)), and3(l_src(O(2)), l_src(O(3)))));
	case E_OP2U: l = l_op2op(op); if (!(op & (SLJIT_SET_Z | 0xf800))) l = 0; if (next) op2_flags(op); return nocon ? 0 : and3(l, and3(l_src(O(1)), l_src(O(2))));
	case E_OP2R: if (op != SLJIT_MULADD && op != SLJIT_MULADD32) return 0; if (next) kill_flags(); return nocon ? 0 : and3(l_reg(a[1].c), and3(l_src(O(2)), l_src(O(3))));
	case E_SHINTO:
		if (op & ~(0xff | SLJIT_32 | SLJIT_SHIFT_INTO_NON_ZERO) || (o != SLJIT_SHL && o != SLJIT_MSHL && o != SLJIT_LSHR && o != SLJIT_MLSHR)) return 0;
		if (a[1].c == a[3].c) return 0; if (next) kill_flags();
		return nocon ? 0 : and3(l_reg(a[1].c), and3(l_reg(a[2].c), and3(l_reg(a[3].c), l_src(O(4)))));
	case E_OPSRC:
		if (op < SLJIT_FAST_RETURN || op > SLJIT_PREFETCH_ONCE) return 0;
		if (op <= SLJIT_SKIP_FRAMES_BEFORE_FAST_RETURN) { if (a[1].c == SLJIT_IMM) return 0; if (next) f_z = f_v = -2; return nocon ? 0 : l_src(O(1)); }
		return nocon ? 0 : l_mem(O(1));
	case E_OPDST: if (op != SLJIT_FAST_ENTER && op != SLJIT_GET_RETURN_ADDRESS) return 0; if (next && op == SLJIT_FAST_ENTER) f_z = f_v = -2; return nocon ? 0 : l_dst(O(1));
	case E_FOP1: {
		int is32 = op & SLJIT_32;
		if (!has_fpu || op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_SET_Z | 0xfc00) || v & 1 || o < SLJIT_MOV_F64 || o > SLJIT_ABS_F64 || op & SLJIT_SET_Z || nocon) return o > SLJIT_MOV_F64 && o < SLJIT_CMP_F64 && !(op & 0xfa00) ? -1 : 0;
		if (o == SLJIT_CMP_F64) { if (!f_kind(v)) return 0; if (next) { f_z = 0; f_v = v; f_32 = is32; } return and3(l_fop(O(1), is32), l_fop(O(2), is32)); }
		if (v) return 0; if (next && o != SLJIT_MOV_F64) kill_flags();
		if (o == SLJIT_CONV_SW_FROM_F64 || o == SLJIT_CONV_S32_FROM_F64) return and3(l_dst(O(1)), l_fop(O(2), is32));
		if (o >= SLJIT_CONV_F64_FROM_SW && o <= SLJIT_CONV_F64_FROM_U32) return and3(l_fop(O(1), is32), l_src(O(2)));
		if (o == SLJIT_CONV_F64_FROM_F32) return and3(and3(l_fop(O(1), 0), l_fop(O(2), 0)), 1);
		return and3(l_fop(O(1), is32), l_fop(O(2), is32)); }
	case E_FOP2: if (!has_fpu || op & ~(0xff | SLJIT_32) || o < SLJIT_ADD_F64 || o > SLJIT_DIV_F64 || nocon) return 0; if (next) kill_flags(); return and3(l_fop(O(1), op & SLJIT_32), and3(l_fop(O(2), op & SLJIT_32), l_fop(O(3), op & SLJIT_32)));
	case E_FOP2R: if (!has_fpu || op & ~(0xff | SLJIT_32) || o != SLJIT_COPYSIGN_F64 || nocon) return 0; if (next) kill_flags(); return and3(l_freg(a[1].c, op & SLJIT_32), and3(l_fop(O(2), op & SLJIT_32), l_fop(O(3), op & SLJIT_32)));
	case E_FSET32: case E_FSET64: if (!has_fpu || nocon) return 0; if (next) f_z = f_v = -2; return l_freg(op, e == E_FSET32);
	case E_FCOPY:
		if (!has_fpu || nocon || (op & ~SLJIT_32) < SLJIT_COPY_TO_F64 || (op & ~SLJIT_32) > SLJIT_COPY_FROM_F64) return 0; if (next) f_z = f_v = -2;
		if (IS64 || op & SLJIT_32) return and3(l_freg(a[1].c, op & SLJIT_32), l_reg(a[2].c)); return and3(l_freg(a[1].c, 0), l_regpair(a[2].c, op == SLJIT_COPY_FROM_F64));
	case E_LABEL: if (next) kill_flags(); return 1;
	case E_ALABEL: if (next) kill_flags(); return op >= 0 && op <= SLJIT_LABEL_ALIGN_16;
	case E_JUMP:
		if (op < 0 || op & ~(0xff | SLJIT_REWRITABLE_JUMP) || o > SLJIT_FAST_CALL) return 0;
		if (o >= SLJIT_JUMP) { if (next) f_z = f_v = -2; return nocon ? -1 : 1; }
		l = l_cond(o); if (next && (o & ~1) == SLJIT_CARRY) kill_flags(); if (next && f_v == SLJIT_CARRY) f_z = f_v = -2; return l;
	case E_CALL: case E_ICALL:
		if (op < 0 || op & ~(0xff | SLJIT_CALL_RETURN | (e == E_CALL ? SLJIT_REWRITABLE_JUMP : 0)) || (o != SLJIT_CALL && o != SLJIT_CALL_REG_ARG) || nocon) return 0;
		l = l_args(a[1].c, K.scr, 0, K.fs, 1); if (e == E_ICALL) l = and3(l, l_src(O(2)));
		if (op & SLJIT_CALL_RETURN) { if ((a[1].c & 15) != K.ret) l = 0; if (!!(K.opt & SLJIT_ENTER_REG_ARG) != (o == SLJIT_CALL_REG_ARG)) l = 0; }
		if (!sepv && (K.vs || K.vsav) && !l) l = -1;
		if (next) kill_flags(); return l;
	case E_CMP: if (op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_REWRITABLE_JUMP) || o > SLJIT_SIG_LESS_EQUAL || nocon) return 0; if (next) kill_flags(); return and3(l_src(O(1)), l_src(O(2)));
	case E_FCMP: if (!has_fpu || op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_REWRITABLE_JUMP) || !f_kind(o) || nocon) return 0; if (next) kill_flags(); return and3(l_fop(O(1), op & SLJIT_32), l_fop(O(2), op & SLJIT_32));
	case E_OP2CMPZ:
		t = op & ~(SLJIT_REWRITABLE_JUMP | SLJIT_SET_Z); l = l_op2op(t | SLJIT_SET_Z);
		if ((t & 0xff) == SLJIT_ADDC || (t & 0xff) == SLJIT_SUBC) l = l ? -1 : 0;
		if (next) { f_z = f_v = -2; if (vflag(op)) f_v = vflag(op); f_32 = op & SLJIT_32; }
		return nocon ? 0 : and3(l, and3(l_dst(O(1)), and3(l_src(O(2)), l_src(O(3)))));
	case E_IJUMP: if (op < SLJIT_JUMP || op > SLJIT_FAST_CALL) return 0; if (next) f_z = f_v = -2; return nocon ? 0 : l_src(O(1));
	case E_OPFLAGS:
		t = a[2].c; l = l_cond(t);
		if (op != SLJIT_MOV && op != SLJIT_MOV32) { if (op & ~(0xff | SLJIT_32 | SLJIT_SET_Z) || (o != SLJIT_AND && o != SLJIT_OR && o != SLJIT_XOR)) return 0; if (next) op2_flags(op); }
		else if (op != SLJIT_MOV && op != SLJIT_MOV32) return 0;
		return nocon ? 0 : and3(l, l_dst(O(1)));
	case E_SELECT: t = op & ~SLJIT_32; if (op < 0 || t > SLJIT_ORDERED_LESS_EQUAL || nocon) return 0; l = l_cond(t); if (next && f_v == SLJIT_CARRY) f_z = f_v = -2; return and3(l, and3(l_reg(a[1].c), and3(l_src(O(2)), l_reg(a[3].c))));
	case E_FSELECT: t = op & ~SLJIT_32; if (op < 0 || t > SLJIT_ORDERED_LESS_EQUAL || nocon || !has_fpu) return 0; l = l_cond(t); if (next && f_v == SLJIT_CARRY) f_z = f_v = -2; return and3(l, and3(l_freg(a[1].c, op & SLJIT_32), and3(l_fop(O(2), op & SLJIT_32), l_freg(a[3].c, op & SLJIT_32))));
	case E_MEM: {
		int fl = op & (SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32), pair = a[1].c & 0x7f00;
		if (op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32) || o < SLJIT_MOV || o > SLJIT_MOV_P || nocon) return 0;
		if (fl & (fl - 1)) return 0; if (pair ? o != SLJIT_MOV : 0) return 0;
		if (op & SLJIT_32 && (o < SLJIT_MOV_U8 || o > SLJIT_MOV_S16)) return 0; if (op & SLJIT_32 && pair) return 0;
		l = and3(l_regpair(a[1].c, 1), l_mem(O(2))); if (!fl && !pair) return 0;
		if (fl == SLJIT_MEM_ALIGNED_32 && o != SLJIT_MOV && o != SLJIT_MOV_P) return l ? -1 : 0;
		if (fl == SLJIT_MEM_ALIGNED_16 && o >= SLJIT_MOV_U8 && o <= SLJIT_MOV_S16) return l ? -1 : 0;
		return l; }
	case E_MEMU:
		if (op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_POST | SLJIT_MEM_SUPP) || o < SLJIT_MOV || o > SLJIT_MOV_P || nocon) return 0;
		t = a[2].c & 0x7f; if (t == 0 || t == SLJIT_SP || t == a[1].c) return 0;
		l = and3(l_reg(a[1].c), l_mem(O(2))); if (op & SLJIT_32 && (o < SLJIT_MOV_U8 || o > SLJIT_MOV_S16)) return l ? -1 : 0; return l;
	case E_FMEM: {
		int fl = op & (SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32);
		if (!has_fpu || op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32) || o != SLJIT_MOV_F64 || nocon) return 0;
		if (!fl || fl & (fl - 1)) return 0; l = and3(l_freg(a[1].c, op & SLJIT_32), l_mem(O(2))); if (fl == SLJIT_MEM_ALIGNED_32 && op & SLJIT_32) return l ? -1 : 0; return l; }
	case E_FMEMU:
		if (!has_fpu || op < 0 || op & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_POST | SLJIT_MEM_SUPP) || o != SLJIT_MOV_F64 || nocon) return 0;
		t = a[2].c & 0x7f; if (t == 0 || t == SLJIT_SP) return 0;
		return and3(l_freg(a[1].c, op & SLJIT_32), l_mem(O(2)));
	case E_VMOV: if (!has_simd || nocon || !simd_type(op, SLJIT_SIMD_STORE, 0, 0, 0, 1)) return 0; if (ES(op) > RS(op)) return 0; l = and3(l_vreg(a[1].c, op), l_vop(O(2), op)); if (E2S(op) > RS(op)) return 0; if (E2S(op) && !(a[2].c & SLJIT_MEM)) return l ? -1 : 0; return l;
	case E_VREP: if (!has_simd || nocon || !simd_type(op, 0, 0, 0, 0, 0) || ES(op) >= RS(op)) return 0; l = l_vreg(a[1].c, op);
		if (a[2].c == SLJIT_IMM) return and3(l, op & SLJIT_SIMD_FLOAT ? a[2].w == 0 : 1); return and3(l, op & SLJIT_SIMD_FLOAT ? l_fop(O(2), ES(op) == 2) : l_dst(O(2)));
	case E_VLANE:
		if (!has_simd || nocon || !simd_type(op, SLJIT_SIMD_STORE, SLJIT_SIMD_LANE_ZERO, SLJIT_SIMD_LANE_SIGNED, SLJIT_32, 0) || ES(op) >= RS(op)) return 0;
		if (op & SLJIT_SIMD_STORE && op & SLJIT_SIMD_LANE_ZERO) return 0; if (op & SLJIT_SIMD_LANE_SIGNED && !(op & SLJIT_SIMD_STORE)) return 0;
		if (op & SLJIT_SIMD_FLOAT && op & (SLJIT_32 | SLJIT_SIMD_LANE_SIGNED)) return 0; if (op & SLJIT_32 && ES(op) > 2) return 0;
		if (a[2].c < 0 || a[2].c >= 1 << (RS(op) - ES(op))) return 0; l = l_vreg(a[1].c, op);
		if (op & SLJIT_SIMD_FLOAT) return and3(l, l_fop(O(3), ES(op) == 2)); return and3(l, op & SLJIT_SIMD_STORE ? l_dst(O(3)) : l_src(O(3)));
	case E_VLREP: if (!has_simd || nocon || !simd_type(op, 0, 0, 0, 0, 0) || ES(op) >= RS(op) || a[3].c < 0 || a[3].c >= 1 << (RS(op) - ES(op))) return 0; return and3(l_vreg(a[1].c, op), l_vreg(a[2].c, op));
	case E_VEXT: if (!has_simd || nocon || !simd_type(op, SLJIT_SIMD_EXTEND_SIGNED, 0, 0, 0, 1) || (op & SLJIT_SIMD_EXTEND_SIGNED && op & SLJIT_SIMD_FLOAT) || E2S(op) >= RS(op) || ES(op) >= E2S(op)) return 0; return and3(l_vreg(a[1].c, op), l_vop(O(2), op));
	case E_VSIGN: if (!has_simd || nocon || !simd_type(op, SLJIT_SIMD_STORE, 0, 0, SLJIT_32, 0) || !(op & SLJIT_SIMD_STORE) || ES(op) >= RS(op)) return 0; return and3(l_vreg(a[1].c, op), l_dst(O(2)));
	case E_VOP2: if (!has_simd || nocon || !simd_type(op & ~0xff, 0, 0, 0, 0, 1) || o < SLJIT_SIMD_OP2_AND || o > SLJIT_SIMD_OP2_SHUFFLE || ES(op) > RS(op)) return 0;
		if (o == SLJIT_SIMD_OP2_SHUFFLE && (ES(op) || op & SLJIT_SIMD_FLOAT)) return 0; l = and3(l_vreg(a[1].c, op), and3(l_vreg(a[2].c, op), l_vop(O(3), op))); if (E2S(op) > RS(op)) return 0; if (E2S(op) && !(a[3].c & SLJIT_MEM)) return l ? -1 : 0; return l;
	case E_ALOAD: case E_ASTORE: {
		int st = e == E_ASTORE; s32 m = op & ~(SLJIT_ATOMIC_TEST | SLJIT_ATOMIC_USE_CAS | SLJIT_ATOMIC_USE_LS | 0xfe00);
		if (!has_atomic || op < 0 || (m & ~SLJIT_32) < SLJIT_MOV || (m & ~SLJIT_32) > SLJIT_MOV_P || (op & SLJIT_ATOMIC_USE_CAS && op & SLJIT_ATOMIC_USE_LS)) return 0;
		if (m & SLJIT_32 && (o < SLJIT_MOV_U8 || o > SLJIT_MOV_S16)) return 0; if (nocon) return -1;
		l = l_reg(a[1].c); l = and3(l, VIRT(a[2].c) ? 0 : l_reg(a[2].c));
		if (st) { l = and3(l, l_reg(a[3].c)); if (a[1].c == a[3].c && !(op & SLJIT_ATOMIC_USE_LS)) return l ? -1 : 0; if (op & 0xf800 && v != SLJIT_ATOMIC_STORED) return 0; if (v & 1) return 0; if (next) { f_z = 0; f_v = v ? v : -1; f_32 = 0; } if (op & SLJIT_SET_Z) return l ? -1 : 0; }
		else if (op & 0xfe00) return l ? -1 : 0;
		if (!st && next) f_z = f_v = -2;
		return l; }
	case E_LBASE: if (next) kill_flags(); return nocon ? 0 : l_dst(O(0));
	case E_CONST: if (op != SLJIT_MOV && op != SLJIT_MOV32 && op != SLJIT_MOV_S32 && op != SLJIT_MOV_U8 && op != SLJIT_MOV32_U8) return 0; return nocon ? 0 : l_dst(O(1));
	case E_OPADDR: if (op != SLJIT_MOV_ADDR && op != SLJIT_MOV_ABS_ADDR && op != SLJIT_ADD_ABS_ADDR) return 0; if (next) f_z = f_v = -2; return nocon ? 0 : l_dst(O(1));
	case E_CUSTOM: i = a[1].c;
		if (op < 0) return 0; if (next) f_z = f_v = -2;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
		return i > 0 && i < 16;
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
		return (i == 2 && !(op & 1)) || (i == 4 && !(op & 3));
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
		return i == 2 || i == 4 || i == 6;
#else
		return i == 4 && !(op & 3);
#endif
	}
	return -1;
}
/* ---------------------------------------------------------------- domains */
static opd dom[160][4000]; static int nd[160];
static void dadd(int d, s32 c, sw w) { int i; for (i = 0; i < nd[d]; i++) if (dom[d][i].c == c && dom[d][i].w == w) return; if (nd[d] >= 4000) abort(); dom[d][nd[d]].c = c; dom[d][nd[d]++].w = w; }
static const s32 flagset[] = { 0, 0x100, 0x200, 0x300, SLJIT_SET_LESS, SLJIT_SET_GREATER, SLJIT_SET_SIG_LESS, SLJIT_SET_OVERFLOW, SLJIT_SET_CARRY, SLJIT_SET_OVERFLOW | 0x300, SLJIT_SET_CARRY | 0x200, SLJIT_SET_ATOMIC_STORED, SLJIT_SET_F_EQUAL, SLJIT_SET_F_LESS | 0x100,
	SLJIT_SET(SLJIT_UNORDERED & ~1), SLJIT_SET(SLJIT_ORDERED_LESS_EQUAL & ~1), SLJIT_SET(SLJIT_UNORDERED_OR_EQUAL & ~1) | 0x100, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x60000, 0x80000, 0x10100, 0x20100, 0x20200, 0x40200, 0x600, 0xa00, 0x1200, 0x1800, 0x500, 0x900, 0x1100, 0x1600, 0x100000, (s32)0x80000000, -0x100 };
#define NFLAG ((int)(sizeof(flagset) / sizeof(s32)))
static int kd(char k) { return k; }
static void domains(void)
{
	int i, j; s32 r; static const int rr[] = { -1, 0, 1, 2, 3 };
	memset(nd, 0, sizeof(nd));
	/* registers: around every boundary */
	for (r = 0; r <= 3; r++) dadd('r', r, 0); for (j = 0; j < 3; j++) { dadd('r', K.scr + j, 0); dadd('r', NRG - K.sav + j, 0); dadd('r', NRG + j - 1, 0); }
	{ static const s32 x[] = { -1, -128, 0x7e, 0x7f, 0x80, 0x81, 0x100, 0x101, 0x1001, (s32)0x80000001, SLJIT_TMP_REGISTER_BASE, SLJIT_TMP_REGISTER_BASE + 12 }; for (i = 0; i < (int)(sizeof(x) / 4); i++) dadd('r', x[i], 0); }
	for (i = 1; i <= 3; i++) for (j = 1; j <= 3; j++) dadd('r', SLJIT_REG_PAIR(i, j), 0); dadd('r', SLJIT_REG_PAIR(SLJIT_S0, 1), 0); dadd('r', SLJIT_REG_PAIR(1, SLJIT_SP), 0); dadd('r', SLJIT_REG_PAIR(SLJIT_SP, 1), 0); dadd('r', SLJIT_REG_PAIR(1, K.scr + 1), 0); dadd('r', SLJIT_MEM2(1, 2), 0); dadd('r', 1 | (2 << 8) | 0x8000, 0); dadd('r', 1 | (2 << 8) | 0x10000, 0);
	/* memory */
	dadd('m', SLJIT_MEM0(), 0); dadd('m', SLJIT_MEM0(), 0x1000);
	for (i = 0; i < nd['r']; i++) { r = dom['r'][i].c; if (r > 0 && r < 0x7f) { dadd('m', SLJIT_MEM1(r), r == SLJIT_SP ? 0 : 8); dadd('m', SLJIT_MEM2(1, r), 0); dadd('m', SLJIT_MEM2(r, 1), 1); } }
	{ sw x[] = { 0, -1, 1, 8, K.local - 1, K.local, K.local + 1, (sw)1 << 20, -(sw)0x7fffffff - 1 }; for (i = 0; i < 9; i++) { dadd('m', SLJIT_MEM1(SLJIT_SP), x[i]); dadd('m', SLJIT_MEM1(1), x[i]); } }
	for (i = -1; i <= 5; i++) dadd('m', SLJIT_MEM2(1, 2), i); dadd('m', SLJIT_MEM2(1, 2), 0x100); dadd('m', SLJIT_MEM | (1 << 8), 0); dadd('m', SLJIT_MEM1(1) | 0x8000, 0); dadd('m', SLJIT_MEM1(1) | 0x10000, 0); dadd('m', SLJIT_MEM1(1) | (s32)0x80000000, 0); dadd('m', SLJIT_MEM1(0x7f), 0); dadd('m', SLJIT_MEM2(1, 0x7f), 0); dadd('m', SLJIT_MEM2(SLJIT_SP, 1), 0); dadd('m', SLJIT_MEM2(1, SLJIT_SP), 0); dadd('m', SLJIT_MEM2(SLJIT_S0, SLJIT_S0), 2);
	/* general operands */
	for (i = 0; i < nd['r']; i++) { dadd('s', dom['r'][i].c, 0); if (dom['r'][i].c >= 0 && dom['r'][i].c < 4) { dadd('s', dom['r'][i].c, 1); dadd('s', dom['r'][i].c, -1); } }
	dadd('s', SLJIT_IMM, 0); dadd('s', SLJIT_IMM, -1); dadd('s', SLJIT_IMM, 0x12345678); dadd('s', SLJIT_IMM | 0x100, 0); for (i = 0; i < nd['m']; i++) dadd('s', dom['m'][i].c, dom['m'][i].w);
	for (i = 0; i < nd['r']; i++) dadd('m', dom['r'][i].c, 0); dadd('m', SLJIT_IMM, 8);
	memcpy(dom['d'], dom['s'], sizeof(dom['s'])); nd['d'] = nd['s'];
	/* float and vector registers */
	for (j = 0; j < 3; j++) { dadd('F', j, 0); dadd('F', K.fs + j, 0); dadd('F', NFR - K.fsav + j, 0); dadd('F', NFR + j - 1, 0); dadd('F', rr[j], 0); } dadd('F', -1, 0); dadd('F', 0x7f, 0); dadd('F', 0x80, 0); dadd('F', 0x101, 0); dadd('F', 0x7e, 0);
	for (j = 0; j < 3; j++) { dadd('V', j, 0); dadd('V', K.vs + j, 0); dadd('V', K.vs + j - 1, 0); dadd('V', NVR - K.vsav + j, 0); dadd('V', NVR + j - 1, 0); } dadd('V', -1, 0); dadd('V', 0x7f, 0); dadd('V', 0x80, 0); dadd('V', 0x101, 0);
	for (i = 0; i < nd['F']; i++) { dadd('f', dom['F'][i].c, 0); if (dom['F'][i].c == 1) dadd('f', 1, 4); } for (i = 0; i < nd['m']; i++) if (dom['m'][i].c & SLJIT_MEM || dom['m'][i].c == SLJIT_IMM) dadd('f', dom['m'][i].c, dom['m'][i].w);
	for (i = 0; i < nd['V']; i++) { dadd('v', dom['V'][i].c, 0); if (dom['V'][i].c == 1) dadd('v', 1, 4); } for (i = 0; i < nd['m']; i++) if (dom['m'][i].c & SLJIT_MEM || dom['m'][i].c == SLJIT_IMM) dadd('v', dom['m'][i].c, dom['m'][i].w);
	for (i = 0; i < nd['s']; i++) dadd('g', dom['s'][i].c, dom['s'][i].w); for (i = 0; i < nd['f']; i++) dadd('g', dom['f'][i].c, dom['f'][i].w);
	/* conditions */
	for (i = -2; i <= 0x60; i++) dadd('t', i, 0); for (i = 0; i <= SLJIT_CALL_REG_ARG + 1; i++) for (j = 0; j < NFLAG; j++) dadd('t', i | flagset[j], 0); for (i = 0; i < 4; i++) { dadd('t', SLJIT_CALL | (i << 16), 0); dadd('t', SLJIT_CALL_REG_ARG | (i << 16), 0); dadd('t', SLJIT_CALL | (i << 16) | 0x100, 0); }
	/* vector types */
	for (i = 0; i <= 7; i++) for (j = 0; j <= 7; j++) { s32 b = (i << 12) | (j << 18); int e2; static const s32 vf[] = { 0, 1, 2, 4, 6, 8, 0x10, 0x100, 0x101, 0x400, 0x401, 0x402, 0x404, 0x500, 0x800, 0x801, 0xc00, 3, 5, 7, 0x200, 0x1000000, (s32)0x40000000, (s32)0x80000000, 0x103, 0x104, 0x20, 0x40, 0x80 }; for (e2 = 0; e2 < (int)(sizeof(vf) / 4); e2++) if (i >= 2 || e2 < 2) dadd('x', b | vf[e2], 0); for (e2 = 0; e2 <= 8; e2++) { dadd('x', b | (e2 << 24), 0); dadd('x', b | (e2 << 24) | 1, 0); if (e2 <= 5) dadd('x', b | (e2 << 24) | 0x400, 0); } }
	/* argument types */
	for (i = 0; i < 16; i++) { dadd('a', i, 0); for (j = 0; j < 16; j++) { dadd('a', i % 6 | (j << 4), 0); dadd('a', 1 | (i << 4) | (j << 8), 0); dadd('a', 0x1110 | (j << 16) | (i % 6), 0); dadd('a', (i % 6) | (j << 4) | (1 << 8) | (j << 12), 0); } }
	for (i = 0; i <= 5; i++) { s32 m = 0; for (j = 0; j < i; j++) m |= 1 << (4 * (j + 1)); dadd('a', m, 0); dadd('a', m * 9, 0); dadd('a', m * 4, 0); dadd('a', m * 2 | 1, 0); } dadd('a', 0x40000, 0); dadd('a', -1, 0); dadd('a', (s32)0x80000001, 0);
}
/* operation codes of an entry point: everything near its range with every flag set, all the others with a few */
static const struct { int e; s32 lo, hi; } oprange[] = { { E_OP0, 0, 12 }, { E_OP1, SLJIT_MOV - 2, SLJIT_REV_S32 + 2 }, { E_OP2, SLJIT_ADD - 2, SLJIT_ROTR + 2 }, { E_OP2U, SLJIT_ADD - 2, SLJIT_ROTR + 2 }, { E_OP2CMPZ, SLJIT_ADD - 2, SLJIT_ROTR + 2 }, { E_OP2R, SLJIT_MULADD - 2, SLJIT_MULADD + 2 }, { E_SHINTO, SLJIT_ADD - 1, SLJIT_ROTR + 1 },
	{ E_OPSRC, SLJIT_FAST_RETURN - 2, SLJIT_GET_RETURN_ADDRESS + 2 }, { E_OPDST, SLJIT_FAST_RETURN - 2, SLJIT_GET_RETURN_ADDRESS + 2 }, { E_FOP1, SLJIT_MOV_F64 - 2, SLJIT_ABS_F64 + 2 }, { E_FOP2, SLJIT_ADD_F64 - 2, SLJIT_DIV_F64 + 2 }, { E_FOP2R, SLJIT_COPYSIGN_F64 - 2, SLJIT_COPYSIGN_F64 + 2 }, { E_FCOPY, 0, 4 }, { E_OPFLAGS, SLJIT_AND - 2, SLJIT_XOR + 2 },
	{ E_MEM, SLJIT_MOV - 2, SLJIT_MOV_P + 2 }, { E_MEMU, SLJIT_MOV - 2, SLJIT_MOV_P + 2 }, { E_FMEM, SLJIT_MOV_F64 - 2, SLJIT_MOV_F64 + 2 }, { E_FMEMU, SLJIT_MOV_F64 - 2, SLJIT_MOV_F64 + 2 }, { E_ALOAD, SLJIT_MOV - 2, SLJIT_MOV_P + 2 }, { E_ASTORE, SLJIT_MOV - 2, SLJIT_MOV_P + 2 }, { E_RET, SLJIT_MOV - 2, SLJIT_MOV_P + 2 }, { E_CONST, SLJIT_MOV - 2, SLJIT_MOV_P + 2 }, { E_OPADDR, SLJIT_MOV_ADDR - 2, SLJIT_MOV_ADDR + 4 } };
static int odom(int e)
{
	int i, j, d = '0'; nd[d] = 0;
	if (e == E_ENTER || e == E_SETCTX) { for (i = 0; i < 16; i++) { dadd(d, i, 0); dadd(d, i | 0x10000, 0); } for (i = 4; i < 32; i++) { dadd(d, 1 << i, 0); dadd(d, (1 << i) | 4, 0); } dadd(d, -1, 0); return d; }
	for (i = 0; i < (int)(sizeof(oprange) / sizeof(oprange[0])); i++) if (oprange[i].e == e) { s32 o; for (o = oprange[i].lo; o <= oprange[i].hi; o++) for (j = 0; j < NFLAG; j++) dadd(d, o | flagset[j], 0); }
	for (i = 0; i < 256; i++) { dadd(d, i, 0); dadd(d, i | 0x100, 0); if (e == E_RET) dadd(d, i | 0x200, 0); } if (e == E_OPFLAGS) for (j = 0; j < NFLAG; j++) { dadd(d, SLJIT_MOV | flagset[j], 0); dadd(d, SLJIT_MOV32 | flagset[j], 0); } if (e == E_RET) { dadd(d, SLJIT_MOV_F64, 0); dadd(d, SLJIT_MOV_F32, 0); }
	return d;
}
static int ndom(int e, int arg)
{
	int i, d = '1' + arg; nd[d] = 0;
	if (e == E_ENTER || e == E_SETCTX) {
		static const s32 xs[] = { -1, 0x1000000, (s32)0x80000000, 255, 0xff00, 0xff0000, 0x7fffffff };
		if (arg == 4) { for (i = -1; i <= 1; i++) { dadd(d, i, 0); dadd(d, SLJIT_MAX_LOCAL_SIZE + i, 0); dadd(d, 64 + i, 0); } dadd(d, (s32)0x80000000, 0); dadd(d, 0x7fffffff, 0); return d; }
		for (i = 0; i <= NRG + 2; i++) { dadd(d, i, 0); dadd(d, 1 | (i << 8), 0); } for (i = 0; i <= NFR + 2; i++) dadd(d, 1 | (i << 8), 0); for (i = 0; i <= NVR + 2; i++) dadd(d, 2 | (i << 16), 0); for (i = 0; i < 7; i++) dadd(d, xs[i], 0); return d;
	}
	for (i = -2; i <= 70; i++) dadd(d, i, 0); for (i = 7; i < 32; i++) dadd(d, 1 << i, 0); return d;
}
/* ---------------------------------------------------------------- exploration */
static const ctx_t ctxs[] = {
	{ 3, 1, 2, 0, 2, 0, 64, SLJIT_ARG_TYPE_W, 0 }, { 0, 0, 0, 0, 0, 0, 0, SLJIT_ARG_TYPE_RET_VOID, 0 }, { 1, 2, 1, 1, 0, 0, 1, SLJIT_ARG_TYPE_F64, SLJIT_ENTER_REG_ARG | 2 }, { -1, -1, 0, 0, 0, 0, 0, 0, 0 },
	{ NRG - 1, 0, 3, 0, 4, 0, 4096, SLJIT_ARG_TYPE_P, 0 }, { 4, SLJIT_NUMBER_OF_SAVED_REGISTERS > 3 ? 3 : SLJIT_NUMBER_OF_SAVED_REGISTERS, NFR, 0, 1, 0, 17, SLJIT_ARG_TYPE_32, SLJIT_ENTER_REG_ARG }, { 2, 1, 1, 0, 0, 0, 8, SLJIT_ARG_TYPE_F32, 0 } };
#define NCTX ((int)(sizeof(ctxs) / sizeof(ctxs[0])))
static int since; static sw base_size;
static void newc(void)
{
	if (C) sljit_free_compiler(C);
	C = sljit_create_compiler(NULL); if (!C) die("create"); since = 0;
}
static int setctx(void)
{
	if (K.scr < 0) { newc(); return 0; }
	if (!C || since++ > 400) newc();
	C->error = 0; { u32 f = 0; (void)f; }
	return sljit_set_context(C, K.opt, K.ret, K.scr | SLJIT_ENTER_FLOAT(K.fs) | SLJIT_ENTER_VECTOR(K.vs), K.sav | SLJIT_ENTER_FLOAT(K.fsav) | SLJIT_ENTER_VECTOR(K.vsav), K.local);
}
static char *atxt(int e, const opd *a, char *o)
{
	char *s = o; int i; const char *k = ep[e].k; o += sprintf(o, "%s(", ep[e].n);
	for (i = 0; k[i]; i++) { o += sprintf(o, "%s%#x", i ? ", " : "", (unsigned)a[i].c); if (strchr("sdmfvg", k[i])) o += sprintf(o, ":%ld", (long)a[i].w); }
	sprintf(o, ") in {%d+%d registers, %d+%d float, %d+%d vector, %d local, return %d, options %#x, flags %d/%d}", K.scr, K.sav, K.fs, K.fsav, K.vs, K.vsav, K.local, K.ret, K.opt, f_z, f_v); return s;
}
/* at most eight reports of a kind from a process */
static int vio_ok(const char *key) { static char k[80][80]; static int n, c[80]; int i; for (i = 0; i < n && strcmp(k[i], key); i++); if (i == n) { if (n == 80) return 0; snprintf(k[n++], 80, "%s", key); } return c[i]++ < 2; }
#define vio(idx, key, ...) do { if (vio_ok(key)) violation(idx, key, __VA_ARGS__); } while (0)
/* judge one call */
static int judge(int e, const opd *a, const char *hist)
{
	char t[600], key[80]; int l = legal(e, a, 0), r, r2; sw sz = (sw)C->size, er;
	n_steps++; r = docall(e, a); er = sljit_get_compiler_error(C); n_runs++;
	if (l == 0) {
		n_states++;
		if (r != SLJIT_ERR_BAD_ARGUMENT) { sprintf(key, "accept-%s", ep[e].n); vio(g_idx - 1, key, "%s%s | the call breaks the documented rules but it returns %d", hist, atxt(e, a, t), r); return 0; }
		if (er != SLJIT_ERR_BAD_ARGUMENT) { sprintf(key, "record-%s", ep[e].n); vio(g_idx - 1, key, "%s%s | a rejected call records error %d", hist, atxt(e, a, t), (int)er); return 0; }
		if ((sw)C->size != sz) { sprintf(key, "emit-%s", ep[e].n); vio(g_idx - 1, key, "%s%s | a rejected call emits code", hist, atxt(e, a, t)); return 0; }
		r2 = sljit_emit_op0(C, SLJIT_NOP); if (r2 != SLJIT_ERR_BAD_ARGUMENT || (sw)C->size != sz) { vio(g_idx - 1, "sticky", "%s%s | the call after the rejected one returns %d", hist, atxt(e, a, t), r2); return 0; }
		return 2;
	}
	if (l == 1) {
		n_progs++;
		if (r != 0 && r != SLJIT_ERR_UNSUPPORTED) { sprintf(key, "reject-%s", ep[e].n); vio(g_idx - 1, key, "%s%s | a valid call returns %d", hist, atxt(e, a, t), r); return 0; }
		if (er) { sprintf(key, "error-%s", ep[e].n); vio(g_idx - 1, key, "%s%s | a valid call records error %d", hist, atxt(e, a, t), (int)er); return 0; }
		if (r == SLJIT_ERR_UNSUPPORTED) n_unsup++;
		return r == 0 ? 1 : 3;
	}
	if (r != 0 && r != SLJIT_ERR_UNSUPPORTED && r != SLJIT_ERR_BAD_ARGUMENT && r != SLJIT_ERR_COMPILED) { vio(g_idx - 1, "other", "%s%s | returns %d", hist, atxt(e, a, t), r); return 0; }
	return 3;
}
/* flags for the condition users in part A: Z and LESS are set by a subtraction */
static void pre(int e) { kill_flags(); f_32 = 0; if (K.scr >= 1 && strchr(ep[e].k, 't') && e != E_CMP && e != E_FCMP) { sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, SLJIT_IMM, 5, SLJIT_IMM, 6); f_z = 1; f_v = SLJIT_LESS; } }
static void one(int e, const opd *a)
{
	char t[600];
	if (!mine()) return;
	g_cur = g_idx - 1; g_phase = "call"; g_crash_txt = ep[e].n;
	TICK(); if (setctx()) { vio(g_idx - 1, "context", "set_context fails with %d", (int)sljit_get_compiler_error(C)); newc(); setctx(); }
	pre(e);
	if (!judge(e, a, "")) newc();
	if (g_nsamples < 4 && g_idx % 77777 == 5) { f_z = f_v = 0; snprintf(g_samples[g_nsamples++], 600, "%s", atxt(e, a, t)); }
}
/* legal base vectors of an entry point in the context */
static int bases(int e, opd *b)
{
	int n = 0, r = K.scr > 0 ? 1 : K.sav > 0 ? SLJIT_S0 : 1, r2 = K.scr > 1 ? 2 : r, fr = 1; s32 vt = SLJIT_SIMD_REG_128 | SLJIT_SIMD_ELEM_32;
	s32 ops[12]; int no = 0, i;
#define OPS(...) do { s32 x_[] = { __VA_ARGS__ }; no = (int)(sizeof(x_) / 4); memcpy(ops, x_, sizeof(x_)); } while (0)
	OPS(0);
	switch (e) {
	case E_ENTER: case E_SETCTX: OPS(0, SLJIT_ENTER_REG_ARG | 1); break;
	case E_RET: OPS(K.ret == SLJIT_ARG_TYPE_F64 ? SLJIT_MOV_F64 : K.ret == SLJIT_ARG_TYPE_F32 ? SLJIT_MOV_F32 : K.ret == SLJIT_ARG_TYPE_32 ? SLJIT_MOV32 : K.ret == SLJIT_ARG_TYPE_P ? SLJIT_MOV_P : SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV32_S8); break;
	case E_OP0: OPS(SLJIT_NOP); break; case E_OP1: OPS(SLJIT_MOV, SLJIT_MOV32_U8, SLJIT_CLZ); break; case E_OP2: OPS(SLJIT_ADD, SLJIT_SUB32 | SLJIT_SET_Z | SLJIT_SET_SIG_LESS, SLJIT_MUL, SLJIT_SHL, SLJIT_ROTL32); break; case E_OP2CMPZ: OPS(SLJIT_SUB, SLJIT_AND32 | SLJIT_JUMP_IF_ZERO); break;
	case E_OP2U: OPS(SLJIT_SUB | SLJIT_SET_Z, SLJIT_ADD32 | SLJIT_SET_CARRY); break; case E_OP2R: OPS(SLJIT_MULADD); break; case E_SHINTO: OPS(SLJIT_SHL, SLJIT_MLSHR32); break; case E_OPSRC: OPS(SLJIT_FAST_RETURN, SLJIT_PREFETCH_L1); break; case E_OPDST: OPS(SLJIT_GET_RETURN_ADDRESS, SLJIT_FAST_ENTER); break;
	case E_FOP1: OPS(SLJIT_MOV_F64, SLJIT_NEG_F32, SLJIT_CMP_F64 | SLJIT_SET_F_LESS, SLJIT_CONV_SW_FROM_F64, SLJIT_CONV_F32_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F32_FROM_F64); break; case E_FOP2: OPS(SLJIT_ADD_F64, SLJIT_DIV_F32); break; case E_FOP2R: OPS(SLJIT_COPYSIGN_F64, SLJIT_COPYSIGN_F32); break; case E_FSET32: case E_FSET64: OPS(1); break;
	case E_FCOPY: OPS(SLJIT_COPY_TO_F64, SLJIT_COPY32_TO_F32, SLJIT_COPY_FROM_F64, SLJIT_COPY32_FROM_F32); break; case E_ALABEL: OPS(SLJIT_LABEL_ALIGN_4); break; case E_JUMP: OPS(SLJIT_JUMP); break; case E_CALL: OPS(SLJIT_CALL, SLJIT_CALL_REG_ARG | SLJIT_CALL_RETURN); break; case E_ICALL: OPS(SLJIT_CALL, SLJIT_CALL | SLJIT_CALL_RETURN); break;
	case E_CMP: OPS(SLJIT_EQUAL, SLJIT_SIG_LESS | SLJIT_32); break; case E_FCMP: OPS(SLJIT_F_EQUAL, SLJIT_ORDERED_LESS | SLJIT_32); break; case E_IJUMP: OPS(SLJIT_JUMP, SLJIT_FAST_CALL); break; case E_OPFLAGS: OPS(SLJIT_MOV, SLJIT_AND32 | SLJIT_SET_Z); break; case E_SELECT: OPS(SLJIT_LESS, SLJIT_EQUAL | SLJIT_32); break; case E_FSELECT: OPS(SLJIT_GREATER_EQUAL, SLJIT_NOT_EQUAL | SLJIT_32); break;
	case E_MEM: OPS(SLJIT_MOV | SLJIT_MEM_UNALIGNED, SLJIT_MOV | SLJIT_MEM_STORE | SLJIT_MEM_ALIGNED_32, SLJIT_MOV32_U16 | SLJIT_MEM_UNALIGNED, SLJIT_MOV); break; case E_MEMU: OPS(SLJIT_MOV, SLJIT_MOV_U8 | SLJIT_MEM_STORE | SLJIT_MEM_POST, SLJIT_MOV_S32 | SLJIT_MEM_SUPP); break; case E_FMEM: OPS(SLJIT_MOV_F64 | SLJIT_MEM_UNALIGNED, SLJIT_MOV_F32 | SLJIT_MEM_STORE | SLJIT_MEM_ALIGNED_16); break; case E_FMEMU: OPS(SLJIT_MOV_F64, SLJIT_MOV_F32 | SLJIT_MEM_STORE | SLJIT_MEM_POST); break;
	case E_VMOV: OPS(vt, vt | SLJIT_SIMD_STORE, vt | SLJIT_SIMD_MEM_ALIGNED_64 | SLJIT_SIMD_TEST); break; case E_VREP: OPS(vt, vt | SLJIT_SIMD_FLOAT); break; case E_VLANE: OPS(vt, vt | SLJIT_SIMD_FLOAT | SLJIT_SIMD_STORE, vt | SLJIT_SIMD_STORE | SLJIT_SIMD_LANE_SIGNED | SLJIT_32); break; case E_VLREP: OPS(vt); break; case E_VEXT: OPS(vt | SLJIT_SIMD_EXTEND_64, vt | SLJIT_SIMD_FLOAT | SLJIT_SIMD_EXTEND_64); break; case E_VSIGN: OPS(vt | SLJIT_SIMD_STORE); break; case E_VOP2: OPS(vt | SLJIT_SIMD_OP2_AND, vt | SLJIT_SIMD_OP2_XOR | SLJIT_SIMD_MEM_ALIGNED_128); break;
	case E_ALOAD: OPS(SLJIT_MOV, SLJIT_MOV_U8 | SLJIT_ATOMIC_USE_LS, SLJIT_MOV32 | SLJIT_ATOMIC_TEST); break; case E_ASTORE: OPS(SLJIT_MOV, SLJIT_MOV | SLJIT_SET_ATOMIC_STORED, SLJIT_MOV_U32 | SLJIT_ATOMIC_USE_LS); break; case E_CONST: OPS(SLJIT_MOV, SLJIT_MOV_U8); break; case E_OPADDR: OPS(SLJIT_MOV_ADDR); break;
	}
	for (i = 0; i < no; i++) {
		opd *a = b + 6 * n; const char *k = ep[e].k; int j, nr = 0; memset(a, 0, 6 * sizeof(opd));
		for (j = 0; k[j]; j++) switch (k[j]) {
			case 'o': case 'x': case 't': a[j].c = j == 0 ? ops[i] : SLJIT_LESS; break;
			case 'r': a[j].c = e == E_MEM && i == 3 ? SLJIT_REG_PAIR(1, 2) : nr == 0 ? r : nr == 1 ? r2 : K.scr > 2 ? 3 : r2; nr++; if (e == E_SHINTO && j == 3) a[j].c = K.sav ? SLJIT_S0 : 3; break;
			case 's': case 'd': a[j].c = r; if (e == E_RET && K.ret >= SLJIT_ARG_TYPE_F64) a[j].c = 1; if (e == E_OPSRC && i == 1) a[j].c = SLJIT_MEM1(r); break;
			case 'm': a[j].c = SLJIT_MEM1(e == E_MEMU ? (r2 != r ? r2 : SLJIT_S0) : r); a[j].w = 8; break;
			case 'f': case 'F': a[j].c = fr; break;
			case 'g': a[j].c = 1; break;
			case 'V': case 'v': a[j].c = 1; break;
			case 'a': a[j].c = e == E_ENTER || e == E_SETCTX ? SLJIT_ARGS0V() : i == 1 ? K.ret : 0; break;
			case 'n': a[j].c = e == E_ENTER || e == E_SETCTX ? (j == 4 ? 32 : 3 | SLJIT_ENTER_FLOAT(1)) : e == E_CUSTOM ? (j ? 4 : 0) : j ? 1 : e == E_ALABEL ? 2 : 1; break;
		}
		n++;
	}
	return n;
}
static void part_a(void)
{
	int e, ci, nc = g_thorough ? NCTX : 4; opd b[72]; int n, i, j, k, x, y;
	for (ci = 0; ci < nc; ci++) {
		K = ctxs[ci]; if (K.fsav > SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS) K.fsav = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS; if (!has_fpu) K.fs = K.fsav = 0; domains(); if (K.scr < 0) { newc(); }
		for (e = 0; e < NEP; e++) {
			const char *kk = ep[e].k; int ds[6], na = (int)strlen(kk);
			n = bases(e, b);
			for (j = 0; j < na; j++) { char c = kk[j]; ds[j] = c == 'o' && j == 0 ? odom(e) : c == 'n' ? ndom(e, j) : c == 'o' ? odom(e) : kd(c); if ((e == E_OPFLAGS || e == E_RET) && j && c == 't') ds[j] = 't'; if (e == E_RET && j == 1) ds[j] = 'g'; }
			for (k = 0; k < n; k++) {
				opd a[6]; int q, lim = K.scr < 0 ? 1 : 2;
				if (K.scr < 0 && k > 0) break;
				memcpy(a, b + 6 * k, sizeof(a)); one(e, a);
				for (i = 0; i < na; i++) for (x = 0; x < nd[ds[i]]; x++) {
					memcpy(a, b + 6 * k, sizeof(a)); a[i] = dom[ds[i]][x]; one(e, a);
					/* pairs: the operations of the first base only, when the domain is large */
					if (lim < 2) continue;
					for (j = i + 1; j < na; j++) {
						opd save = a[j]; int big = nd[ds[i]] * nd[ds[j]] > 40000 && !g_thorough;
						if (big && (k > 0 || ci > 0)) continue; if (!g_thorough && ci > 1 && k > 0) continue;
						for (y = 0; y < nd[ds[j]]; y++) { if (big && (x + y) % 3 && i > 0) continue; a[j] = dom[ds[j]][y]; one(e, a); }
						a[j] = save;
					}
				}
				(void)q;
			}
		}
	}
}
/* ---------------------------------------------------------------- flag histories */
static opd mk(s32 c, sw w) { opd o; o.c = c; o.w = w; return o; }
typedef struct { int e; opd a[6]; } call_t;
static call_t fs_[200], fm_[80]; static int nfs, nfm;
static void cadd(call_t *l, int *n, int e, opd a, opd b, opd c, opd d, opd f) { call_t *q = l + (*n)++; q->e = e; q->a[0] = a; q->a[1] = b; q->a[2] = c; q->a[3] = d; q->a[4] = f; q->a[5] = mk(0, 0); }
#define Z_ mk(0, 0)
#define R_(i) mk(i, 0)
#define I_(v) mk(SLJIT_IMM, v)
static void lists(void)
{
	int i; static const s32 s2[] = { SLJIT_ADD | SLJIT_SET_Z, SLJIT_ADD | SLJIT_SET_OVERFLOW, SLJIT_ADD | SLJIT_SET_CARRY, SLJIT_ADD32 | SLJIT_SET_CARRY | SLJIT_SET_Z, SLJIT_SUB | SLJIT_SET_LESS, SLJIT_SUB | SLJIT_SET_GREATER | SLJIT_SET_Z, SLJIT_SUB | SLJIT_SET_SIG_LESS, SLJIT_SUB32 | SLJIT_SET_SIG_GREATER | SLJIT_SET_Z, SLJIT_SUB | SLJIT_SET_OVERFLOW, SLJIT_SUB | SLJIT_SET_CARRY, SLJIT_SUB32 | SLJIT_SET_CARRY, SLJIT_MUL | SLJIT_SET_OVERFLOW, SLJIT_AND | SLJIT_SET_Z, SLJIT_XOR32 | SLJIT_SET_Z, SLJIT_SHL | SLJIT_SET_Z, SLJIT_ADD, SLJIT_OR, SLJIT_MUL32, SLJIT_ROTR, SLJIT_ASHR32 };
	static const s32 fc[] = { SLJIT_F_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER, SLJIT_UNORDERED, SLJIT_ORDERED_EQUAL, SLJIT_ORDERED_LESS, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_UNORDERED_OR_GREATER, SLJIT_ORDERED_LESS_EQUAL };
	nfs = nfm = 0;
	for (i = 0; i < (int)(sizeof(s2) / 4); i++) { cadd(fs_, &nfs, E_OP2, mk(s2[i], 0), R_(1), R_(2), I_(3), Z_); if (s2[i] & 0xfe00) cadd(fs_, &nfs, E_OP2U, mk(s2[i], 0), R_(1), I_(3), Z_, Z_); }
	if (has_fpu) for (i = 0; i < (int)(sizeof(fc) / 4); i++) cadd(fs_, &nfs, E_FOP1, mk(SLJIT_CMP_F64 | SLJIT_SET(fc[i] & ~1) | (i & 1 ? SLJIT_32 : 0), 0), R_(1), R_(2), Z_, Z_);
	cadd(fs_, &nfs, E_OP2CMPZ, mk(SLJIT_SUB | SLJIT_SET_CARRY, 0), R_(1), R_(2), I_(1), Z_); cadd(fs_, &nfs, E_OP2CMPZ, mk(SLJIT_SUB, 0), R_(1), R_(2), I_(1), Z_); cadd(fs_, &nfs, E_OP2CMPZ, mk(SLJIT_SUB | SLJIT_SET_LESS, 0), R_(1), R_(2), I_(1), Z_);
	if (has_atomic) cadd(fs_, &nfs, E_ASTORE, mk(SLJIT_MOV | SLJIT_SET_ATOMIC_STORED, 0), R_(1), R_(2), R_(3), Z_);
	cadd(fs_, &nfs, E_OP0, mk(SLJIT_NOP, 0), Z_, Z_, Z_, Z_); cadd(fs_, &nfs, E_LABEL, Z_, Z_, Z_, Z_, Z_);
	/* operations in the middle */
	cadd(fm_, &nfm, E_OP0, mk(SLJIT_NOP, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_OP0, mk(SLJIT_LMUL_UW, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_OP0, mk(SLJIT_DIV_S32, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_OP0, mk(SLJIT_MEMORY_BARRIER, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_OP0, mk(SLJIT_SKIP_FRAMES_BEFORE_RETURN, 0), Z_, Z_, Z_, Z_);
	for (i = SLJIT_MOV; i <= SLJIT_REV_S32; i++) cadd(fm_, &nfm, E_OP1, mk(i, 0), R_(1), R_(2), Z_, Z_); cadd(fm_, &nfm, E_OP1, mk(SLJIT_MOV, 0), mk(SLJIT_MEM1(SLJIT_SP), 0), I_(77), Z_, Z_);
	cadd(fm_, &nfm, E_OP2, mk(SLJIT_ADD, 0), R_(1), R_(2), R_(3), Z_); cadd(fm_, &nfm, E_OP2, mk(SLJIT_ROTL, 0), R_(1), R_(2), R_(3), Z_); cadd(fm_, &nfm, E_OP2, mk(SLJIT_OR | SLJIT_SET_Z, 0), R_(1), R_(2), R_(3), Z_); cadd(fm_, &nfm, E_OP2, mk(SLJIT_ADDC | SLJIT_SET_CARRY, 0), R_(1), R_(2), R_(3), Z_); cadd(fm_, &nfm, E_OP2, mk(SLJIT_SUBC32, 0), R_(1), R_(2), R_(3), Z_);
	cadd(fm_, &nfm, E_OP2R, mk(SLJIT_MULADD, 0), R_(1), R_(2), R_(3), Z_); cadd(fm_, &nfm, E_SHINTO, mk(SLJIT_SHL, 0), R_(1), R_(2), R_(3), I_(3)); cadd(fm_, &nfm, E_OPSRC, mk(SLJIT_PREFETCH_L2, 0), mk(SLJIT_MEM1(1), 0), Z_, Z_, Z_); cadd(fm_, &nfm, E_OPDST, mk(SLJIT_GET_RETURN_ADDRESS, 0), R_(1), Z_, Z_, Z_);
	if (has_fpu) { for (i = SLJIT_MOV_F64; i <= SLJIT_ABS_F64; i++) cadd(fm_, &nfm, E_FOP1, mk(i | (i == SLJIT_CMP_F64 ? SLJIT_SET_F_EQUAL : 0), 0), R_(1), R_(2), Z_, Z_); cadd(fm_, &nfm, E_FOP2, mk(SLJIT_ADD_F64, 0), R_(1), R_(2), R_(2), Z_); cadd(fm_, &nfm, E_FOP2R, mk(SLJIT_COPYSIGN_F32, 0), R_(1), R_(2), R_(2), Z_); cadd(fm_, &nfm, E_FMEM, mk(SLJIT_MOV_F64 | SLJIT_MEM_UNALIGNED, 0), R_(1), mk(SLJIT_MEM1(1), 0), Z_, Z_); cadd(fm_, &nfm, E_FCMP, mk(SLJIT_F_LESS, 0), R_(1), R_(2), Z_, Z_); }
	cadd(fm_, &nfm, E_LABEL, Z_, Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_ALABEL, mk(2, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_CALL, mk(SLJIT_CALL, 0), mk(SLJIT_ARGS0V(), 0), Z_, Z_, Z_); cadd(fm_, &nfm, E_ICALL, mk(SLJIT_CALL, 0), mk(SLJIT_ARGS0V(), 0), R_(1), Z_, Z_); cadd(fm_, &nfm, E_CMP, mk(SLJIT_LESS, 0), R_(1), I_(2), Z_, Z_);
	cadd(fm_, &nfm, E_JUMP, mk(SLJIT_EQUAL, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_JUMP, mk(SLJIT_LESS, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_JUMP, mk(SLJIT_CARRY, 0), Z_, Z_, Z_, Z_); cadd(fm_, &nfm, E_OPFLAGS, mk(SLJIT_MOV, 0), R_(1), mk(SLJIT_EQUAL, 0), Z_, Z_); cadd(fm_, &nfm, E_OPFLAGS, mk(SLJIT_AND | SLJIT_SET_Z, 0), R_(1), mk(SLJIT_OVERFLOW, 0), Z_, Z_); cadd(fm_, &nfm, E_OPFLAGS, mk(SLJIT_XOR, 0), R_(1), mk(SLJIT_NOT_ZERO, 0), Z_, Z_); cadd(fm_, &nfm, E_SELECT, mk(SLJIT_NOT_ZERO, 0), R_(1), R_(2), R_(3), Z_); cadd(fm_, &nfm, E_SELECT, mk(SLJIT_SIG_LESS, 0), R_(1), R_(2), R_(3), Z_);
	cadd(fm_, &nfm, E_MEM, mk(SLJIT_MOV | SLJIT_MEM_UNALIGNED, 0), R_(1), mk(SLJIT_MEM1(2), 0), Z_, Z_); cadd(fm_, &nfm, E_CONST, mk(SLJIT_MOV, 0), R_(1), Z_, Z_, Z_); cadd(fm_, &nfm, E_LBASE, R_(1), Z_, Z_, Z_, Z_);
}
static void use(const char *hist, int z, int v, int f32)
{
	int u, t; opd a[6]; char h[400];
	for (u = 0; u < 5; u++) for (t = 0; t <= SLJIT_JUMP; t++) {
		static const s32 ac[] = { SLJIT_ADDC, SLJIT_ADDC | SLJIT_32, SLJIT_SUBC, SLJIT_SUBC | SLJIT_32, SLJIT_ADDC | SLJIT_SET_CARRY, SLJIT_SUBC | SLJIT_32 | SLJIT_SET_CARRY };
		int e = u == 0 ? E_JUMP : u == 1 ? E_OPFLAGS : u == 2 ? E_SELECT : u == 3 ? E_FSELECT : E_OP2, lf; sw lz;
		if (u == 3 && !has_fpu) continue; if (u == 4 && t >= 6) break;
		memset(a, 0, sizeof(a));
		if (u == 0) a[0] = mk(t, 0); else if (u == 1) { a[0] = mk(SLJIT_MOV, 0); a[1] = R_(1); a[2] = mk(t, 0); } else if (u == 2 || u == 3) { a[0] = mk(t, 0); a[1] = R_(1); a[2] = R_(2); a[3] = R_(2); } else { a[0] = mk(ac[t], 0); a[1] = R_(1); a[2] = R_(2); a[3] = R_(3); }
		f_z = z; f_v = v; f_32 = f32; lf = C->last_flags; lz = (sw)C->size; (void)lz;
		judge(e, a, hist); C->error = 0; C->last_flags = lf;
	}
	(void)h;
}
static void part_c(void)
{
	int i, j, k, n2; char h[500], t1[600], t2[600];
	K = ctxs[0]; K.scr = 4; if (!has_fpu) K.fs = K.fsav = 0; lists();
	for (i = 0; i < nfs; i++) for (j = -1; j < nfm; j++) for (k = -1; k < (j < 0 ? 0 : nfm); k++) {
		int z, v, f; if (!g_thorough && k >= 0 && (i + j + k) % 5) continue;
		if (!mine()) continue;
		g_cur = g_idx - 1; g_phase = "flags"; TICK(); newc(); setctx(); kill_flags(); f_32 = 0;
		if (judge(fs_[i].e, fs_[i].a, "") != 1) continue; legal(fs_[i].e, fs_[i].a, 1);
		if (j >= 0) { int r = judge(fm_[j].e, fm_[j].a, "after a flag setter: "); if (r != 1) continue; legal(fm_[j].e, fm_[j].a, 1); }
		if (k >= 0) { int r = judge(fm_[k].e, fm_[k].a, "after a flag setter and an operation: "); if (r != 1) continue; legal(fm_[k].e, fm_[k].a, 1); }
		z = f_z; v = f_v; f = f_32; n2 = sprintf(h, "%s %#x", ep[fs_[i].e].n, fs_[i].a[0].c); if (j >= 0) n2 += sprintf(h + n2, ", %s %#x", ep[fm_[j].e].n, fm_[j].a[0].c); if (k >= 0) n2 += sprintf(h + n2, ", %s %#x", ep[fm_[k].e].n, fm_[k].a[0].c); sprintf(h + n2, ", then ");
		use(h, z, v, f);
		(void)t1; (void)t2;
	}
	/* the state declared by sljit_set_current_flags */
	for (i = 0; i < 24; i++) {
		static const s32 cf[] = { 0, SLJIT_SET_Z, SLJIT_CURRENT_FLAGS_32 | SLJIT_SET_Z, SLJIT_SET_Z | SLJIT_CURRENT_FLAGS_SUB | SLJIT_SET_LESS, SLJIT_CURRENT_FLAGS_SUB | SLJIT_SET_GREATER, SLJIT_CURRENT_FLAGS_SUB | SLJIT_CURRENT_FLAGS_COMPARE | SLJIT_SET_SIG_LESS | SLJIT_SET_Z, SLJIT_CURRENT_FLAGS_ADD | SLJIT_SET_CARRY, SLJIT_CURRENT_FLAGS_ADD | SLJIT_CURRENT_FLAGS_32 | SLJIT_SET_CARRY, SLJIT_CURRENT_FLAGS_ADD | SLJIT_SET_OVERFLOW | SLJIT_SET_Z, SLJIT_SET_F_EQUAL, SLJIT_SET(SLJIT_ORDERED_EQUAL & ~1) | SLJIT_CURRENT_FLAGS_32 };
		if (i >= (int)(sizeof(cf) / 4)) break; if (!mine()) continue;
		g_cur = g_idx - 1; newc(); setctx(); sljit_emit_label(C); sljit_set_current_flags(C, cf[i]);
		if (sljit_get_compiler_error(C)) { vio(g_idx - 1, "current", "sljit_set_current_flags(%#x) records error %d", cf[i], (int)sljit_get_compiler_error(C)); continue; }
		sprintf(h, "set_current_flags %#x, then ", cf[i]); use(h, cf[i] & SLJIT_SET_Z ? 1 : 0, vflag(cf[i]) ? vflag(cf[i]) : -1, cf[i] & SLJIT_32);
	}
}
/* ---------------------------------------------------------------- error histories */
static opd anyv[NEP][6];
static void part_b(void)
{
	static const int errs[] = { SLJIT_ERR_ALLOC_FAILED, SLJIT_ERR_BAD_ARGUMENT, SLJIT_ERR_COMPILED, SLJIT_ERR_UNSUPPORTED, SLJIT_ERR_EX_ALLOC_FAILED }; int i, e, e2, k; opd b[72]; char t[600]; void *code;
	K = ctxs[0]; if (!has_fpu) K.fs = K.fsav = 0;
	for (e = 0; e < NEP; e++) { bases(e, b); memcpy(anyv[e], b, 6 * sizeof(opd)); }
	for (i = 0; i < 5; i++) for (e = 0; e < NEP; e++) for (e2 = -1; e2 < NEP; e2++) {
		sw sz; int er, r; if (!mine()) continue;
		g_cur = g_idx - 1; g_phase = "errors"; TICK(); newc(); setctx(); sljit_emit_op0(C, SLJIT_NOP); code = NULL;
		switch (i) { case 0: sljit_set_compiler_memory_error(C); break; case 1: sljit_emit_op0(C, 200); break; case 2: code = sljit_generate_code(C, 0, NULL); break; default: C->error = errs[i]; }
		er = sljit_get_compiler_error(C); sz = (sw)C->size; n_states++;
		if (er != errs[i]) vio(g_idx - 1, "source", "error %d is recorded, expected %d", er, errs[i]);
		for (k = 0; k < 2; k++) {
			int x = k ? e2 : e; if (x < 0) continue; n_steps++; n_runs++;
			r = docall(x, anyv[x]); f_z = f_v = -1;
			if (r != er) { char key[80]; sprintf(key, "sticky-%s", ep[x].n); vio(g_idx - 1, key, "after error %d: %s | returns %d", er, atxt(x, anyv[x], t), r); break; }
			if (sljit_get_compiler_error(C) != er) { vio(g_idx - 1, "sticky-changed", "after error %d: %s | the error becomes %d", er, atxt(x, anyv[x], t), (int)sljit_get_compiler_error(C)); break; }
			if ((sw)C->size != sz) { vio(g_idx - 1, "sticky-emit", "after error %d: %s | code is emitted", er, atxt(x, anyv[x], t)); break; }
		}
		{ void *p = sljit_generate_code(C, 0, NULL); if (p) vio(g_idx - 1, "sticky-generate", "code is generated after error %d", er); if (sljit_get_compiler_error(C) != er) vio(g_idx - 1, "sticky-generate", "generating code changes error %d to %d", er, (int)sljit_get_compiler_error(C)); }
		{ void *p = sljit_alloc_memory(C, 16); uw s2; uw *q; if (p) vio(g_idx - 1, "sticky-alloc", "memory is allocated after error %d", er); q = sljit_serialize_compiler(C, 0, &s2); if (q) vio(g_idx - 1, "sticky-serialize", "the compiler is serialized after error %d", er); if (sljit_get_compiler_error(C) != er) vio(g_idx - 1, "sticky-serialize", "serializing changes error %d to %d", er, (int)sljit_get_compiler_error(C)); }
		if (code) sljit_free_code(code, NULL);
	}
}
/* ---------------------------------------------------------------- jump targets and options of sljit_generate_code */
static void part_d(void)
{
	static const s32 opts[] = { 0, SLJIT_GENERATE_CODE_NO_CONTEXT, SLJIT_GENERATE_CODE_BUFFER, SLJIT_GENERATE_CODE_BUFFER | SLJIT_GENERATE_CODE_NO_CONTEXT, 4, 8, 0x100, 0x10000, (s32)0x80000000, -1 };
	int n, m, o, i, kind; static u8 *bufm; struct sljit_generate_code_buffer gb;
	if (!bufm) bufm = mmap(NULL, 65536, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	K = ctxs[0]; if (!has_fpu) K.fs = K.fsav = 0;
	for (n = 0; n <= 3; n++) for (m = 0; m < 27; m++) for (kind = 0; kind < 4; kind++) for (o = 0; o < 10; o++) {
		struct sljit_jump *j[3]; struct sljit_label *l; int ok = 1, mm = m; void *code; sw er; static const int p3[] = { 1, 3, 9, 27 };
		if (m >= p3[n]) break;
		if (!mine()) continue;
		g_cur = g_idx - 1; g_phase = "targets"; TICK(); newc(); setctx(); n_states++; n_runs++;
		if (!(n == 0 && kind == 3)) sljit_emit_op1(C, SLJIT_MOV, 1, 0, SLJIT_IMM, 1);
		l = n == 0 && kind == 3 ? NULL : sljit_emit_label(C);
		for (i = 0; i < n; i++) { j[i] = kind == 0 ? sljit_emit_jump(C, SLJIT_JUMP) : kind == 1 ? sljit_emit_cmp(C, SLJIT_LESS, 1, 0, SLJIT_IMM, 5) : kind == 2 ? sljit_emit_call(C, SLJIT_CALL, SLJIT_ARGS0V()) : sljit_emit_op_addr(C, i == 1 ? SLJIT_MOV_ABS_ADDR : SLJIT_MOV_ADDR, 1, 0); n_steps++; }
		for (i = 0; i < n; i++, mm /= 3) { if (mm % 3 == 0) ok = 0; else if (mm % 3 == 1) sljit_set_label(j[i], l); else sljit_set_target(j[i], (uw)bufm + 64); }
		if (n == 0 && kind == 3) ok = 0;
		if (opts[o] & ~3) ok = 0;
		gb.buffer = bufm; gb.size = 65536; gb.executable_offset = 0;
		code = sljit_generate_code(C, opts[o], opts[o] & SLJIT_GENERATE_CODE_BUFFER ? &gb : NULL); er = sljit_get_compiler_error(C);
		if (ok ? !code || er != SLJIT_ERR_COMPILED : code || er != SLJIT_ERR_BAD_ARGUMENT) vio(g_idx - 1, ok ? "generate-reject" : "generate-accept", "%d jumps of kind %d with targets %d, options %#x | code %s, error %d", n, kind, m, opts[o], code ? "generated" : "NULL", (int)er);
		if (code && !(opts[o] & SLJIT_GENERATE_CODE_BUFFER)) sljit_free_code(code, NULL);
	}
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); eng_init("args", 0, 0);
	has_fpu = sljit_has_cpu_feature(SLJIT_HAS_FPU) != 0; has_simd = sljit_has_cpu_feature(SLJIT_HAS_SIMD) != 0; has_atomic = sljit_has_cpu_feature(SLJIT_HAS_ATOMIC) != 0;
#ifdef SLJIT_SEPARATE_VECTOR_REGISTERS
	sepv = 1;
#endif
	part_b(); part_d(); part_c(); part_a();
	eng_done();
}
