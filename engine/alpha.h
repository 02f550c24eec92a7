/* An alphabet of items that together use every emitting function of the API in several operand forms. Every sequence of
   items is a legal, terminating, executable program. Each API call goes through AL_S / AL_P, so that suites can act between any
   two calls (serialize the compiler, deny memory, ...). The pointers held by the program live in `al` and can be remapped. */
#ifndef ALPHA_H
#define ALPHA_H
#define AL_MEM 0x11000
static u8 al_mem_[AL_MEM + 128]; static u8 *al_mem;
static sw al_out[8];
/* targets without a saved float register use a scratch one in its place */
#if SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS > 0
#define AL_NFS 1
#define AL_FS0 SLJIT_FS0
#else
#define AL_NFS 0
#define AL_FS0 SLJIT_FR3
#endif
#define AL_MAXJ 64
#define AL_MAXL 48
typedef struct {
	struct sljit_compiler *c;
	struct { struct sljit_jump *j; int l; } j[AL_MAXJ]; int nj;     /* jumps bound to label l at the end */
	struct sljit_label *l[AL_MAXL]; int nl;
	struct sljit_const *k[16]; sw kv[16]; int nk;
	struct sljit_read_only_buffer rb[24]; int nrb; struct sljit_jump *tj;
	int pos;      /* number of the item */
	u64 calls; int stop;   /* stop: leave the program at once */
} al_t;
static al_t al;
static void (*al_hook)(void); static void (*al_status)(int is_ptr, s32 st, void *p);
static s32 al_s(s32 st) { al.calls++; if (al_status) al_status(0, st, NULL); if (al_hook) al_hook(); return st; }
static void *al_p(void *p) { al.calls++; if (al_status) al_status(1, 0, p); return p; }
#define C (al.c)
#define AL_S(x) do { if (al.stop) return; al_s(x); } while (0)
/* pointer results are stored before the hook runs */
#define AL_P(var, x) do { if (al.stop) return; (var) = (x); al_p((void *)(var)); if (al_hook) al_hook(); } while (0)
#define AL_V(x) do { if (al.stop) return; (x); if (al_hook) al_hook(); } while (0)
#define M(o) SLJIT_MEM1(SLJIT_S0), (o)
#define RG(r) SLJIT_##r, 0
#define IM(v) SLJIT_IMM, (sw)(v)
#define ML(o) SLJIT_MEM1(SLJIT_SP), (o)
static void al_jump_to(struct sljit_jump *j, int l) { (void)j; al.j[al.nj++].l = l; }
static sw SLJIT_FUNC al_cfun(sw a, sw b) { return a * 3 + (b ^ 0x55); }
static double SLJIT_FUNC al_cfunf(double a, sw b) { return a + (double)(b & 0xff); }
static void al_ctx(void) { sljit_set_context(C, 0, SLJIT_ARGS1(W, W), 5 | SLJIT_ENTER_FLOAT(4) | SLJIT_ENTER_VECTOR(4), 3 | SLJIT_ENTER_FLOAT(AL_NFS), 64); }
#define JL(x, lab) do { AL_P(al.j[al.nj].j, x); al.j[al.nj++].l = (lab); } while (0)
#define NEWL() (al.nl++)
#define PUTL(lab) AL_P(al.l[lab], sljit_emit_label(C))
static void al_regs(void)
{
	AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(0x1357))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), IM(-77)));
	AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, RG(FR0), M(64))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, RG(FR1), M(72)));
}
static void al_begin(void)
{
	AL_S(sljit_emit_enter(C, 0, SLJIT_ARGS1(W, W), 5 | SLJIT_ENTER_FLOAT(4) | SLJIT_ENTER_VECTOR(4), 3 | SLJIT_ENTER_FLOAT(AL_NFS), 64));
	AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(S1), IM(8))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(S2), IM(3)));
	AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM(0x2468))); al_regs();
	AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, RG(FR2), M(64))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, RG(FR3), M(72))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, AL_FS0, 0, M(72)));
	AL_S(sljit_emit_op1(C, SLJIT_MOV, ML(0), IM(1))); AL_S(sljit_emit_op1(C, SLJIT_MOV, ML(16), IM(2)));
}
static void al_end(void)
{
	int i; int e = NEWL();
	if (al.stop) return;
	PUTL(e);
	for (i = 0; i < al.nj; i++) if (al.j[i].l < 0) al.j[i].l = e;
	AL_S(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), (sw)&al_out[0], RG(R0))); AL_S(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), (sw)&al_out[1], RG(R1))); AL_S(sljit_emit_op1(C, SLJIT_MOV, SLJIT_MEM0(), (sw)&al_out[2], RG(R2)));
	AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, M(128), RG(FR0))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, M(136), RG(FR1))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), ML(16)));
	AL_S(sljit_emit_return(C, SLJIT_MOV, RG(R0)));
	for (i = 0; i < al.nj; i++) AL_V(sljit_set_label(al.j[i].j, al.l[al.j[i].l]));
}
static u32 al_nop(void)
{
#if defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86
	return 0x90909090;
#elif defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64
	return 0xd503201f;
#elif defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
	return 0xf3af8000;
#elif defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32
	return 0xe1a00000;
#elif defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV
	return 0x13;
#elif defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC
	return 0x60000000;
#elif defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
	return 0x47000000;
#elif defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH
	return 0x03400000;
#else
	return 0;
#endif
}
#define AL_N 76
static const int al_core[] = { 0, 8, 15, 18, 22, 26, 30, 34, 35, 37, 38, 39, 40, 42, 44, 47, 48, 49, 50, 51, 52, 53, 56, 58, 60, 63, 65, 67, 68, 72, 73 };
#define AL_NCORE ((int)(sizeof(al_core) / sizeof(*al_core)))
static int al_has_atomic(s32 f) { return sljit_has_cpu_feature(SLJIT_HAS_ATOMIC) && sljit_emit_atomic_load(C, SLJIT_MOV | SLJIT_ATOMIC_TEST | f, SLJIT_R1, SLJIT_R2) == SLJIT_SUCCESS; }
#define VT(s, e, f) (SLJIT_SIMD_REG_##s | SLJIT_SIMD_ELEM_##e | (f))
static void al_item(int id)
{
	struct sljit_jump *j; struct sljit_label *l; struct sljit_const *k; int a, b; (void)j; (void)l; (void)k;
	switch (id) {
	case 0: AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM((sw)0x89abcdef01234567ll))); break;
	case 1: AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(-5))); break;
	case 2: AL_S(sljit_emit_op1(C, SLJIT_MOV, M(8), RG(R0))); break;
	case 3: AL_S(sljit_emit_op1(C, SLJIT_MOV_U8, RG(R2), SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 1)); break;
	case 4: AL_S(sljit_emit_op1(C, SLJIT_MOV_S16, ML(16), RG(R1))); AL_S(sljit_emit_op1(C, SLJIT_MOV_S16, RG(R0), ML(16))); break;
	case 5: AL_S(sljit_emit_op1(C, SLJIT_MOV_S32, RG(R1), SLJIT_MEM0(), (sw)(al_mem + 24))); break;
	case 6: AL_S(sljit_emit_op1(C, SLJIT_MOV_U16, M(0x10000), RG(R2))); AL_S(sljit_emit_op1(C, SLJIT_MOV_U16, M(0x10002), M(0xfff0))); break;
	case 7: AL_S(sljit_emit_op1(C, SLJIT_MOV32, M(40), IM(0x7654321))); break;
	case 8: AL_S(sljit_emit_op1(C, SLJIT_CLZ, RG(R0), RG(R1))); AL_S(sljit_emit_op1(C, SLJIT_REV, RG(R1), M(16))); break;
	case 9: AL_S(sljit_emit_op1(C, SLJIT_CTZ, M(8), RG(R2))); AL_S(sljit_emit_op1(C, SLJIT_REV_S16, RG(R1), RG(R1))); break;
	case 10: AL_S(sljit_emit_op2(C, SLJIT_ADD, RG(R0), RG(R0), RG(R1))); break;
	case 11: AL_S(sljit_emit_op2(C, SLJIT_ADD | SLJIT_SET_OVERFLOW, RG(R1), RG(R0), IM(0x123456))); AL_S(sljit_emit_op_flags(C, SLJIT_XOR, RG(R2), SLJIT_OVERFLOW)); break;
	case 12: AL_S(sljit_emit_op2(C, SLJIT_SUB | SLJIT_SET_CARRY, RG(R0), RG(R1), RG(R2))); AL_S(sljit_emit_op2(C, SLJIT_SUBC, RG(R1), RG(R1), IM(1))); break;
	case 13: AL_S(sljit_emit_op2(C, SLJIT_MUL | SLJIT_SET_OVERFLOW, RG(R2), RG(R0), RG(R1))); AL_S(sljit_emit_op_flags(C, SLJIT_MOV, RG(R0), SLJIT_OVERFLOW)); break;
	case 14: AL_S(sljit_emit_op2(C, SLJIT_AND | SLJIT_SET_Z, RG(R1), RG(R1), M(32))); AL_S(sljit_emit_select(C, SLJIT_ZERO, SLJIT_R0, RG(R2), SLJIT_R1)); break;
	case 15: AL_S(sljit_emit_op2(C, SLJIT_SHL, RG(R0), RG(R0), IM(5))); AL_S(sljit_emit_op2(C, SLJIT_MLSHR, M(8), RG(R0), RG(S2))); break;
	case 16: AL_S(sljit_emit_op2(C, SLJIT_ROTL, RG(R1), RG(R1), RG(S2))); AL_S(sljit_emit_op2(C, SLJIT_MASHR, RG(R2), M(8), IM(3))); break;
	case 17: AL_S(sljit_emit_op2(C, SLJIT_XOR, M(16), M(16), IM(0x55aa55))); AL_S(sljit_emit_op2(C, SLJIT_OR, RG(R0), IM(0xff0000), M(24))); break;
	case 18: AL_S(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, RG(R0), RG(R1))); AL_S(sljit_emit_op_flags(C, SLJIT_MOV, M(8), SLJIT_EQUAL)); JL(sljit_emit_jump(C, SLJIT_LESS), -1); break;
	case 19: AL_S(sljit_emit_op2r(C, SLJIT_MULADD, SLJIT_R0, RG(R1), RG(R2))); break;
	case 20: AL_S(sljit_emit_shift_into(C, SLJIT_SHL, SLJIT_R0, SLJIT_R1, SLJIT_R2, IM(9))); AL_S(sljit_emit_shift_into(C, SLJIT_MLSHR, SLJIT_R1, SLJIT_R0, SLJIT_R2, RG(S2))); break;
	case 21: AL_S(sljit_emit_op0(C, SLJIT_NOP)); AL_S(sljit_emit_op0(C, SLJIT_ENDBR)); AL_S(sljit_emit_op0(C, SLJIT_MEMORY_BARRIER)); break;
	case 22: AL_S(sljit_emit_op0(C, SLJIT_LMUL_UW)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(7))); AL_S(sljit_emit_op0(C, SLJIT_DIVMOD_UW)); break;
	case 23: AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(-9))); AL_S(sljit_emit_op0(C, SLJIT_DIV_SW)); AL_S(sljit_emit_op0(C, SLJIT_LMUL_SW)); break;
	case 24: AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, RG(FR0), M(64))); AL_S(sljit_emit_fop1(C, SLJIT_NEG_F64, RG(FR1), RG(FR0))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, M(144), RG(FR1))); break;
	case 25: AL_S(sljit_emit_fop1(C, SLJIT_CONV_F64_FROM_SW, RG(FR1), RG(S2))); AL_S(sljit_emit_fop1(C, SLJIT_CONV_S32_FROM_F64, M(48), RG(FR0))); AL_S(sljit_emit_fop1(C, SLJIT_CONV_F64_FROM_UW, RG(FR2), IM(12345))); break;
	case 26: AL_S(sljit_emit_fop2(C, SLJIT_ADD_F64, RG(FR1), RG(FR0), M(72))); AL_S(sljit_emit_fop2(C, SLJIT_DIV_F64, M(152), RG(FR1), RG(FR3))); break;
	case 27: AL_S(sljit_emit_fop1(C, SLJIT_CONV_F32_FROM_F64, RG(FR2), RG(FR0))); AL_S(sljit_emit_fop2(C, SLJIT_MUL_F32, RG(FR2), RG(FR2), M(80))); AL_S(sljit_emit_fop1(C, SLJIT_CONV_F64_FROM_F32, RG(FR1), RG(FR2))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, RG(FR2), RG(FR1))); break;
	case 28: AL_S(sljit_emit_fop2r(C, SLJIT_COPYSIGN_F64, SLJIT_FR0, RG(FR1), M(64))); break;
	case 29: AL_S(sljit_emit_fset64(C, SLJIT_FR0, 3.14159)); AL_S(sljit_emit_fset64(C, SLJIT_FR1, 0.0)); AL_S(sljit_emit_fset32(C, SLJIT_FR2, 1.25f)); AL_S(sljit_emit_fop1(C, SLJIT_CONV_F64_FROM_F32, RG(FR2), RG(FR2))); break;
	case 30: AL_S(sljit_emit_fop1(C, SLJIT_CMP_F64 | SLJIT_SET_F_LESS, RG(FR0), RG(FR1))); AL_S(sljit_emit_fselect(C, SLJIT_F_LESS, SLJIT_FR2, M(64), SLJIT_FR1)); break;
	case 31: if (IS64) { AL_S(sljit_emit_fcopy(C, SLJIT_COPY_TO_F64, SLJIT_FR1, SLJIT_R0)); AL_S(sljit_emit_fcopy(C, SLJIT_COPY_FROM_F64, SLJIT_FR0, SLJIT_R2)); } else { AL_S(sljit_emit_fcopy(C, SLJIT_COPY_TO_F64, SLJIT_FR1, SLJIT_REG_PAIR(SLJIT_R0, SLJIT_R2))); AL_S(sljit_emit_fcopy(C, SLJIT_COPY32_FROM_F32, SLJIT_FR0, SLJIT_R2)); } break;
	case 32: AL_S(sljit_emit_fop1(C, SLJIT_ABS_F64, AL_FS0, 0, RG(FR1))); AL_S(sljit_emit_fop2(C, SLJIT_SUB_F64, RG(FR0), AL_FS0, 0, RG(FR3))); break;
	case 33: PUTL(NEWL()); break;
	case 34: AL_P(al.l[NEWL()], sljit_emit_aligned_label(C, SLJIT_LABEL_ALIGN_8, NULL)); break;
	case 35: a = al.nrb; if (a + 2 > 24) break; al.nrb += 2; al.rb[a].size = 13; al.rb[a].next = &al.rb[a + 1]; al.rb[a + 1].size = 40; al.rb[a + 1].next = NULL;
		b = NEWL(); JL(sljit_emit_jump(C, SLJIT_JUMP), b); AL_P(al.l[NEWL()], sljit_emit_aligned_label(C, SLJIT_LABEL_ALIGN_16, &al.rb[a])); PUTL(b); break;
	case 36: AL_P(al.l[NEWL()], sljit_emit_aligned_label(C, SLJIT_LABEL_ALIGN_4, NULL)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), IM(99))); break;
	case 37: a = NEWL(); JL(sljit_emit_jump(C, SLJIT_JUMP), a); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM(1))); PUTL(a); break;
	case 38: JL(sljit_emit_cmp(C, SLJIT_SIG_GREATER, RG(R0), IM(0x700000)), -1); break;
	case 39: a = NEWL(); JL(sljit_emit_cmp(C, SLJIT_EQUAL | SLJIT_REWRITABLE_JUMP, RG(R0), RG(R1)), a); AL_S(sljit_emit_op2(C, SLJIT_ADD, RG(R0), RG(R0), IM(3))); PUTL(a); break;
	case 40: a = NEWL(); JL(sljit_emit_fcmp(C, SLJIT_F_GREATER, RG(FR0), RG(FR1)), a); AL_S(sljit_emit_op2(C, SLJIT_SUB, RG(R0), RG(R0), IM(7))); PUTL(a); break;
	case 41: JL(sljit_emit_op2cmpz(C, SLJIT_SUB | SLJIT_JUMP_IF_ZERO, RG(R2), RG(R1), IM(0x1357)), -1); break;
	case 42: a = NEWL(); b = NEWL(); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), IM(3))); PUTL(a); AL_S(sljit_emit_op2(C, SLJIT_ADD, RG(R0), RG(R0), RG(R2))); AL_S(sljit_emit_op2(C, SLJIT_SUB | SLJIT_SET_Z, RG(R2), RG(R2), IM(1))); JL(sljit_emit_jump(C, SLJIT_NOT_ZERO), a); break;
	case 43: AL_S(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_OVERFLOW, RG(R0), RG(R1))); JL(sljit_emit_jump(C, SLJIT_NOT_OVERFLOW | SLJIT_REWRITABLE_JUMP), -1); break;
	case 44: AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM(5))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(6))); AL_S(sljit_emit_icall(C, SLJIT_CALL, SLJIT_ARGS2(W, W, W), SLJIT_IMM, (sw)SLJIT_FUNC_ADDR(al_cfun))); al_regs(); break;
	case 45: AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), RG(S2))); AL_S(sljit_emit_icall(C, SLJIT_CALL, SLJIT_ARGS2(F64, F64, W), SLJIT_IMM, (sw)SLJIT_FUNC_ADDR(al_cfunf))); AL_S(sljit_emit_fop1(C, SLJIT_MOV_F64, M(160), RG(FR0))); al_regs(); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM(17))); break;
	case 46: AL_P(al.tj, sljit_emit_call(C, SLJIT_CALL, SLJIT_ARGS2(W, W, W))); AL_V(sljit_set_target(al.tj, (uw)SLJIT_FUNC_ADDR(al_cfun))); al_regs(); break;
	case 47: a = NEWL(); b = NEWL(); JL(sljit_emit_jump(C, SLJIT_JUMP), b); PUTL(a); AL_S(sljit_emit_op_dst(C, SLJIT_FAST_ENTER, ML(8))); AL_S(sljit_emit_op2(C, SLJIT_ADD, RG(R0), RG(R0), IM(11))); AL_S(sljit_emit_op_src(C, SLJIT_FAST_RETURN, ML(8))); PUTL(b); JL(sljit_emit_jump(C, SLJIT_FAST_CALL), a); break;
	case 48: a = NEWL(); JL(sljit_emit_op_addr(C, SLJIT_MOV_ADDR, RG(R3)), a); AL_S(sljit_emit_ijump(C, SLJIT_JUMP, RG(R3))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(2))); PUTL(a); break;
	case 49: a = NEWL(); b = NEWL(); PUTL(a); AL_S(sljit_emit_op0(C, SLJIT_NOP)); PUTL(b); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R3), IM(0))); JL(sljit_emit_op_addr(C, SLJIT_ADD_ABS_ADDR, RG(R3)), b); JL(sljit_emit_op_addr(C, SLJIT_MOV_ABS_ADDR, M(168)), a); AL_S(sljit_emit_op2(C, SLJIT_SUB, M(168), RG(R3), M(168))); break;
	case 50: if (al.nk > 14) break; al.kv[al.nk] = (sw)0x1122334455667788ll; AL_P(al.k[al.nk], sljit_emit_const(C, SLJIT_MOV, RG(R2), al.kv[al.nk])); al.nk++; break;
	case 51: if (al.nk > 14) break; al.kv[al.nk] = 0x12345; AL_P(al.k[al.nk], sljit_emit_const(C, SLJIT_MOV32, M(176), al.kv[al.nk])); al.nk++; al.kv[al.nk] = 200; AL_P(al.k[al.nk], sljit_emit_const(C, SLJIT_MOV_U8, RG(R1), al.kv[al.nk])); al.nk++; break;
	case 52: AL_S(sljit_emit_mem(C, SLJIT_MOV_U32 * IS64 + SLJIT_MOV * !IS64 | SLJIT_MEM_LOAD | SLJIT_MEM_UNALIGNED, SLJIT_R0, M(17))); AL_S(sljit_emit_mem(C, SLJIT_MOV | SLJIT_MEM_STORE, SLJIT_REG_PAIR(SLJIT_R0, SLJIT_R2), M(192))); break;
	case 53: AL_S(sljit_emit_mem(C, SLJIT_MOV | SLJIT_MEM_LOAD, SLJIT_REG_PAIR(SLJIT_R1, SLJIT_R0), M(16))); AL_S(sljit_emit_fmem(C, SLJIT_MOV_F64 | SLJIT_MEM_STORE | SLJIT_MEM_UNALIGNED, SLJIT_FR1, M(211))); break;
	case 54: if (sljit_emit_mem_update(C, SLJIT_MOV | SLJIT_MEM_LOAD | SLJIT_MEM_SUPP, SLJIT_R1, SLJIT_MEM1(SLJIT_S0), 16) == SLJIT_SUCCESS) { AL_S(sljit_emit_mem_update(C, SLJIT_MOV | SLJIT_MEM_LOAD, SLJIT_R1, SLJIT_MEM1(SLJIT_S0), 16)); AL_S(sljit_emit_op2(C, SLJIT_SUB, RG(S0), RG(S0), IM(16))); } break;
	case 55: AL_S(sljit_get_local_base(C, RG(R2), 16)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), SLJIT_MEM1(SLJIT_R2), 0)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), IM(4))); break;
	case 56: if (!sljit_has_cpu_feature(SLJIT_HAS_SIMD)) break; AL_S(sljit_emit_simd_mov(C, VT(128, 32, SLJIT_SIMD_LOAD), SLJIT_VR0, M(96))); AL_S(sljit_emit_simd_mov(C, VT(128, 64, SLJIT_SIMD_STORE | SLJIT_SIMD_MEM_ALIGNED_128), SLJIT_VR0, M(224))); break;
	case 57: if (!sljit_has_cpu_feature(SLJIT_HAS_SIMD)) break; AL_S(sljit_emit_simd_replicate(C, VT(128, 16, 0), SLJIT_VR1, RG(R0))); AL_S(sljit_emit_simd_lane_mov(C, VT(128, 32, SLJIT_SIMD_STORE), SLJIT_VR1, 2, M(240))); AL_S(sljit_emit_simd_replicate(C, VT(128, 64, SLJIT_SIMD_FLOAT), SLJIT_VR2, RG(FR1))); break;
	case 58: if (!sljit_has_cpu_feature(SLJIT_HAS_SIMD)) break; AL_S(sljit_emit_simd_replicate(C, VT(128, 8, 0), SLJIT_VR2, IM(0x5a))); AL_S(sljit_emit_simd_lane_replicate(C, VT(128, 8, 0), SLJIT_VR1, SLJIT_VR2, 3)); AL_S(sljit_emit_simd_op2(C, VT(128, 8, SLJIT_SIMD_OP2_XOR), SLJIT_VR1, SLJIT_VR1, RG(VR2))); AL_S(sljit_emit_simd_mov(C, VT(128, 8, SLJIT_SIMD_STORE), SLJIT_VR1, M(256))); break;
	case 59: if (!sljit_has_cpu_feature(SLJIT_HAS_SIMD)) break; AL_S(sljit_emit_simd_extend(C, VT(128, 8, SLJIT_SIMD_EXTEND_32), SLJIT_VR0, M(100))); AL_S(sljit_emit_simd_sign(C, VT(128, 32, SLJIT_SIMD_STORE), SLJIT_VR0, RG(R2))); break;
	case 60: { s32 f; if (al_has_atomic(0)) f = 0; else break; AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), RG(S0))); AL_S(sljit_emit_atomic_load(C, SLJIT_MOV | f, SLJIT_R1, SLJIT_R2)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM(0x77))); AL_S(sljit_emit_atomic_store(C, SLJIT_MOV | f | SLJIT_SET_ATOMIC_STORED, SLJIT_R0, SLJIT_R2, SLJIT_R1)); AL_S(sljit_emit_op_flags(C, SLJIT_MOV, RG(R0), SLJIT_ATOMIC_STORED)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R1), IM(1))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), IM(2))); } break;
	case 61: { static u32 n; n = al_nop(); AL_S(sljit_emit_op_custom(C, &n, 4)); } break;
	case 62: AL_S(sljit_emit_op_src(C, SLJIT_PREFETCH_L1, M(16))); AL_S(sljit_emit_op_dst(C, SLJIT_GET_RETURN_ADDRESS, RG(R3))); break;
	case 63: a = NEWL(); b = NEWL(); JL(sljit_emit_jump(C, SLJIT_JUMP), b); PUTL(a); AL_S(sljit_emit_enter(C, 0, SLJIT_ARGS2(W, W, W), 4, 4, 48)); AL_S(sljit_emit_op2(C, SLJIT_ADD, RG(R0), RG(S0), RG(S1))); AL_S(sljit_emit_op1(C, SLJIT_MOV, ML(40), RG(R0))); AL_S(sljit_emit_return(C, SLJIT_MOV, ML(40))); if (al.stop) return; al_ctx(); PUTL(b); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), IM(1))); JL(sljit_emit_call(C, SLJIT_CALL, SLJIT_ARGS2(W, W, W)), a); al_regs(); break;
	case 64: a = NEWL(); JL(sljit_emit_jump(C, SLJIT_JUMP), a); AL_S(sljit_emit_return_to(C, RG(R0))); if (al.stop) return; al_ctx(); PUTL(a); break;
	case 65: a = NEWL(); b = NEWL(); JL(sljit_emit_jump(C, SLJIT_JUMP), b); PUTL(a); AL_S(sljit_emit_enter(C, SLJIT_ENTER_REG_ARG | SLJIT_ENTER_KEEP(1), SLJIT_ARGS1(W, W_R), 4 | SLJIT_ENTER_FLOAT(1), 2, 0)); AL_S(sljit_emit_op2(C, SLJIT_XOR, RG(R0), RG(R0), IM(0x99))); AL_S(sljit_emit_return(C, SLJIT_MOV, RG(R0))); if (al.stop) return; al_ctx(); PUTL(b); JL(sljit_emit_call(C, SLJIT_CALL_REG_ARG, SLJIT_ARGS1(W, W)), a); al_regs(); break;
	case 66: AL_S(sljit_emit_op2u(C, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_SIG_LESS, RG(R0), RG(R1))); PUTL(NEWL()); AL_V(sljit_set_current_flags(C, SLJIT_SET_Z | SLJIT_SET_SIG_LESS | SLJIT_CURRENT_FLAGS_SUB | SLJIT_CURRENT_FLAGS_COMPARE)); AL_S(sljit_emit_op_flags(C, SLJIT_OR, RG(R2), SLJIT_SIG_LESS)); break;
	case 67: a = NEWL(); b = NEWL(); JL(sljit_emit_op_addr(C, SLJIT_MOV_ADDR, M(184)), a); AL_S(sljit_emit_ijump(C, SLJIT_FAST_CALL, M(184))); JL(sljit_emit_jump(C, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP), b); PUTL(a); AL_S(sljit_emit_op_dst(C, SLJIT_FAST_ENTER, RG(R4))); AL_S(sljit_emit_op2(C, SLJIT_ADD, RG(R1), RG(R1), IM(1))); AL_S(sljit_emit_op_src(C, SLJIT_FAST_RETURN, RG(R4))); PUTL(b); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R4), IM(0))); AL_S(sljit_emit_op1(C, SLJIT_MOV, M(184), IM(0))); break;
	case 68: for (a = 0; a < 12; a++) AL_S(sljit_emit_op2(C, SLJIT_XOR, RG(R0), RG(R0), IM(0x12345678 + a * 0x1010101))); break;
	case 69: for (a = 0; a < 40; a++) AL_S(sljit_emit_op0(C, SLJIT_NOP)); break;
	case 70: if (IS64) AL_S(sljit_emit_op1(C, SLJIT_MOV32, RG(R0), M(44))); AL_S(sljit_emit_op2(C, SLJIT_SUB32 | SLJIT_SET_SIG_GREATER, RG(R0), RG(R0), IM(100))); AL_S(sljit_emit_op_flags(C, SLJIT_MOV, RG(R2), SLJIT_SIG_GREATER)); AL_S(sljit_emit_op1(C, SLJIT_MOV_S32, RG(R0), RG(R0))); break;
	case 71: AL_S(sljit_emit_op2(C, SLJIT_ADD | SLJIT_SET_CARRY, RG(R0), RG(R0), IM(-1))); AL_S(sljit_emit_op2(C, SLJIT_ADDC, RG(R1), RG(R1), IM(0))); JL(sljit_emit_cmp(C, SLJIT_LESS, RG(R1), IM(2)), -1); break;
	/* absolute targets */
	case 72: AL_P(al.tj, sljit_emit_op_addr(C, SLJIT_MOV_ADDR, RG(R2))); AL_V(sljit_set_target(al.tj, (uw)(al_mem + 8))); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R0), SLJIT_MEM1(SLJIT_R2), 8)); AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R2), IM(6))); break;
	case 73: AL_S(sljit_emit_op1(C, SLJIT_MOV, RG(R3), IM(16))); AL_P(al.tj, sljit_emit_op_addr(C, SLJIT_ADD_ABS_ADDR, RG(R3))); AL_V(sljit_set_target(al.tj, (uw)(al_mem + 24))); AL_P(al.tj, sljit_emit_op_addr(C, SLJIT_MOV_ABS_ADDR, M(168))); AL_V(sljit_set_target(al.tj, (uw)(al_mem + 32))); AL_S(sljit_emit_op2(C, SLJIT_SUB, RG(R2), RG(R3), M(168))); break;
	case 74: AL_P(al.tj, sljit_emit_op_addr(C, SLJIT_MOV_ADDR, M(176))); AL_V(sljit_set_target(al.tj, (uw)0x7a9123456789abcdll)); AL_S(sljit_emit_op2(C, SLJIT_XOR, RG(R2), M(176), RG(R0))); break;
	case 75: AL_P(al.tj, sljit_emit_call(C, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS2(W, W, W))); AL_V(sljit_set_target(al.tj, (uw)SLJIT_FUNC_ADDR(al_cfun))); al_regs(); break;
	}
}
#undef C
static void al_reset(struct sljit_compiler *c) { memset(&al, 0, sizeof(al)); al.c = c; }
static void al_program(const int *id, int n) { int i; al_begin(); for (i = 0; i < n && !al.stop; i++) { al.pos = i; al_item(id[i]); } al_end(); }
static void al_init_mem(void)
{
	int i; static const double d[2] = { 1.5, -2.75 }; static const float f = 3.5f;
	if (!al_mem) al_mem = (u8 *)(((uw)al_mem_ + 63) & ~(uw)63);
	for (i = 0; i < 512; i++) al_mem[i] = (u8)(i * 37 + 11);
	for (i = 0; i < 64; i++) al_mem[0xffe0 + i] = (u8)(i + 3);
	memcpy(al_mem + 64, d, 16); memcpy(al_mem + 80, &f, 4); memset(al_out, 0, sizeof(al_out));
}
static u64 al_run(void *code)
{
	u64 h = 1469598103934665603ull; int i; sw r; al_init_mem();
	r = ((sw (SLJIT_FUNC *)(sw))(sw)code)((sw)al_mem);
	for (i = 0; i < 3; i++) h = (h ^ (u64)al_out[i]) * 1099511628211ull; h = (h ^ (u64)r) * 1099511628211ull;
	for (i = 0; i < 512; i += 8) { u64 x; memcpy(&x, al_mem + i, 8); h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
	for (i = 0; i < 64; i += 8) { u64 x; memcpy(&x, al_mem + 0xffe0 + i, 8); h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
	return h;
}
static char al_txt[600];
static void al_text(const int *id, int n) { char *o = al_txt; int i; o += sprintf(o, "items"); for (i = 0; i < n; i++) o += sprintf(o, " %d", id[i]); g_crash_txt = al_txt; }
#endif
