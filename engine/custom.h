/* Encodings of "dst += src" (word, double, 128 bit exclusive or) from the architecture manuals, for
   sljit_emit_op_custom; the register numbers are those sljit_get_register_index reports. */
#ifndef CUSTOM_H
#define CUSTOM_H
enum { CU_ADD, CU_FADD, CU_ADD16, CU_VXOR };
/* returns the size of the instruction, 0: no such instruction */
static u32 custom_ins(int what, u32 d, u32 s, u8 *o)
{
	u32 w = 0;
#if defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86
	u32 n = 0; (void)w;
	if (what == CU_ADD16) return 0;
	if (what == CU_ADD) {
		if (IS64) o[n++] = (u8)(0x48 | ((s >> 3) << 2) | (d >> 3));
		o[n++] = 0x01; o[n++] = (u8)(0xc0 | ((s & 7) << 3) | (d & 7)); return n;
	}
	o[n++] = what == CU_FADD ? 0xf2 : 0x66;
	if (IS64) o[n++] = (u8)(0x40 | ((d >> 3) << 2) | (s >> 3));
	o[n++] = 0x0f; o[n++] = what == CU_FADD ? 0x58 : 0xef; o[n++] = (u8)(0xc0 | ((d & 7) << 3) | (s & 7)); return n;
#elif defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
	(void)w;
	switch (what) {
	case CU_ADD: o[0] = 0xb9; o[1] = 0x08; o[2] = 0; o[3] = (u8)((d << 4) | s); return 4;
	case CU_FADD: o[0] = 0xb3; o[1] = 0x1a; o[2] = 0; o[3] = (u8)((d << 4) | s); return 4;
	case CU_VXOR: o[0] = 0xe7; o[1] = (u8)(((d & 15) << 4) | (d & 15)); o[2] = (u8)((s & 15) << 4); o[3] = 0;
		o[4] = (u8)((d > 15 ? 8 : 0) | (d > 15 ? 4 : 0) | (s > 15 ? 2 : 0)); o[5] = 0x6d; return 6;
	case CU_ADD16: o[0] = 0x41; o[1] = (u8)((d << 4) | s); o[2] = (u8)(d << 4); o[3] = 0; return d && s ? 4 : 0; /* la: does not change the flags */
	}
	return 0;
#else
	switch (what) {
#if defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64
	case CU_ADD: w = s == 31 ? 0x8b206000 | (d << 16) | (31 << 5) | d : 0x8b000000 | (s << 16) | (d << 5) | d; break; /* 31: the stack pointer */
	case CU_FADD: w = 0x1e602800 | (s << 16) | (d << 5) | d; break;
	case CU_VXOR: w = 0x6e201c00 | (s << 16) | (d << 5) | d; break;
#elif defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32
#define CU_V(d, n, m) (((d) & 15) << 12 | ((d) >> 4) << 22 | ((n) & 15) << 16 | ((n) >> 4) << 7 | ((m) & 15) | ((m) >> 4) << 5)
	case CU_FADD: w = 0xee300b00 | CU_V(d, d, s); break;
#if defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
	case CU_ADD: w = 0xeb000000 | (d << 16) | (d << 8) | s; break;
	case CU_VXOR: w = 0xff000150 | CU_V(d, d, s); break;
	case CU_ADD16: { u16 h = (u16)(0x4400 | ((d >> 3) << 7) | (s << 3) | (d & 7)); memcpy(o, &h, 2); return 2; }
#else
	case CU_ADD: w = 0xe0800000 | (d << 16) | (d << 12) | s; break;
#if defined SLJIT_CONFIG_ARM_V7 && SLJIT_CONFIG_ARM_V7
	case CU_VXOR: w = 0xf3000150 | CU_V(d, d, s); break;
#endif
#endif
#elif defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV
	case CU_ADD: w = 0x33 | (d << 7) | (d << 15) | (s << 20); break;
	case CU_FADD: w = 0x02007053 | (d << 7) | (d << 15) | (s << 20); break;
#if defined __riscv_compressed
	case CU_ADD16: { u16 h = (u16)(0x9002 | (d << 7) | (s << 2)); memcpy(o, &h, 2); return d && s ? 2 : 0; }
#endif
#elif defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS
	case CU_ADD: w = (IS64 ? 0x2d : 0x21) | (d << 21) | (s << 16) | (d << 11); break;
	case CU_FADD: w = 0x46200000 | (s << 16) | (d << 11) | (d << 6); break;
#elif defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC
	case CU_ADD: w = 0x7c000214 | (d << 21) | (d << 16) | (s << 11); break;
	case CU_FADD: w = 0xfc00002a | (d << 21) | (d << 16) | (s << 11); break;
#elif defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH
	case CU_ADD: w = 0x00108000 | (s << 10) | (d << 5) | d; break;
	case CU_FADD: w = 0x01010000 | (s << 10) | (d << 5) | d; break;
	case CU_VXOR: w = 0x71270000 | (s << 10) | (d << 5) | d; break;
#endif
	default: return 0;
	}
	memcpy(o, &w, 4);
	return 4;
#endif
}
static u32 custom_for(int what, s32 d, s32 s, u8 *o)
{
	int ty = what == CU_FADD ? SLJIT_FLOAT_REGISTER : what == CU_VXOR ? SLJIT_SIMD_REG_128 : SLJIT_GP_REGISTER;
	s32 a = sljit_get_register_index(ty, d), b = sljit_get_register_index(ty, s);
	if (a < 0 || b < 0) return 0;
	return custom_ins(what, (u32)a, (u32)b, o);
}
static s32 emit_custom(struct sljit_compiler *c, int what, s32 d, s32 s)
{
	u8 o[16] __attribute__((aligned(16))); u32 n = custom_for(what, d, s, o);
	return n ? sljit_emit_op_custom(c, o, n) : -98;
}
#endif
