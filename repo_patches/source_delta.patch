From 597f16343ff48e4a820381879dbb0056b101024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 01/93] fix: sljit_emit_shift_into must copy src1 when the
 immediate shift amount is zero

---
 sljit_src/sljitNativeARM_32.c       | 6 ++++--
 sljit_src/sljitNativeARM_64.c       | 6 ++++--
 sljit_src/sljitNativeARM_T2_32.c    | 6 ++++--
 sljit_src/sljitNativeLOONGARCH_64.c | 6 ++++--
 sljit_src/sljitNativeMIPS_common.c  | 6 ++++--
 sljit_src/sljitNativePPC_common.c   | 6 ++++--
 sljit_src/sljitNativeRISCV_common.c | 6 ++++--
 sljit_src/sljitNativeS390X.c        | 6 ++++--
 sljit_src/sljitNativeX86_common.c   | 6 +++---
 9 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..bd1432d 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2609,8 +2609,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		FAIL_IF(push_inst(compiler, MOV | RD(dst_reg) | RM(src1_reg) | ((sljit_ins)(is_left ? 0 : 1) << 5) | ((sljit_ins)src3w << 7)));
 		src3w = (src3w ^ 0x1f) + 1;
diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7a68792..160b069 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1828,8 +1828,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		mask = inv_bits ? 0x1f : 0x3f;
 		src3w &= mask;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left)
 			src3w = (src3w ^ mask) + 1;
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..1d729cf 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2166,8 +2166,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (IS_2_LO_REGS(dst_reg, src1_reg))
 			FAIL_IF(push_inst16(compiler, (is_left ? LSLSI : LSRSI) | RD3(dst_reg) | RN3(src1_reg) | ((sljit_ins)src3w << 6)));
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..1cad0ed 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2125,8 +2125,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = INST(SLLI, op) | IMM_I12(src3w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..54b87b9 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2745,8 +2745,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SELECT_OP3(op, src3w, DSLL, DSLL32, SLL);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..e3c5df4 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2066,8 +2066,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (!(op & SLJIT_32)) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..28d3c89 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2806,8 +2806,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SLLI | WORD | IMM_I(src3w);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..646b794 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3059,8 +3059,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (op & SLJIT_32) {
 			if (dst_r == src1_r) {
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..df74bc7 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2860,9 +2860,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 #else /* !SLJIT_CONFIG_X86_32 */
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
-
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
@@ -2871,6 +2868,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
 	CHECK_EXTRA_REGS(src2_reg, src2w, (void)0);
 
+	if (src3 == SLJIT_IMM && src3w == 0)
+		return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+
 	if (is_rotate)
 		return emit_shift(compiler, is_left ? ROL : ROR, dst_reg, dstw, src1_reg, src1w, src3, src3w);
 
-- 
2.43.0


From a9a81bd1a6d9ed13acfec020bfecc32936d854a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 02/93] fix: ARM add/sub with carry immediates must be
 inverted, not negated

---
 sljit_src/sljitNativeARM_32.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index bd1432d..24e9acc 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2234,7 +2234,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 				/* Note: additive operation (commutative). */
 				SLJIT_ASSERT(op == SLJIT_ADD || op == SLJIT_ADDC);
 
-				src2_reg = (sljit_s32)get_imm((sljit_uw)-src1w);
+				src2_reg = (sljit_s32)get_imm(neg_op == SLJIT_SUB ? (sljit_uw)-src1w : ~(sljit_uw)src1w);
 				if (src2_reg) {
 					src1 = src2;
 					src1w = src2w;
@@ -2305,7 +2305,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 			src2_reg = (sljit_s32)compute_imm((sljit_uw)src2w, &imm2);
 
 			if (src2_reg == 0 && neg_op != 0) {
-				src2_reg = (sljit_s32)compute_imm((sljit_uw)-src2w, &imm2);
+				src2_reg = (sljit_s32)compute_imm((neg_op == SLJIT_ADD || neg_op == SLJIT_SUB) ? (sljit_uw)-src2w : ~(sljit_uw)src2w, &imm2);
 				if (src2_reg != 0)
 					op = neg_op;
 			}
@@ -2332,7 +2332,7 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 		src1_reg = (sljit_s32)compute_imm((sljit_uw)src1w, &imm2);
 
 		if (src1_reg == 0 && neg_op != 0) {
-			src1_reg = (sljit_s32)compute_imm((sljit_uw)-src1w, &imm2);
+			src1_reg = (sljit_s32)compute_imm(neg_op == SLJIT_SUB ? (sljit_uw)-src1w : ~(sljit_uw)src1w, &imm2);
 			if (src1_reg != 0)
 				op = neg_op;
 		}
@@ -2347,6 +2347,8 @@ static sljit_s32 emit_op(struct sljit_compiler *compiler, sljit_s32 op, sljit_s3
 
 			if (op == SLJIT_ADDC)
 				op = SLJIT_ADD;
+			else if (op == SLJIT_SUBC)
+				op = SLJIT_SUB;
 		}
 	}
 
-- 
2.43.0


From 8fa5b53bd6deff8957523abf8f7819c7bd2b37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 03/93] fix: PPC-64 or/xor must not truncate 64 bit immediates

---
 sljit_src/sljitNativePPC_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e3c5df4..ab51d41 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1733,7 +1733,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op1(struct sljit_compiler *compile
 #define TEST_ADD_IMM(src, srcw) \
 	((src) == SLJIT_IMM && (srcw) <= 0x7fff7fffl && (srcw) >= -0x80000000l)
 #define TEST_UI_IMM(src, srcw) \
-	((src) == SLJIT_IMM && !((srcw) & ~0xffffffff))
+	((src) == SLJIT_IMM && !((srcw) & ~(sljit_sw)0xffffffff))
 
 #define TEST_ADD_FORM1(op) \
 	(GET_FLAG_TYPE(op) == SLJIT_OVERFLOW \
-- 
2.43.0


From cde3a80e0a668bec8be9137c97fc98b824e79c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 04/93] fix: RISC-V sub-word stores must not sign or zero
 extend the source register

---
 sljit_src/sljitNativeRISCV_common.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 28d3c89..4f73472 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1916,11 +1916,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1928,11 +1928,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1940,11 +1940,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
-- 
2.43.0


From 7bc2ba93e4471647f10d47fd6f3810a261fc2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 05/93] fix: x86-64 memory shifts must preserve the shift
 register when src2 has a 64 bit address

---
 sljit_src/sljitNativeX86_common.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index df74bc7..c1661af 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,19 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* Loading src2 may use TMP_REG2 for addressing,
+	   so ecx can be saved there only after src2 is loaded. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From 8bc54a177f9feca70b2c17f0402da467d9600d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 06/93] fix: x86 shift_into must not overwrite src1 in the
 shift register when dst and src3 are the same

---
 sljit_src/sljitNativeX86_common.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index c1661af..e6e5625 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2976,7 +2976,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				}
 #endif /* SLJIT_CONFIG_X86_64 */
 			}
-			EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src3, src3w);
+			if (move_src1 && src1_reg == SLJIT_PREF_SHIFT_REG) {
+				/* Both dst_reg and src3 are the same register. */
+				inst = emit_x86_instruction(compiler, 1, dst_reg, 0, SLJIT_PREF_SHIFT_REG, 0);
+				FAIL_IF(!inst);
+				*inst = XCHG_r_rm;
+				src1_reg = dst_reg;
+				move_src1 = 0;
+			} else {
+				EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src3, src3w);
+			}
 		}
 
 		if (move_src1) {
-- 
2.43.0


From ed243fa4e2e952ce2520d5d67c05321eddcf638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 07/93] fix: carry flag of add/addc with the constant zero on
 RISC-V, LoongArch, and MIPS

---
 sljit_src/sljitNativeLOONGARCH_64.c | 16 +++++++++-------
 sljit_src/sljitNativeMIPS_common.c  | 16 +++++++++-------
 sljit_src/sljitNativeRISCV_common.c | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 1cad0ed..8ffba9e 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1454,7 +1454,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1476,7 +1477,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(EQUAL_FLAG) | RJ(src1) | RK(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1493,7 +1494,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1510,12 +1511,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RJ(TMP_REG1) | RK(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1530,7 +1532,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1539,7 +1541,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 54b87b9..e685a16 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1872,7 +1872,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1894,7 +1895,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
-			if (is_overflow || carry_src_ar != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1911,7 +1912,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_ar != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(OTHER_FLAG) | IMM(src2), OTHER_FLAG));
 			else
@@ -1928,12 +1929,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | S(TMP_REG1) | TA(OTHER_FLAG) | DA(OTHER_FLAG), OTHER_FLAG);
 
 	case SLJIT_ADDC:
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
-			if (carry_src_ar != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1948,7 +1950,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_ar != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(EQUAL_FLAG) | IMM(src2), EQUAL_FLAG));
 			else
@@ -1957,7 +1959,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(dst) | TA(OTHER_FLAG) | D(dst), DR(dst)));
 
-		if (carry_src_ar == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 4f73472..aa2d338 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2014,7 +2014,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -2043,7 +2044,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, ADD | WORD | RD(EQUAL_FLAG) | RS1(src1) | RS2(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2060,7 +2061,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2081,7 +2082,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RS1(TMP_REG1) | RS2(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
 			SLJIT_ASSERT(src2 != 0);
@@ -2090,7 +2092,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else
 				FAIL_IF(push_inst(compiler, ADDI | WORD | RD(dst) | RS1(src1) | IMM_I(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2108,7 +2110,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2120,7 +2122,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		else
 			FAIL_IF(push_inst(compiler, ADD | WORD | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
-- 
2.43.0


From 90bd65e8f644e37e9aecd834bb98a5e8432cbf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 08/93] fix: 32 bit compare and select must sign extend memory
 operands on RISCV-64, LoongArch, and MIPS-64

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 ++--
 sljit_src/sljitNativeMIPS_common.c  | 4 ++--
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 8ffba9e..6a38421 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2876,7 +2876,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	compiler->cache_arg = 0;
 	compiler->cache_argw = 0;
 
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	if (src1 & SLJIT_MEM) {
 		PTR_FAIL_IF(emit_op_mem2(compiler, flags, TMP_REG1, src1, src1w, src2, src2w));
@@ -3113,7 +3113,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins *ptr;
 	sljit_uw size;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index e685a16..eb3279f 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3529,7 +3529,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_MIPS_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3849,7 +3849,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_s32 src2_reg)
 {
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 	sljit_ins mov_ins = (type & SLJIT_32) ? ADDU : DADDU;
 #else /* !SLJIT_CONFIG_MIPS_64 */
 	sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index aa2d338..c77ebc9 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -3470,7 +3470,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_32 */
 
 	if (src1 & SLJIT_MEM) {
@@ -3744,7 +3744,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_ins ins;
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	sljit_ins word = (sljit_ins)(type & SLJIT_32) >> 5;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_64 */
         sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From ffb4526abd27aad102a611528d6e37fb9b5a28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 09/93] fix: LoongArch fselect must test the whole flag
 register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 6a38421..8fe4b54 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3173,11 +3173,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fselect(struct sljit_compiler *com
 	if ((type & ~SLJIT_32) == SLJIT_EQUAL || (type & ~SLJIT_32) == SLJIT_NOT_EQUAL) {
 		if ((type & ~SLJIT_32) == SLJIT_EQUAL)
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(EQUAL_FLAG)));
+		/* Only the lowest bit of the register is transferred. */
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(EQUAL_FLAG)));
+		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(TMP_REG1)));
 	} else {
 		if (get_jump_instruction(type & ~SLJIT_32) == (BNE | RJ(OTHER_FLAG) | RD(TMP_ZERO)))
 			invert = 1;
-		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, SLTU | RD(TMP_REG1) | RJ(TMP_ZERO) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, MOVGR2CF | FCD(F_OTHER_FLAG) | RJ(TMP_REG1)));
 	}
 
 	if (src1 & SLJIT_MEM) {
-- 
2.43.0


From d3f1a9af8ef38e10200893cadcc0608f8199e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 10/93] fix: LoongArch 32 bit addc must use 32 bit additions

---
 sljit_src/sljitNativeLOONGARCH_64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 8fe4b54..8c8ba22 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1515,7 +1515,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		carry_src_r = 0;
 
 		if (flags & SRC2_IMM) {
-			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
 			if (is_carry) {
 				if (src1 != dst)
@@ -1523,12 +1523,12 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				else if (src2 != dst)
 					carry_src_r = (sljit_s32)src2;
 				else {
-					FAIL_IF(push_inst(compiler, ADDI_D | RD(EQUAL_FLAG) | RJ(src1) | IMM_I12(0)));
+					FAIL_IF(push_inst(compiler, INST(ADDI, op) | RD(EQUAL_FLAG) | RJ(src1) | IMM_I12(0)));
 					carry_src_r = EQUAL_FLAG;
 				}
 			}
 
-			FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(src1) | RK(src2)));
+			FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(src1) | RK(src2)));
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
@@ -1539,7 +1539,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				FAIL_IF(push_inst(compiler, SLTU | RD(EQUAL_FLAG) | RJ(dst) | RK(carry_src_r)));
 		}
 
-		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
+		FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
 		if (!is_carry)
 			return SLJIT_SUCCESS;
-- 
2.43.0


From a62c96fb2d3bac1db92bd53f8f10b79abda2e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 11/93] fix: PPC select must not overwrite the base register of
 src1 when the carry flag is tested

---
 sljit_src/sljitNativePPC_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index ab51d41..783547f 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2944,7 +2944,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	}
 
 	if (((type & ~SLJIT_32) | 0x1) == SLJIT_NOT_CARRY)
-		FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG1) | A(TMP_ZERO) | B(TMP_ZERO)));
+		FAIL_IF(push_inst(compiler, ADDE | RC(ALT_SET_FLAGS) | D(TMP_REG2) | A(TMP_ZERO) | B(TMP_ZERO)));
 
 	size = compiler->size;
 
-- 
2.43.0


From 6ae8ba6b19d9afe14ae06b437bc8d3f949b5fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 12/93] fix: PPC sub must set the carry flag correctly when the
 constant zero is subtracted

---
 sljit_src/sljitNativePPC_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 783547f..50d0724 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -1891,7 +1891,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		if (TEST_SUB_FORM3(op))
 			return emit_op(compiler, SLJIT_SUB, flags | ALT_FORM3, dst, dstw, src1, src1w, src2, src2w);
 
-		if (TEST_SL_IMM(src2, -src2w)) {
+		/* Subtracting zero never borrows, but adding zero never sets the carry flag. */
+		if (TEST_SL_IMM(src2, -src2w) && (src2w != 0 || GET_FLAG_TYPE(op) != SLJIT_CARRY)) {
 			compiler->imm = (sljit_ins)(-src2w) & 0xffff;
 			return emit_op(compiler, SLJIT_ADD, flags | (!HAS_FLAGS(op) ? ALT_FORM2 : ALT_FORM3), dst, dstw, src1, src1w, TMP_REG2, 0);
 		}
-- 
2.43.0


From 20d07edbd44294c95c024328987e732833fa8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 13/93] fix: PPC-64 32 bit add and sub must set the carry flag
 when the zero flag is also requested

---
 sljit_src/sljitNativePPC_64.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 2b07fcb..e73336b 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -226,7 +226,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 				src2 = TMP_REG2;
 			}
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			FAIL_IF(push_inst(compiler, ADD | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
+			FAIL_IF(push_inst(compiler, ADDC | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src1) | B(src2)));
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
 			return SLJIT_SUCCESS;
@@ -311,10 +311,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			}
 
 			/* Setting XER SO is not enough, CR SO is also needed. */
-			if (src1 != TMP_ZERO)
-				FAIL_IF(push_inst(compiler, SUBF | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
-			else
-				FAIL_IF(push_inst(compiler, NEG | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2)));
+			FAIL_IF(push_inst(compiler, SUBFC | OE(ALT_SET_FLAGS) | RC(ALT_SET_FLAGS) | D(dst) | A(src2) | B(src1)));
 
 			if (flags & ALT_SIGN_EXT)
 				return push_inst(compiler, SRDI(32) | S(dst) | A(dst));
-- 
2.43.0


From 24fd3d295e1dc99b966194c1cd6c060fb30879de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 14/93] fix: PPC-64 32 bit sub with a constant first operand
 must extend the register operand

---
 sljit_src/sljitNativePPC_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index e73336b..2e402cb 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -319,8 +319,9 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		if (flags & ALT_FORM4) {
-			/* Flags does not set: BIN_IMM_EXTS unnecessary. */
 			SLJIT_ASSERT(src2 == TMP_REG2);
+			/* The carry flag might be needed. */
+			BIN_IMM_EXTS();
 			return push_inst(compiler, SUBFIC | D(dst) | A(src1) | compiler->imm);
 		}
 
-- 
2.43.0


From 0d436f3c6d6013698f500e50710dcc2eb6cdee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 15/93] fix: PPC-64 32 bit and, or, xor must sign extend
 register operands when the zero flag is set

---
 sljit_src/sljitNativePPC_64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 2e402cb..98b48c0 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -361,6 +361,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			SLJIT_ASSERT(src2 == TMP_REG2);
 			return push_inst(compiler, ANDIS | S(src1) | A(dst) | compiler->imm);
 		}
+		BIN_EXTS();
 		return push_inst(compiler, AND | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_OR:
@@ -379,6 +380,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			FAIL_IF(push_inst(compiler, ORI | S(src1) | A(dst) | IMM(imm)));
 			return push_inst(compiler, ORIS | S(dst) | A(dst) | IMM(imm >> 16));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, OR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_XOR:
@@ -402,6 +404,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			UN_EXTS();
 			return push_inst(compiler, NOR | RC(flags) | S(src2) | A(dst) | B(src2));
 		}
+		BIN_EXTS();
 		return push_inst(compiler, XOR | RC(flags) | S(src1) | A(dst) | B(src2));
 
 	case SLJIT_SHL:
-- 
2.43.0


From ec61caeac4915dcdb51413a73e0f7db3e50c5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 16/93] fix: S390X sub flags: zero flag of negation and op2u,
 compare flags of in-memory sub, overflow of subtracting INT_MIN

---
 sljit_src/sljitNativeS390X.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 646b794..94b48de 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -152,7 +152,9 @@ static sljit_s32 push_inst(struct sljit_compiler *compiler, sljit_ins ins)
 
 #define SLJIT_ADD_SUB_NO_COMPARE(status_flags_state) \
 	(((status_flags_state) & (SLJIT_CURRENT_FLAGS_ADD | SLJIT_CURRENT_FLAGS_SUB)) \
-		&& !((status_flags_state) & SLJIT_CURRENT_FLAGS_COMPARE))
+		&& (!((status_flags_state) & SLJIT_CURRENT_FLAGS_COMPARE) \
+			/* Compare instructions are only emitted for the relational flags. */ \
+			|| GET_FLAG_TYPE(status_flags_state) > SLJIT_SIG_LESS_EQUAL))
 
 /* Map the given type to a 4-bit condition code mask. */
 static SLJIT_INLINE sljit_u8 get_cc(struct sljit_compiler *compiler, sljit_s32 type) {
@@ -2539,7 +2541,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		return emit_rr(compiler, ins, src1, src1, src1w, src2, src2w);
 	}
 
-	if (src1 == SLJIT_IMM && src1w == 0 && (flag_type == 0 || sets_signed)) {
+	if (src1 == SLJIT_IMM && src1w == 0 && ((op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0 || sets_signed)) {
 		ins = (op & SLJIT_32) ? 0x1300 /* lcr */ : 0xb9030000 /* lcgr */;
 		FAIL_IF(emit_rr1(compiler, ins, dst, src2, src2w));
 		goto done;
@@ -2549,7 +2551,8 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 		sljit_sw neg_src2w = -src2w;
 
 		if (sets_signed || neg_src2w != 0 || (op & (SLJIT_SET_Z | VARIABLE_FLAG_MASK)) == 0) {
-			if (!sets_zero_overflow && is_s8(neg_src2w) && (src1 & SLJIT_MEM) && (dst == src1 && dstw == src1w)) {
+			if (!sets_zero_overflow && (!sets_signed || (op & VARIABLE_FLAG_MASK) == SLJIT_SET_OVERFLOW)
+					&& is_s8(neg_src2w) && (src1 & SLJIT_MEM) && (dst == src1 && dstw == src1w)) {
 				if (sets_signed)
 					ins = (op & SLJIT_32) ? 0xeb000000006a /* asi */ : 0xeb000000007a /* agsi */;
 				else
@@ -2578,7 +2581,7 @@ static sljit_s32 sljit_emit_sub(struct sljit_compiler *compiler, sljit_s32 op,
 				goto done;
 			}
 		}
-		else if ((op & SLJIT_32) || is_s32(neg_src2w)) {
+		else if ((op & SLJIT_32) ? ((sljit_s32)src2w != INT32_MIN) : is_s32(neg_src2w)) {
 			ins = (op & SLJIT_32) ? 0xc20900000000 /* afi */ : 0xc20800000000 /* agfi */;
 			FAIL_IF(emit_ri(compiler, ins, dst, src1, src1w, neg_src2w, RIL_A));
 			goto done;
-- 
2.43.0


From ed0d4834d349c8a1a307ef12555df88f8671ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 17/93] fix: jump and constant may have the same address after
 a conditional jump is reduced

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..3b50015 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -790,10 +790,10 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 static SLJIT_INLINE sljit_uw sljit_get_next_min(sljit_uw next_label_size,
 	sljit_uw next_jump_addr, sljit_uw next_const_addr)
 {
+	/* The next_jump_addr and next_const_addr can be the same
+	   when the size of a conditional jump is reduced to zero. */
 	sljit_uw result = next_jump_addr;
 
-	SLJIT_ASSERT(result == SLJIT_MAX_ADDRESS || result != next_const_addr);
-
 	if (next_const_addr < result)
 		result = next_const_addr;
 
-- 
2.43.0


From 75173a72622ae9d9513d7b0a894db86a497ddff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 18/93] fix: ARM_V6 constants emitted after a constant pool
 must have the address of the instruction

---
 sljit_src/sljitNativeARM_32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 24e9acc..af3531c 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -4798,11 +4798,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_const* sljit_emit_const(struct sljit_compi
 
 	if (GET_OPCODE(op) == SLJIT_MOV_U8) {
 		PTR_FAIL_IF(push_inst(compiler, SLJIT_EMIT_CONST_U8(init_value) | RD(dst_r)));
+		/* A constant pool might be inserted before the instruction. */
+		const_->addr = compiler->size - 1;
 		mem_flags = BYTE_SIZE;
 	} else {
 #if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
 		PTR_FAIL_IF(push_inst_with_unique_literal(compiler,
 			EMIT_DATA_TRANSFER(WORD_SIZE | LOAD_DATA, 1, dst_r, TMP_PC, 0), (sljit_ins)init_value));
+		/* A constant pool might be inserted before the instruction. */
+		const_->addr = compiler->size - 1;
 		compiler->patches++;
 #else /* !SLJIT_CONFIG_ARM_V6 */
 		PTR_FAIL_IF(emit_imm(compiler, dst_r, init_value));
-- 
2.43.0


From 48726bc58f630d1d4e2c5302ee93837be4b3cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 19/93] fix: LoongArch conversion from unsigned 32 bit integer
 to float

---
 sljit_src/sljitNativeLOONGARCH_64.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 8c8ba22..555dc66 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2396,7 +2396,8 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
 		break;
 	case SLJIT_CONV_F64_FROM_U32:
-		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_W : FFINT_D_W);
+		/* The zero extended value is always a non-negative 64 bit signed integer. */
+		inst = (sljit_ins)((op & SLJIT_32) ? FFINT_S_L : FFINT_D_L);
 		break;
 	default:
 		inst = BREAK;
@@ -2414,19 +2415,26 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		src = TMP_REG1;
 	}
 
-	if (!word_data)
-		FAIL_IF(push_inst(compiler, SRLI_W | RD(src) | RJ(src) | IMM_I12(0)));
+	if (!word_data) {
+		FAIL_IF(push_inst(compiler, BSTRPICK_D | RD(TMP_REG1) | RJ(src) | (sljit_ins)(31 << 16)));
+		FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
+		FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
+
+		if (dst & SLJIT_MEM)
+			return emit_op_mem2(compiler, FLOAT_DATA(op), TMP_FREG1, dst, dstw, 0, 0);
+		return SLJIT_SUCCESS;
+	}
 
 	FAIL_IF(push_inst(compiler, BLT | RJ(src) | RD(TMP_ZERO) | IMM_I16(4)));
 
-	FAIL_IF(push_inst(compiler, (word_data ? MOVGR2FR_D : MOVGR2FR_W) | FRD(dst_r) | RJ(src)));
+	FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(src)));
 	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
 	FAIL_IF(push_inst(compiler, B | IMM_I26(7)));
 
 	FAIL_IF(push_inst(compiler, ANDI | RD(TMP_REG2) | RJ(src) | IMM_I12(1)));
-	FAIL_IF(push_inst(compiler, (word_data ? SRLI_D : SRLI_W) | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
+	FAIL_IF(push_inst(compiler, SRLI_D | RD(TMP_REG1) | RJ(src) | IMM_I12(1)));
 	FAIL_IF(push_inst(compiler, OR | RD(TMP_REG1) | RJ(TMP_REG1) | RK(TMP_REG2)));
-	FAIL_IF(push_inst(compiler, INST(MOVGR2FR, (!word_data)) | FRD(dst_r) | RJ(TMP_REG1)));
+	FAIL_IF(push_inst(compiler, MOVGR2FR_D | FRD(dst_r) | RJ(TMP_REG1)));
 	FAIL_IF(push_inst(compiler, inst | FRD(dst_r) | FRJ(dst_r)));
 	FAIL_IF(push_inst(compiler, FINST(FADD, op) | FRD(dst_r) | FRJ(dst_r) | FRK(dst_r)));
 
-- 
2.43.0


From ec3e4a4abbd6a71346fd99ef9ab56bc3773e2dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 20/93] fix: ARM-64 register pair load swaps the registers when
 the first one is the base

---
 sljit_src/sljitNativeARM_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 160b069..4bce074 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2715,8 +2715,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			inst = SUBI;
 		} else if ((memw & 0x7) == 0 && memw <= 0x7ff0) {
 			if (!(type & SLJIT_MEM_STORE) && (mem & REG_MASK) == REG_PAIR_FIRST(reg)) {
-				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7)));
-				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7));
+				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7)));
+				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7));
 			}
 
 			inst = (type & SLJIT_MEM_STORE) ? STRI : LDRI;
-- 
2.43.0


From f44cfb004e70d9a1490a4893753ff06427369381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 21/93] fix: Thumb2 unaligned float access drops offsets which
 are not encodable as immediate

---
 sljit_src/sljitNativeARM_T2_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 1d729cf..c603ec9 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3595,21 +3595,21 @@ static sljit_s32 update_mem_addr(struct sljit_compiler *compiler, sljit_s32 *mem
 		if (argw < 0) {
 			imm = get_imm((sljit_uw)(-argw & ~0xff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = -(-argw & 0xff);
 				return push_inst32(compiler, SUB_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else if ((argw & 0xfff) <= max_offset) {
 			imm = get_imm((sljit_uw)(argw & ~0xfff));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = argw & 0xfff;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
 		} else {
 			imm = get_imm((sljit_uw)((argw | 0xfff) + 1));
 
-			if (imm) {
+			if (imm != INVALID_IMM) {
 				*memw = (argw & 0xfff) - 0x1000;
 				return push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(arg) | imm);
 			}
-- 
2.43.0


From eeb4949f19c6e82d73bf333856eeeeb4bfd70e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 22/93] fix: MIPS unaligned float access to the local area
 ignores the locals offset

---
 sljit_src/sljitNativeMIPS_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index eb3279f..6f42d36 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -4219,6 +4219,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fmem(struct sljit_compiler *compil
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fmem(compiler, type, freg, mem, memw));
+	ADJUST_LOCAL_OFFSET(mem, memw);
 
 	FAIL_IF(update_mem_addr(compiler, &mem, &memw, SIMM_MAX - (type & SLJIT_32) ? 3 : 7));
 	SLJIT_ASSERT(FAST_IS_REG(mem) && mem != TMP_REG2);
-- 
2.43.0


From 8e817e0ce34bb1d335986e6d4179a415798d630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 23/93] fix: MIPS emit_op_mem destroys the base register when
 it is also the destination

---
 sljit_src/sljitNativeMIPS_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 6f42d36..154b8bb 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1516,15 +1516,17 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg_ar, arg, argw))
 		return compiler->error;
 
+	base = arg & REG_MASK;
+
 	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA)) {
-		tmp_ar = reg_ar;
+		/* The base register must be kept until the address is computed. */
+		tmp_ar = (base != 0 && reg_ar == DR(base)) ? DR(TMP_REG1) : reg_ar;
 		delay_slot = reg_ar;
 	}
 	else {
 		tmp_ar = DR(TMP_REG1);
 		delay_slot = MOVABLE_INS;
 	}
-	base = arg & REG_MASK;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
-- 
2.43.0


From d230c2fa3cf01d1c6e31c533cfe2fb1deaf7d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 24/93] fix: S390X add immediate to memory ignores the base
 register of large offset and indexed forms

---
 sljit_src/sljitNativeS390X.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 94b48de..0e967f6 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1245,21 +1245,21 @@ static sljit_s32 emit_siy(struct sljit_compiler *compiler, sljit_ins ins,
 	SLJIT_ASSERT(dst & SLJIT_MEM);
 
 	if (dst & OFFS_REG_MASK) {
-		sljit_gpr index = tmp1;
+		sljit_gpr index = gpr(OFFS_REG(dst));
 
-		if ((dstw & 0x3) == 0)
-			index = gpr(OFFS_REG(dst));
-		else
+		if ((dstw & 0x3) != 0) {
 			FAIL_IF(push_inst(compiler, sllg(tmp1, index, dstw & 0x3, 0)));
+			index = tmp1;
+		}
 
-		FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, index)));
+		FAIL_IF(push_inst(compiler, la(tmp1, 0, gpr(dst & REG_MASK), index)));
 		dstw = 0;
 	}
 	else if (!is_s20(dstw)) {
 		FAIL_IF(push_load_imm_inst(compiler, tmp1, dstw));
 
 		if (dst & REG_MASK)
-			FAIL_IF(push_inst(compiler, la(tmp1, 0, dst_r, tmp1)));
+			FAIL_IF(push_inst(compiler, la(tmp1, 0, gpr(dst & REG_MASK), tmp1)));
 
 		dstw = 0;
 	}
-- 
2.43.0


From 3a9efbc87e335567b39a986a3d409787856458da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 25/93] fix: S390X op_flags ignores the locals offset of stack
 destinations

---
 sljit_src/sljitNativeS390X.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index 0e967f6..a7a3f6a 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3804,6 +3804,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
+	ADJUST_LOCAL_OFFSET(dst, dstw);
 
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
-- 
2.43.0


From 61a34213638bedf9d5cc06f3c1fc10f123c4388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 26/93] fix: S390X register pair load destroys or miscomputes
 its indexed address

---
 sljit_src/sljitNativeS390X.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index a7a3f6a..a054457 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -4013,7 +4013,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			FAIL_IF(push_inst(compiler, 0xeb000000000d /* sllg */ | R36A(tmp1) | R32A(offs) | ((sljit_ins)memw << 16)));
 			offs = tmp1;
 		} else if (!(type & SLJIT_MEM_STORE) && (base == reg1 || base == reg2) && (offs == reg1 || offs == reg2)) {
-			FAIL_IF(push_inst(compiler, 0xb9f80000 | R12A(tmp1) | R4A(base) | R0A(offs)));
+			FAIL_IF(push_inst(compiler, 0xb9e80000 /* agrk */ | R12A(offs) | R4A(tmp1) | R0A(base)));
 			base = tmp1;
 			offs = 0;
 		}
@@ -4037,7 +4037,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 
 	ins = ((type & SLJIT_MEM_STORE) ? 0xe30000000024 /* stg */ : 0xe30000000004 /* lg */) | R32A(offs) | R28A(base);
 
-	if (!(type & SLJIT_MEM_STORE) && base == reg1) {
+	if (!(type & SLJIT_MEM_STORE) && (base == reg1 || offs == reg1)) {
 		FAIL_IF(push_inst(compiler, ins | R36A(reg2) | disp_s20((sljit_s32)memw + SSIZE_OF(sw))));
 		return push_inst(compiler, ins | R36A(reg1) | disp_s20((sljit_s32)memw));
 	}
-- 
2.43.0


From 180b1d0227a78b33667cba711783bedaad4b17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 27/93] fix: local offset was adjusted twice for copysign
 operands

---
 sljit_src/sljitLir.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 3b50015..f2c8716 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3521,8 +3521,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
-	ADJUST_LOCAL_OFFSET(src1, src1w);
-	ADJUST_LOCAL_OFFSET(src2, src2w);
 
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_fop2(compiler, op, dst_freg, 0, src1, src1w, src2, src2w);
-- 
2.43.0


From 8ce2ef4ff2d54c644f5c9d900eecdfb95982bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 28/93] fix: PPC-32 copy of a single register into the high
 half of a double

---
 sljit_src/sljitNativePPC_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativePPC_32.c b/sljit_src/sljitNativePPC_32.c
index c07f4b4..068ff25 100644
--- a/sljit_src/sljitNativePPC_32.c
+++ b/sljit_src/sljitNativePPC_32.c
@@ -452,12 +452,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fcopy(struct sljit_compiler *compi
 	}
 
 	if (op == SLJIT_COPY_TO_F64) {
-		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
-
 		if (reg2 != 0)
 			FAIL_IF(push_inst(compiler, STW | S(reg2) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
 		else
-			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET_LO));
+			FAIL_IF(push_inst(compiler, STFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+
+		FAIL_IF(push_inst(compiler, STW | S(reg) | A(SLJIT_SP) | TMP_MEM_OFFSET_HI));
 
 		return push_inst(compiler, LFD | FS(freg) | A(SLJIT_SP) | TMP_MEM_OFFSET);
 	}
-- 
2.43.0


From 11f68ebb8e7c5e3920a3aea03f714a3de19eb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 29/93] fix: LoongArch stale cached address after an indexed
 operand and in copysign

---
 sljit_src/sljitNativeLOONGARCH_64.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 555dc66..77075eb 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1258,8 +1258,11 @@ static sljit_s32 getput_arg(struct sljit_compiler *compiler, sljit_s32 flags, sl
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
 		argw &= 0x3;
 
-		if (SLJIT_UNLIKELY(argw))
+		if (SLJIT_UNLIKELY(argw)) {
+			/* The cached value is overwritten. */
+			compiler->cache_arg = 0;
 			FAIL_IF(push_inst(compiler, SLLI_D | RD(TMP_REG3) | RJ(OFFS_REG(arg)) | IMM_I12(argw)));
+		}
 		return push_mem_inst(compiler, flags, reg, SLJIT_MEM2(base, TMP_REG3), 0);
 	}
 
@@ -2622,6 +2625,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 	ADJUST_LOCAL_OFFSET(src1, src1w);
 	ADJUST_LOCAL_OFFSET(src2, src2w);
 
+	compiler->cache_arg = 0;
+	compiler->cache_argw = 0;
+
 	if (src2 & SLJIT_MEM) {
 		FAIL_IF(emit_op_mem2(compiler, FLOAT_DATA(op) | LOAD_DATA, TMP_FREG1, src2, src2w, 0, 0));
 		src2 = TMP_FREG1;
-- 
2.43.0


From 6a3e836476ba42beaf0481d3500eda7e3afce4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 30/93] fix: PPC-64 conversion of large integers to single
 precision must round once

---
 sljit_src/sljitNativePPC_64.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativePPC_64.c b/sljit_src/sljitNativePPC_64.c
index 98b48c0..81d621b 100644
--- a/sljit_src/sljitNativePPC_64.c
+++ b/sljit_src/sljitNativePPC_64.c
@@ -569,6 +569,22 @@ static SLJIT_INLINE sljit_s32 emit_const(struct sljit_compiler *compiler, sljit_
 	return push_inst(compiler, ORI | S(reg) | A(reg) | IMM(init_value));
 }
 
+/* Stores an integer for FCFID whose result is rounded to single precision later.
+   The low bits of values not representable as a double precision number are merged
+   into higher bits to avoid incorrect results caused by rounding twice. */
+static sljit_s32 emit_store_conv_f32_from_sw(struct sljit_compiler *compiler, sljit_s32 src)
+{
+	FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+	FAIL_IF(push_inst(compiler, SRADI | S(src) | A(TMP_REG2) | RLDI_SH(53)));
+	FAIL_IF(push_inst(compiler, ADDI | D(TMP_REG2) | A(TMP_REG2) | 1));
+	FAIL_IF(push_inst(compiler, CMPLI | CRD(0 | 1) | A(TMP_REG2) | 1));
+	FAIL_IF(push_inst(compiler, BCx | (4 << 21) | (1 << 16) | 20));
+	FAIL_IF(push_inst(compiler, RLWINM | S(src) | A(TMP_REG2) | RLWI_SH(11) | RLWI_MBE(10, 20)));
+	FAIL_IF(push_inst(compiler, RLDICR | S(src) | A(TMP_REG1) | RLDI_SH(0) | RLDI_ME(52)));
+	FAIL_IF(push_inst(compiler, OR | S(TMP_REG1) | A(TMP_REG1) | B(TMP_REG2)));
+	return push_inst(compiler, STD | S(TMP_REG1) | A(SLJIT_SP) | TMP_MEM_OFFSET);
+}
+
 static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_compiler *compiler, sljit_s32 op,
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 src, sljit_sw srcw)
@@ -587,10 +603,17 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_sw(struct sljit_comp
 		else
 			FAIL_IF(emit_op_mem(compiler, INT_DATA | SIGNED_DATA | LOAD_DATA, TMP_REG1, src, srcw, TMP_REG1));
 		src = TMP_REG1;
+	} else if ((op & SLJIT_32) && (src & SLJIT_MEM)) {
+		FAIL_IF(emit_op_mem(compiler, WORD_DATA | LOAD_DATA, TMP_REG1, src, srcw, TMP_REG1));
+		src = TMP_REG1;
 	}
 
 	if (FAST_IS_REG(src)) {
-		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+		if ((op & SLJIT_32) && GET_OPCODE(op) == SLJIT_CONV_F64_FROM_SW)
+			FAIL_IF(emit_store_conv_f32_from_sw(compiler, src));
+		else
+			FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 	} else
 		FAIL_IF(emit_op_mem(compiler, DOUBLE_DATA | LOAD_DATA, TMP_FREG1, src, srcw, TMP_REG1));
@@ -636,8 +659,13 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_f64_from_uw(struct sljit_comp
 		}
 
 		FAIL_IF(push_inst(compiler, CMPI | CRD(0 | 1) | A(src) | 0));
-		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | 20));
-		FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+		FAIL_IF(push_inst(compiler, BCx | (12 << 21) | (0 << 16) | ((op & SLJIT_32) ? 52 : 20)));
+
+		if (op & SLJIT_32)
+			FAIL_IF(emit_store_conv_f32_from_sw(compiler, src));
+		else
+			FAIL_IF(push_inst(compiler, STD | S(src) | A(SLJIT_SP) | TMP_MEM_OFFSET));
+
 		FAIL_IF(push_inst(compiler, LFD | FS(TMP_FREG1) | A(SLJIT_SP) | TMP_MEM_OFFSET));
 		FAIL_IF(push_inst(compiler, FCFID | FD(dst_r) | FB(TMP_FREG1)));
 		FAIL_IF(push_inst(compiler, Bx | ((op & SLJIT_32) ? 36 : 32)));
-- 
2.43.0


From 6377bedc0f7372cf87d5be7a2ff4d5bc08ae618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 31/93] fix: x86 binary operations whose destination register
 addresses the second operand

---
 sljit_src/sljitNativeX86_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index e6e5625..13f1bac 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 596177d7f81a39b7abf76f628f05b80a38bc2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 32/93] fix: x86 shift_into whose shift amount is addressed by
 an overwritten register

---
 sljit_src/sljitNativeX86_common.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 13f1bac..255003f 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2897,7 +2897,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 			src1_reg = TMP_REG1;
 			src1w = 0;
 		} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-			restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+			restore_sp4 = SLJIT_R0;
+			if (src3 == SLJIT_R0 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R0))
+				restore_sp4 = ADDRESSING_DEPENDS_ON(src3, SLJIT_R1) ? SLJIT_S0 : SLJIT_R1;
 			EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 			EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 			src1_reg = restore_sp4;
@@ -2926,7 +2928,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2940,7 +2942,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				src1_reg = TMP_REG1;
 				src1w = 0;
 			} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-				restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+				restore_sp4 = SLJIT_R0;
+				if (src3 == SLJIT_R0 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R0))
+					restore_sp4 = ADDRESSING_DEPENDS_ON(src3, SLJIT_R1) ? SLJIT_S0 : SLJIT_R1;
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 				EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 				src1_reg = restore_sp4;
@@ -2950,7 +2954,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2976,7 +2980,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				}
 #endif /* SLJIT_CONFIG_X86_64 */
 			}
-			if (move_src1 && src1_reg == SLJIT_PREF_SHIFT_REG) {
+			if (move_src1 && src1_reg == SLJIT_PREF_SHIFT_REG && dst_reg == src3) {
 				/* Both dst_reg and src3 are the same register. */
 				inst = emit_x86_instruction(compiler, 1, dst_reg, 0, SLJIT_PREF_SHIFT_REG, 0);
 				FAIL_IF(!inst);
@@ -2984,6 +2988,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				src1_reg = dst_reg;
 				move_src1 = 0;
 			} else {
+				if (src1_reg == SLJIT_PREF_SHIFT_REG) {
+					/* The value is overwritten, but it has been saved before. */
+					src1_reg = TMP_REG1;
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+					if (restore_ecx == 2) {
+						src1_reg = SLJIT_MEM1(SLJIT_SP);
+						src1w = 0;
+					}
+#endif /* SLJIT_CONFIG_X86_32 */
+				}
 				EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src3, src3w);
 			}
 		}
-- 
2.43.0


From 27f226a0968d22005a35637cb77f9456ea3a366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 33/93] fix: select with a memory source addressed by the
 destination register

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativePPC_common.c   | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 77075eb..3427072 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1311,7 +1311,7 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && base != reg)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 50d0724..c354d5e 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2954,7 +2954,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	compiler->size++;
 
 	if (src1 & SLJIT_MEM) {
-		FAIL_IF(emit_op_mem(compiler, inp_flags, dst_reg, src1, src1w, TMP_REG1));
+		FAIL_IF(emit_op_mem(compiler, inp_flags, dst_reg, src1, src1w, (src1 & REG_MASK) == TMP_REG1 ? dst_reg : TMP_REG1));
 	} else if (src1 == SLJIT_IMM) {
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 		if (type & SLJIT_32)
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index c77ebc9..9842a47 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1689,7 +1689,7 @@ static sljit_s32 emit_op_mem(struct sljit_compiler *compiler, sljit_s32 flags, s
 	if (getput_arg_fast(compiler, flags, reg, arg, argw))
 		return compiler->error;
 
-	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA))
+	if ((flags & MEM_MASK) <= GPR_REG && (flags & LOAD_DATA) && base != reg)
 		tmp_r = reg;
 
 	if (SLJIT_UNLIKELY(arg & OFFS_REG_MASK)) {
-- 
2.43.0


From 7467ff4271226402052c3a1febaf7883a1952bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 34/93] fix: local base stored to memory uses the address
 register on ARM-64

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 4bce074..07f8019 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -3571,7 +3571,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_get_local_base(struct sljit_compiler *c
 	}
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
-		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG1);
+		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG2);
 	return SLJIT_SUCCESS;
 }
 
-- 
2.43.0


From 6b358436cd400a83d3562e6c06a906352df6fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 35/93] fix: third single argument of calls on Thumb-2

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index c603ec9..ff6581c 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2990,7 +2990,7 @@ static sljit_s32 hardfloat_call_with_args(struct sljit_compiler *compiler, sljit
 				f32_offset = 0;
 			} else {
 				if (offset != new_offset)
-					FAIL_IF(push_inst32(compiler, VMOV_F32 | 0x400000 | VD4(new_offset) | VM4(offset)));
+					FAIL_IF(push_inst32(compiler, VMOV_F32 | VD4(new_offset) | VM4(offset)));
 				f32_offset = new_offset;
 				new_offset++;
 			}
-- 
2.43.0


From d87ea2774104a3bcded5b07076398c192144c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 36/93] fix: number of preserved float registers on LoongArch

---
 sljit_src/sljitConfigInternal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitConfigInternal.h b/sljit_src/sljitConfigInternal.h
index e5438e2..711524a 100644
--- a/sljit_src/sljitConfigInternal.h
+++ b/sljit_src/sljitConfigInternal.h
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_sw sljit_exec_offset(void *code);
 #define SLJIT_NUMBER_OF_SAVED_REGISTERS 10
 #define SLJIT_NUMBER_OF_TEMPORARY_REGISTERS 5
 #define SLJIT_NUMBER_OF_FLOAT_REGISTERS 30
-#define SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS 12
+#define SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS 8
 #define SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS 2
 #define SLJIT_TMP_DEST_REG SLJIT_TMP_R1
 #define SLJIT_TMP_MEM_REG SLJIT_TMP_R1
-- 
2.43.0


From 9f5de1f982d565000be86e3df172442adf305a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 37/93] fix: stack frame release with kept and float registers
 on 32 bit ARM

---
 sljit_src/sljitNativeARM_32.c    | 2 +-
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index af3531c..df00159 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1523,7 +1523,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst(compiler, VPOP | VD(SLJIT_FS0) | ((sljit_ins)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index ff6581c..c9d0b62 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -1714,7 +1714,7 @@ static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit
 				FAIL_IF(push_inst32(compiler, VPOP | VD4(SLJIT_FS0) | ((sljit_uw)fsaveds << 1)));
 		}
 
-		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds, 1) & 0x7;
+		local_size = GET_SAVED_REGISTERS_SIZE(compiler->scratches, compiler->saveds - SLJIT_KEPT_SAVEDS_COUNT(compiler->options), 1) & 0x7;
 	}
 
 	if (frame_size < 0) {
-- 
2.43.0


From 173e889408938617f6a04afa0dc17fbaf37822d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 38/93] fix: register argument tail calls with float arguments
 on 32 bit ARM

---
 sljit_src/sljitNativeARM_32.c    | 20 ++++++++++----------
 sljit_src/sljitNativeARM_T2_32.c | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index df00159..accad66 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3498,16 +3498,16 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3604,16 +3604,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
-	if (type & SLJIT_CALL_RETURN) {
-		FAIL_IF(emit_stack_frame_release(compiler, -1));
-		type = SLJIT_JUMP;
-	}
-
 #ifndef __SOFTFP__
 	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
 		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
 #endif /* !__SOFTFP__ */
 
+	if (type & SLJIT_CALL_RETURN) {
+		FAIL_IF(emit_stack_frame_release(compiler, -1));
+		type = SLJIT_JUMP;
+	}
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index c9d0b62..3051803 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3047,17 +3047,17 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		PTR_FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		PTR_FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_jump(compiler, type);
 }
@@ -3143,17 +3143,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 	}
 #endif /* __SOFTFP__ */
 
+#ifndef __SOFTFP__
+	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
+		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
+#endif /* !__SOFTFP__ */
+
 	if (type & SLJIT_CALL_RETURN) {
 		/* ldmia sp!, {..., lr} */
 		FAIL_IF(emit_stack_frame_release(compiler, -1));
 		type = SLJIT_JUMP;
 	}
 
-#ifndef __SOFTFP__
-	if ((type & 0xff) != SLJIT_CALL_REG_ARG)
-		FAIL_IF(hardfloat_call_with_args(compiler, arg_types));
-#endif /* !__SOFTFP__ */
-
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 2fb0a3a787f7f0a696063a124521697cb2348482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 39/93] fix: tail calls and return_to with a large local area
 on ARM

---
 sljit_src/sljitNativeARM_32.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index accad66..0ebb54b 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -1491,10 +1491,19 @@ static sljit_s32 emit_add_sp(struct sljit_compiler *compiler, sljit_uw imm)
 {
 	sljit_uw imm2 = get_imm(imm);
 
-	if (imm2 == 0)
-		return emit_op(compiler, SLJIT_ADD, ALLOW_IMM | ALLOW_DOUBLE_IMM, SLJIT_SP, 0, SLJIT_SP, 0, SLJIT_IMM, (sljit_sw)imm);
+	/* The TMP_REG1 register must keep its value. */
+	if (imm2 != 0)
+		return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | imm2);
 
-	return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | imm2);
+	SLJIT_ASSERT((imm & 0x3) == 0);
+
+	if (imm <= 0x3ffff) {
+		FAIL_IF(push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | get_imm(imm & 0x3fc)));
+		return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | get_imm(imm & 0x3fc00));
+	}
+
+	FAIL_IF(load_immediate(compiler, TMP_REG2, imm));
+	return push_inst(compiler, ADD | RD(SLJIT_SP) | RN(SLJIT_SP) | RM(TMP_REG2));
 }
 
 static sljit_s32 emit_stack_frame_release(struct sljit_compiler *compiler, sljit_s32 frame_size)
-- 
2.43.0


From d8762885eed06619566327ec5330cee3caeaef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 40/93] fix: place of preserved float registers when the local
 area is not 8 byte aligned on MIPS32 and RISCV32

---
 sljit_src/sljitNativeMIPS_common.c  | 4 ++--
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 154b8bb..a7318fa 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -979,7 +979,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1);
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-		if ((local_size & SSIZE_OF(sw)) != 0)
+		if ((GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1) & SSIZE_OF(sw)) != 0)
 			local_size += SSIZE_OF(sw);
 		local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	}
@@ -1190,7 +1190,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1);
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-		if ((local_size & SSIZE_OF(sw)) != 0)
+		if ((GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1) & SSIZE_OF(sw)) != 0)
 			local_size += SSIZE_OF(sw);
 		local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	}
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 9842a47..29426f9 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1172,7 +1172,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_enter(struct sljit_compiler *compi
 	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1);
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-		if ((local_size & SSIZE_OF(sw)) != 0)
+		if ((GET_SAVED_REGISTERS_SIZE(scratches, saveds - saved_arg_count, 1) & SSIZE_OF(sw)) != 0)
 			local_size += SSIZE_OF(sw);
 		local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	}
@@ -1294,7 +1294,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_set_context(struct sljit_compiler *comp
 	local_size += GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1);
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	if (fsaveds > 0 || fscratches >= SLJIT_FIRST_SAVED_FLOAT_REG) {
-		if ((local_size & SSIZE_OF(sw)) != 0)
+		if ((GET_SAVED_REGISTERS_SIZE(scratches, saveds - SLJIT_KEPT_SAVEDS_COUNT(options), 1) & SSIZE_OF(sw)) != 0)
 			local_size += SSIZE_OF(sw);
 		local_size += GET_SAVED_FLOAT_REGISTERS_SIZE(fscratches, fsaveds, f64);
 	}
-- 
2.43.0


From 9ff5ab57af8308de27e4c994a141434dbccce966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 41/93] fix: instructions using the return address moved into
 the delay slot of calls on MIPS

---
 sljit_src/sljitNativeMIPS_common.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index a7318fa..3cf07c7 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -499,6 +499,14 @@ static SLJIT_INLINE sljit_ins invert_branch(sljit_uw flags)
 	return (1 << 16);
 }
 
+static SLJIT_INLINE sljit_s32 may_use_return_addr(sljit_ins ins)
+{
+	/* Checks the rs, rt, and rd fields regardless of the instruction type. */
+	return ((ins >> 21) & 0x1f) == RETURN_ADDR_REG
+		|| ((ins >> 16) & 0x1f) == RETURN_ADDR_REG
+		|| ((ins >> 11) & 0x1f) == RETURN_ADDR_REG;
+}
+
 static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_ins *code, sljit_sw executable_offset)
 {
 	sljit_sw diff;
@@ -531,6 +539,11 @@ static SLJIT_INLINE sljit_ins* detect_jump_type(struct sljit_jump *jump, sljit_i
 		goto preserve_addr;
 #endif
 
+	/* The return address register is already updated when the
+	   instruction in the delay slot is executed. */
+	if ((jump->flags & (IS_JAL | IS_MOVABLE)) == (IS_JAL | IS_MOVABLE) && may_use_return_addr(inst[-1]))
+		jump->flags &= ~(sljit_uw)IS_MOVABLE;
+
 	/* B instructions. */
 	if (jump->flags & IS_MOVABLE) {
 		diff = ((sljit_sw)target_addr - (sljit_sw)inst - executable_offset) >> 2;
-- 
2.43.0


From 5c1ffe0ae8084056378cefa91cba39eb512d9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 42/93] fix: indirect register argument tail calls on MIPS

---
 sljit_src/sljitNativeMIPS_32.c | 1 +
 sljit_src/sljitNativeMIPS_64.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_32.c b/sljit_src/sljitNativeMIPS_32.c
index 8397961..693b341 100644
--- a/sljit_src/sljitNativeMIPS_32.c
+++ b/sljit_src/sljitNativeMIPS_32.c
@@ -430,6 +430,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
diff --git a/sljit_src/sljitNativeMIPS_64.c b/sljit_src/sljitNativeMIPS_64.c
index 965931b..b39b14f 100644
--- a/sljit_src/sljitNativeMIPS_64.c
+++ b/sljit_src/sljitNativeMIPS_64.c
@@ -355,6 +355,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 
 			if (ins != NOP)
 				FAIL_IF(push_inst(compiler, ins, MOVABLE_INS));
+			type = SLJIT_JUMP;
 		}
 
 		SLJIT_SKIP_CHECKS(compiler);
-- 
2.43.0


From 1318d367cac8c232a096fac383771de21d597394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 43/93] fix: reserved size of calls to labels and of
 conditional jumps to absolute addresses on PowerPC

---
 sljit_src/sljitNativePPC_common.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index c354d5e..5cbf63d 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -552,9 +552,22 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (!(jump->flags & JUMP_MOV_ADDR)) {
 			total_size = JUMP_MAX_SIZE - 1;
 
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+			/* The target address of these calls is always loaded into TMP_CALL_REG. */
+			if ((jump->flags & (SLJIT_REWRITABLE_JUMP | IS_CALL)) == IS_CALL) {
+#if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
+				if (jump->flags & JUMP_ADDR) {
+					if (jump->u.target < 0x80000000l)
+						total_size = 4 - 1;
+					else if (jump->u.target < 0x800000000000l)
+						total_size = 6 - 1;
+				}
+#endif /* SLJIT_CONFIG_PPC_64 */
+			} else
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
 				if (jump->flags & JUMP_ADDR) {
-					if (jump->u.target <= 0x01ffffff)
+					if (jump->u.target <= ((jump->flags & IS_COND) ? 0xffff : 0x01ffffff))
 						total_size = 1 - 1;
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 					else if (jump->u.target < 0x80000000l)
-- 
2.43.0


From 43a43b7b25a71de7e21627c90c38afc5c60c9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 44/93] fix: single arguments of tail calls on x86-32

---
 sljit_src/sljitNativeX86_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..2bb5dc2 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -848,7 +848,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				break;
 			case SLJIT_ARG_TYPE_F32:
 				offset -= SSIZE_OF(f32);
-				FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+				FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 				float_arg_count--;
 				break;
 			default:
@@ -957,7 +957,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 			break;
 		case SLJIT_ARG_TYPE_F32:
 			offset -= SSIZE_OF(f32);
-			FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+			FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 			float_arg_count--;
 			break;
 		default:
-- 
2.43.0


From 87e6f8161161ff8847c077502f23c8aff20e2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 45/93] fix: word arguments of tail calls which fit into the
 argument area on x86-32

---
 sljit_src/sljitNativeX86_32.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 2bb5dc2..09a7c16 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -856,8 +856,8 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				case 1:
 					offset -= SSIZE_OF(sw);
 					if (r2_offset != 0) {
-						EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 0);
-						EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
+						EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), 0);
+						EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, TMP_REG1, 0);
 					} else
 						EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R0, 0);
 					break;
@@ -867,11 +867,12 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 					break;
 				case 3:
 					offset -= SSIZE_OF(sw);
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
 					break;
 				case 4:
 					offset -= SSIZE_OF(sw);
-					EMIT_MOV(compiler, SLJIT_R2, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
-					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, SLJIT_R2, 0);
+					EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_MEM1(SLJIT_SP), 2 * SSIZE_OF(sw));
+					EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), offset, TMP_REG1, 0);
 					break;
 				}
 				word_arg_count--;
-- 
2.43.0


From 94ba974a23f915eaea9ea6f0c699977332a61f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 46/93] fix: stack alignment of tail calls with more arguments
 on x86-32

---
 sljit_src/sljitNativeX86_32.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 09a7c16..6d078a3 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -787,7 +787,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 {
 	sljit_sw args_size, saved_regs_size;
 	sljit_sw types, word_arg_count, float_arg_count;
-	sljit_sw stack_size, prev_stack_size, min_size, offset;
+	sljit_sw stack_size, prev_stack_size, min_size, offset, padding;
 	sljit_sw word_arg4_offset;
 	sljit_u8 r2_offset = 0;
 	sljit_s32 kept_saveds_count = SLJIT_KEPT_SAVEDS_COUNT(compiler->options);
@@ -884,7 +884,9 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 		return emit_stack_frame_release(compiler, 0);
 	}
 
-	stack_size = args_size + SSIZE_OF(sw);
+	/* The stack must be aligned to 16 byte at the call instruction. */
+	padding = (3 * SSIZE_OF(sw) - args_size) & 0xf;
+	stack_size = args_size + padding + SSIZE_OF(sw);
 
 	if (word_arg_count >= 1 && src != SLJIT_IMM && src != SLJIT_R0) {
 		r2_offset = SSIZE_OF(sw);
@@ -941,8 +943,8 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 	}
 
 	/* Copy fourth argument and return address. */
-	offset = stack_size - SSIZE_OF(sw);
-	*extra_space = args_size;
+	offset = stack_size - SSIZE_OF(sw) - padding;
+	*extra_space = args_size + padding;
 
 	if (word_arg_count >= 4) {
 		offset -= SSIZE_OF(sw);
-- 
2.43.0


From 1985319d588efc80414818c0bd889aad64b6d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 47/93] fix: indirect register argument tail calls with float
 arguments on 64 bit PowerPC

---
 sljit_src/sljitNativePPC_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 5cbf63d..b236fe0 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2751,7 +2751,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		}
 
 		FAIL_IF(emit_stack_frame_release(compiler, 0));
-		type = SLJIT_JUMP;
 	}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
@@ -2759,6 +2758,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		FAIL_IF(call_with_args(compiler, arg_types, &src));
 #endif
 
+	if (type & SLJIT_CALL_RETURN)
+		type = SLJIT_JUMP;
+
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
 }
-- 
2.43.0


From 2b97ae73e9477ef45bdc2c3563d2003ec4a8b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 48/93] fix: entry address register of tail calls on PowerPC
 with the ELFv2 ABI

---
 sljit_src/sljitNativePPC_common.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index b236fe0..b14580c 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2662,6 +2662,9 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_jump(struct sljit_compile
 SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compiler *compiler, sljit_s32 type,
 	sljit_s32 arg_types)
 {
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+	struct sljit_jump *jump;
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 	SLJIT_UNUSED_ARG(arg_types);
 
 	CHECK_ERROR_PTR();
@@ -2674,6 +2677,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 
 	if (type & SLJIT_CALL_RETURN) {
 		PTR_FAIL_IF(emit_stack_frame_release(compiler, 0));
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+		if ((type & 0xff) == SLJIT_CALL) {
+			SLJIT_SKIP_CHECKS(compiler);
+			jump = sljit_emit_jump(compiler, SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP));
+			PTR_FAIL_IF(!jump);
+			jump->flags |= IS_CALL;
+			return jump;
+		}
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 		type = SLJIT_JUMP | (type & SLJIT_REWRITABLE_JUMP);
 	}
 
@@ -2758,8 +2770,24 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_icall(struct sljit_compiler *compi
 		FAIL_IF(call_with_args(compiler, arg_types, &src));
 #endif
 
-	if (type & SLJIT_CALL_RETURN)
+	if (type & SLJIT_CALL_RETURN) {
+#if (defined SLJIT_PASS_ENTRY_ADDR_TO_CALL && SLJIT_PASS_ENTRY_ADDR_TO_CALL)
+		if ((type & 0xff) == SLJIT_CALL) {
+			if (src == SLJIT_IMM) {
+				SLJIT_SKIP_CHECKS(compiler);
+				FAIL_IF(sljit_emit_ijump(compiler, SLJIT_JUMP, src, srcw));
+				compiler->last_jump->flags |= IS_CALL;
+				return SLJIT_SUCCESS;
+			}
+
+			if (src != TMP_CALL_REG) {
+				FAIL_IF(push_inst(compiler, OR | S(src) | A(TMP_CALL_REG) | B(src)));
+				src = TMP_CALL_REG;
+			}
+		}
+#endif /* SLJIT_PASS_ENTRY_ADDR_TO_CALL */
 		type = SLJIT_JUMP;
+	}
 
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_ijump(compiler, type, src, srcw);
-- 
2.43.0


From 94cf9a2afef3a21e38aa3974941209754d9df80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 49/93] fix: debug assertion of op_addr targets between 2 and 4
 GB on x86-64

---
 sljit_src/sljitNativeX86_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 255003f..9fe1118 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -747,7 +747,8 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			/* The 32 bit value is zero extended. */
+			SLJIT_ASSERT(addr <= 0xffffffff);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From 4a17c9011f53e5fceefaefe563b8ccd6a78b9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 50/93] fix: range check of near jumps to absolute addresses on
 x86-64

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9fe1118..2846d5c 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -692,7 +692,7 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	if ((sljit_sw)(label_addr - (jump_addr + 5)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 6)) < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 2e1e7a78ae73b3d9faae45752ff6251fdf0cf9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 51/93] fix: range check of relative op_addr targets on x86-64

---
 sljit_src/sljitNativeX86_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 8737d68..9c44593 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -408,7 +408,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		/* Relative to the end of the lea instruction. */
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset) + (SSIZE_OF(s32) - 1);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-- 
2.43.0


From 50935ddc5852f5729a7548687572bf44ca3855a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 52/93] fix: size of op_addr with distant backward labels on
 ARM Thumb2

---
 sljit_src/sljitNativeARM_T2_32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 3051803..3088de9 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -592,7 +592,8 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 					diff -= (sljit_sw)size_reduce;
 				}
 
-				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= (-0xfff / SSIZE_OF(u16)))
+				/* Must not be less strict than mov_addr_get_length. */
+				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= ((-0xfff + 2 * SSIZE_OF(u16)) / SSIZE_OF(u16)))
 					total_size = 1;
 			}
 
-- 
2.43.0


From e0047960f42c05211443baa1ab4cc598022efaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 53/93] fix: addresses below the 32 and 52 bit limits of
 load_addr_to_reg on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 29426f9..1fdb5df 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -402,7 +402,7 @@ static const sljit_u8 vreg_map[SLJIT_NUMBER_OF_VECTOR_REGISTERS + 3] = {
 #define S32_MAX		(0x7ffff7ffl)
 #define S32_MIN		(-0x80000000l)
 #define S44_MAX		(0x7fffffff7ffl)
-#define S52_MAX		(0x7ffffffffffffl)
+#define S52_MAX		(0x7fffffffff7ffl)
 #endif /* SLJIT_CONFIG_RISCV_64 */
 
 #define C_ADDI_W(word)	(C_ADDI | (sljit_u16)((word) << 10))
@@ -683,7 +683,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 #else /* !SLJIT_CONFIG_RISCV_32 */
 
 	if (flags & PATCH_ABS32) {
-		SLJIT_ASSERT(addr <= S32_MAX);
+		SLJIT_ASSERT(addr <= S32_MAX + 0x1000);
 		ins = LUI | RD(reg) | (sljit_ins)((sljit_sw)addr & ~0xfff);
 		buf[0] = (sljit_u16)ins;
 		buf[1] = (sljit_u16)(ins >> 16);
@@ -722,7 +722,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 			high = ~high;
 
 		if (flags & PATCH_ABS52) {
-			SLJIT_ASSERT(addr <= S52_MAX);
+			SLJIT_ASSERT(addr <= S52_MAX + 0x1000);
 			ins = LUI | RD(TMP_REG3) | (sljit_ins)(high << 12);
 			buf[0] = (sljit_u16)ins;
 			buf[1] = (sljit_u16)(ins >> 16);
-- 
2.43.0


From cdc13f52786cfa91b006110ba7a46ccdbe468263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 54/93] fix: range check of bl instructions on ARMv6

---
 sljit_src/sljitNativeARM_32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 0ebb54b..c850ed7 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -524,6 +524,12 @@ static SLJIT_INLINE sljit_s32 detect_jump_type(struct sljit_jump *jump, sljit_uw
 
 	diff = (sljit_sw)target_addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(jump_addr + 8, executable_offset);
 
+#if (defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6)
+	/* The bl instruction replaces the load before the blx. */
+	if (jump->flags & IS_BL)
+		diff += SSIZE_OF(ins);
+#endif /* SLJIT_CONFIG_ARM_V6 */
+
 	/* Branch to Thumb code has not been optimized yet. */
 	if (diff & 0x3)
 		return 0;
-- 
2.43.0


From 28b762d58d7d50c4109296f324a82056a22b8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 55/93] fix: target of long relative jumps on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 3427072..f0f4d3b 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -366,7 +366,7 @@ lower parts in the instruction word, denoted by the “L” and “H” suffixes
 #define JIRL_MAX (0x7fff << 2)
 #define JIRL_MIN (-(0x8000 << 2))
 
-#define S32_MAX		(0x7fffffffl)
+#define S32_MAX		(0x7ffff7ffl)
 #define S32_MIN		(-0x80000000l)
 #define S52_MAX		(0x7ffffffffffffl)
 
@@ -547,7 +547,8 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 
 		SLJIT_ASSERT((sljit_sw)addr >= S32_MIN && (sljit_sw)addr <= S32_MAX);
 
-		if ((addr & 0x800) != 0)
+		/* The immediate of addi is signed, the immediate of jirl is always positive. */
+		if ((flags & JUMP_MOV_ADDR) && (addr & 0x800) != 0)
 			addr += 0x1000;
 
 		ins[0] = PCADDU12I | RD(reg) | IMM_I20(addr);
-- 
2.43.0


From 79e3f615fa82498f6d26639672da4fde67c56e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 56/93] fix: flush of patched byte constants on Thumb2

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 3088de9..1f32cf3 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -4539,5 +4539,5 @@ SLJIT_API_FUNC_ATTRIBUTE void sljit_set_const(sljit_uw addr, sljit_s32 op, sljit
 	inst[1] = (sljit_u16)((new_constant & 0xff) | (inst[1] & 0xf00));
 	SLJIT_UPDATE_WX_FLAGS(inst, inst + 2, 1);
 	inst = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(inst, executable_offset);
-	SLJIT_CACHE_FLUSH(inst + 1, inst + 2);
+	SLJIT_CACHE_FLUSH(inst, inst + 2);
 }
-- 
2.43.0


From 4bce71f33de7bb170dd122515c57b6b142fc3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 57/93] fix: the number of vector and float registers is kept
 by serialization

---
 sljit_src/sljitSerialize.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..c0e8589 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -65,6 +65,10 @@ struct sljit_serialized_compiler {
 	sljit_s32 saveds;
 	sljit_s32 fscratches;
 	sljit_s32 fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	sljit_s32 local_size;
 	sljit_uw size;
 
@@ -97,6 +101,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -212,6 +222,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->saveds = compiler->saveds;
 	serialized_compiler->fscratches = compiler->fscratches;
 	serialized_compiler->fsaveds = compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
@@ -309,6 +323,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -366,6 +386,10 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->saveds = serialized_compiler->saveds;
 	compiler->fscratches = serialized_compiler->fscratches;
 	compiler->fsaveds = serialized_compiler->fsaveds;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
@@ -573,6 +597,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From dc11fa9de4a9b28bd8242758746cfbf7a064eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 58/93] fix: constant pool is restored from its place by
 deserialization on ARMv6

---
 sljit_src/sljitSerialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index c0e8589..029db0b 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -380,6 +380,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler = sljit_create_compiler(allocator_data);
 	PTR_FAIL_IF(compiler == NULL);
 
+	ptr += sizeof(struct sljit_serialized_compiler);
+
 	compiler->label_count = serialized_compiler->label_count;
 	compiler->options = serialized_compiler->options;
 	compiler->scratches = serialized_compiler->scratches;
@@ -428,7 +430,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From 4f02c3b9c12c2cbf2d286a5cb52541ca9b8f6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 59/93] fix: size of the generated code on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 1fdb5df..6d3baa7 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1039,7 +1039,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 	compiler->error = SLJIT_ERR_COMPILED;
 	compiler->executable_offset = executable_offset;
-	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_ins);
+	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_u16);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
-- 
2.43.0


From a17310652c3e26b41508f7be4d49675b86bb5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 60/93] fix: alignment of memory accesses is printed to the
 diagnostics stream

---
 sljit_src/sljitLir.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index f2c8716..5d37342 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2839,11 +2839,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 				!(type & SLJIT_32) ? "" : "32", op1_types[(type & 0xff) - SLJIT_OP1_BASE]);
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		if (reg & REG_PAIR_MASK) {
 			fprintf(compiler->verbose, " {");
@@ -2936,11 +2936,11 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem(struct sljit_compile
 			!(type & SLJIT_32) ? "f64" : "f32");
 
 		if (type & SLJIT_MEM_UNALIGNED)
-			printf(".unal");
+			fprintf(compiler->verbose, ".unal");
 		else if (type & SLJIT_MEM_ALIGNED_16)
-			printf(".al16");
+			fprintf(compiler->verbose, ".al16");
 		else if (type & SLJIT_MEM_ALIGNED_32)
-			printf(".al32");
+			fprintf(compiler->verbose, ".al32");
 
 		fprintf(compiler->verbose, " ");
 		sljit_verbose_freg(compiler, freg);
-- 
2.43.0


From f2e812e55c70e0ae57df36bdfe8defa2c3cd722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 61/93] fix: simd sign test emits no code on RISC-V

---
 sljit_src/sljitNativeRISCV_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 6d3baa7..6c593d0 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -4413,6 +4413,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	if (((type & SLJIT_SIMD_FLOAT) && elem_size < 2) || elem_size > 3)
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_TEST)
+		return SLJIT_SUCCESS;
+
 	FAIL_IF(sljit_emit_vsetivli(compiler, type, 0));
 	FAIL_IF(push_inst(compiler, VMV_VI | VRD(TMP_VREG1) | (0x0 << 15)));
 	FAIL_IF(push_inst(compiler, VMSLE_VI | VRD(TMP_VREG1) | (0x1f << 15) | VRS2(vreg)));
-- 
2.43.0


From d2716a9b5ef06a72d7db05861128669785cca817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 62/93] fix: failed executable allocation has no executable
 offset

---
 sljit_src/sljitLir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 5d37342..fa54935 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -752,7 +752,8 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
-		*executable_offset = SLJIT_EXEC_OFFSET(code);
+		if (SLJIT_LIKELY(code != NULL))
+			*executable_offset = SLJIT_EXEC_OFFSET(code);
 		return code;
 	}
 
-- 
2.43.0


From 90a73d1481fb61561e68921b4f7cff462ce38a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 63/93] fix: reset the end state of a regex match

---
 regex_src/regexJIT.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f95469..60223ff 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2406,10 +2406,13 @@ void regex_reset_match(struct regex_match *match)
 	match->fast_quit = 0;
 	match->fast_forward = 0;
 
+	/* The end state is never part of the list. */
+	current_ptr = match->current;
+	current_ptr[1] = -1;
+
 	if (match->head != 0) {
 		/* Clear the current state. */
 		current = match->head;
-		current_ptr = match->current;
 		do {
 			ind = (current / (sljit_sw)sizeof(sljit_sw)) + 1;
 			current = current_ptr[ind];
-- 
2.43.0


From a38d3039dac9eb170080fe5f991bb73fc997036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 64/93] fix: no fast forward when an empty regex match can end
 at a newline

---
 regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 60223ff..439f0a3 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -1947,6 +1947,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* An empty match is possible at the end of the string, and its start must be up to date. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From 36ebe0ebec844f7d9545d7892cfaecd4cc949386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 65/93] fix: non-greedy empty regex match with an end anchor

---
 regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 439f0a3..93f6915 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2254,7 +2254,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From bc32998ec3185390c00eb3c693d5e694948b072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 66/93] fix: regex match with both anchors must reject longer
 strings

---
 regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 93f6915..6db100b 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2172,6 +2172,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The current match is lost if more characters follow. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From dbeaa927466458222bf2d24a0e1bd76aa9268f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 67/93] fix: newline anchors of a regex belong to every
 alternative

---
 regex_src/regexJIT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 6db100b..9cf03a3 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -794,6 +794,10 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches belong to the whole pattern, not only to its first or last alternative. */
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_open_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -914,6 +918,9 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_close_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From d3921491039bcd5a200eeabae3524daa441698ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 68/93] fix: prefer the better regex match at the end of the
 string

---
 regex_src/regexJIT.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 9cf03a3..1484fee 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2459,12 +2459,16 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The match which ends here may be better than the one which ended before a newline. */
+		if (match->best_begin != -1 && (match->best_begin < match->current[no_states + 2]
+				|| ((flags & REGEX_MATCH_NON_GREEDY) && match->best_begin == match->current[no_states + 2])))
+			return (int)match->best_begin;
+
+		*id = 0;
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From 05b25ac42f8c7f6a5d4826c5a4749b5d15a9f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 69/93] fix: a literal left brace of a regex can be repeated

---
 regex_src/regexJIT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 1484fee..3f20eda 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -881,6 +881,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				SLJIT_ASSERT(tmp == -2);
 				if (stack_push(stack, type_char, '{'))
 					return REGEX_MEMORY_ERROR;
+				begin = 0;
 				compiler_common->dfa_size++;
 			}
 			break;
-- 
2.43.0


From a6ebaa4e8e9fd9368659bde0b574130bbfb4e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 70/93] fix: regex characters above 127 where char is signed

---
 regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f20eda..1b73f6c 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -373,6 +373,13 @@ enum {
 	type_qestion_mark
 };
 
+/* The generated code loads characters as unsigned values. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(c) ((int)(unsigned char)(c))
+#else
+#define CHAR_VALUE(c) ((int)(c))
+#endif
+
 struct compiler_common {
 	/* Temporary stacks. */
 	struct stack stack;
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -805,7 +812,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -906,7 +913,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From d8c0ebce3d7e573d0eecfe2ad0fabe27a7f1e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 71/93] fix: out of memory in a regex iteration is not a length

---
 regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 1b73f6c..f783017 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 69606edcdb9f6c50fa713ba490767ee34141f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 72/93] fix: executable allocations near the end of the address
 space overflow

---
 sljit_src/allocator_src/sljitExecAllocatorCore.c    | 5 +++++
 sljit_src/allocator_src/sljitWXExecAllocatorPosix.c | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/sljit_src/allocator_src/sljitExecAllocatorCore.c b/sljit_src/allocator_src/sljitExecAllocatorCore.c
index 314483c..008c034 100644
--- a/sljit_src/allocator_src/sljitExecAllocatorCore.c
+++ b/sljit_src/allocator_src/sljitExecAllocatorCore.c
@@ -163,6 +163,11 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 
 	if (size < (64 - sizeof(struct block_header)))
 		size = (64 - sizeof(struct block_header));
+
+	/* The computed sizes must not overflow. */
+	if (size > (sljit_uw)-1 - (2 * CHUNK_SIZE))
+		return NULL;
+
 	size = ALIGN_SIZE(size);
 
 	SLJIT_ALLOCATOR_LOCK();
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
index 36d3014..c54e7fc 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
@@ -87,6 +87,10 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	if (SLJIT_UNLIKELY(wx_block > 0))
 		return NULL;
 
+	/* The computed size must not overflow. */
+	if (size > (sljit_uw)-1 - sizeof(sljit_uw))
+		return NULL;
+
 #ifdef PROT_MAX
 	prot |= PROT_MAX(PROT_READ | PROT_WRITE | PROT_EXEC);
 #endif
-- 
2.43.0


From 91cad772ab68381d550134a850ae3b19cdd3c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 73/93] fix: atomic store with R0 address and R1 temporary on
 x86-32

---
 sljit_src/sljitNativeX86_common.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 2846d5c..1c15f57 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5057,12 +5057,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 
 		if (src_reg == TMP_REG1) {
 			if (mem_reg == SLJIT_R0) {
-				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R1, 0);
-				EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
+				saved_reg = (temp_reg != SLJIT_R1) ? SLJIT_R1 : SLJIT_R2;
+
+				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, saved_reg, 0);
+				EMIT_MOV(compiler, saved_reg, 0, SLJIT_R0, 0);
 				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
 
-				mem_reg = SLJIT_R1;
-				saved_reg = SLJIT_R1;
+				mem_reg = saved_reg;
 			} else {
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R0, 0);
 				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
@@ -5114,8 +5115,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 		return emit_mov(compiler, SLJIT_R0, 0, TMP_REG2, 0);
 #else /* !SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, SLJIT_R0, 0, (saved_reg == SLJIT_R0) ? SLJIT_MEM1(SLJIT_SP) : saved_reg, 0);
-		if (saved_reg == SLJIT_R1)
-			return emit_mov(compiler, SLJIT_R1, 0, SLJIT_MEM1(SLJIT_SP), 0);
+		if (saved_reg == SLJIT_R1 || saved_reg == SLJIT_R2)
+			return emit_mov(compiler, saved_reg, 0, SLJIT_MEM1(SLJIT_SP), 0);
 #endif /* SLJIT_CONFIG_X86_64 */
 	}
 	return SLJIT_SUCCESS;
-- 
2.43.0


From 03c4512799b062eb335329626aa19ebd3583e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 74/93] fix: 64 bit immediates of SIMD lane loads on x86-64

---
 sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 1c15f57..457fafb 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4336,6 +4336,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From 88dd572eea9d4fb78c99403d271f03deab005e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 75/93] fix: 256 bit SIMD operations with unaligned memory on
 x86

---
 sljit_src/sljitNativeX86_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 457fafb..eaca10f 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4933,7 +4933,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			FAIL_IF(emit_vex_instruction(compiler, mov_op | VEX_256, TMP_FREG, 0, src2, src2w));
+		else if (use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From 51bc259854711261a54275f868d7369c699c7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 76/93] fix: SIMD sign extraction of 16 bit elements changes
 the flags on x86

---
 sljit_src/sljitNativeX86_common.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index eaca10f..fea90a8 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4769,10 +4769,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
 	sljit_uw op;
-	sljit_u8 *inst;
+#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
+	sljit_s32 opcode3 = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_32 */
+	sljit_s32 opcode3 = SLJIT_S0;
+#endif /* SLJIT_CONFIG_X86_32 */
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
+	SLJIT_ASSERT(reg_map[opcode3] == 3);
 
 	ADJUST_LOCAL_OFFSET(dst, dstw);
 
@@ -4797,6 +4802,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 			else
 				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
 			vreg = TMP_FREG;
+			/* The status flags must be preserved. */
+			if (use_vex)
+				FAIL_IF(emit_vex_instruction(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2 | VEX_SSE2_OPV, opcode3, TMP_FREG, TMP_FREG, 0));
+			else
+				FAIL_IF(emit_groupf(compiler, PSRLDQ_x | EX86_PREF_66 | EX86_SSE2_OP2, opcode3, TMP_FREG, 0));
+			FAIL_IF(emit_byte(compiler, 8));
 			break;
 		case 2:
 			op = EX86_SSE2_OP2;
@@ -4815,12 +4826,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From 775ee7ced6ae08cec7c1244c19ebd44f7d068481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 77/93] fix: test requests of unsupported SIMD extend forms on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f0f4d3b..d81752e 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3596,6 +3596,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (type & SLJIT_SIMD_FLOAT) {
+		if (elem_size != 2 || elem2_size != 3)
+			return SLJIT_ERR_UNSUPPORTED;
+	} else if (elem2_size > 3)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3615,9 +3621,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	}
 
 	if (type & SLJIT_SIMD_FLOAT) {
-		if (elem_size != 2 || elem2_size != 3)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-- 
2.43.0


From 14fbf9acb90f61de0fb1497417621548cab99863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 78/93] fix: 256 bit SIMD extend overwrites its source on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index d81752e..aa487bb 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3624,7 +3624,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins = 0;
 		if (reg_size == 5) {
 			ins = (sljit_ins)1 << 26;
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(TMP_FREG1) | FRJ(src) | IMM_I8(16)));
+			src = TMP_FREG1;
 		}
 
 		return push_inst(compiler, VFCVTL_D_S | ins | FRD(vreg) | FRJ(src));
@@ -3636,8 +3637,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		ins |= (sljit_ins)1 << 26;
 
 	do {
-		if (reg_size == 5)
-			FAIL_IF(push_inst(compiler, XVPERMI | FRD(src) | FRJ(src) | IMM_I8(16)));
+		if (reg_size == 5) {
+			FAIL_IF(push_inst(compiler, XVPERMI | FRD(TMP_FREG1) | FRJ(src) | IMM_I8(16)));
+			src = TMP_FREG1;
+		}
 
 		FAIL_IF(push_inst(compiler, ins | ((sljit_ins)1 << (13 + elem_size)) | FRD(vreg) | FRJ(src)));
 		src = vreg;
-- 
2.43.0


From a49a87881c0aa9a7473f913c431e1b95c091f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 79/93] fix: SIMD extend reads past its memory operand on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index aa487bb..c464a2c 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3583,7 +3583,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 	sljit_s32 reg_size = SLJIT_SIMD_GET_REG_SIZE(type);
 	sljit_s32 elem_size = SLJIT_SIMD_GET_ELEM_SIZE(type);
 	sljit_s32 elem2_size = SLJIT_SIMD_GET_ELEM2_SIZE(type);
-	sljit_ins ins = 0;
+	sljit_s32 src_size;
+	sljit_ins ins;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_extend(compiler, type, vreg, src, srcw));
@@ -3606,17 +3607,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_extend(struct sljit_compiler
 		return SLJIT_SUCCESS;
 
 	if (src & SLJIT_MEM) {
-		ins = (type & SLJIT_SIMD_STORE) ? VST : VLD;
+		FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src, srcw));
 
-		if (reg_size == 5)
-			ins = (type & SLJIT_SIMD_STORE) ? XVST : XVLD;
+		/* Only the converted elements are present in the memory. */
+		src_size = reg_size - (elem2_size - elem_size);
 
-		if (FAST_IS_REG(src) && src >= 0 && (srcw >= I12_MIN && srcw <= I12_MAX))
-			FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src) | IMM_I12(srcw)));
-		else {
-			FAIL_IF(sljit_emit_simd_mem_offset(compiler, &src, srcw));
-			FAIL_IF(push_inst(compiler, ins | FRD(vreg) | RJ(src) | IMM_I12(0)));
-		}
+		if (src_size == 4)
+			FAIL_IF(push_inst(compiler, VLD | FRD(vreg) | RJ(src) | IMM_I12(0)));
+		else
+			FAIL_IF(push_inst(compiler, VLDREPL | FRD(vreg) | RJ(src) | (sljit_ins)1 << (23 - src_size)));
 		src = vreg;
 	}
 
-- 
2.43.0


From a181558e27b5645c32f4e17b4845ac93e9240a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 80/93] fix: SIMD sign extraction of 32 elements on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index c464a2c..9e4d7b5 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3685,8 +3685,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 	if (reg_size == 5) {
 		FAIL_IF(push_inst(compiler, VPICKVE2GR_U | (sljit_ins)(0x38 << 10) | ins | RD(TMP_REG3) | FRJ(TMP_FREG1) | IMM_V(2)));
-		FAIL_IF(push_inst(compiler, SLLI_W | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
+		FAIL_IF(push_inst(compiler, SLLI_D | RD(TMP_REG3) | RJ(TMP_REG3) | IMM_I12(2 << (3 - elem_size))));
 		FAIL_IF(push_inst(compiler, OR | RD(dst_r) | RJ(dst_r) | RK(TMP_REG3)));
+
+		/* The 32 bit results are stored sign extended in registers. */
+		if (type & SLJIT_32)
+			FAIL_IF(push_inst(compiler, SLLI_W | RD(dst_r) | RJ(dst_r) | IMM_I12(0)));
 	}
 
 	if (dst_r == TMP_REG2)
-- 
2.43.0


From 3dfdc8662b5229ffd5b407b10daa803a505eb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 81/93] fix: test requests of the SIMD shuffle on LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 9e4d7b5..e192e0d 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3719,6 +3719,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (SLJIT_SIMD_GET_OPCODE(type) == SLJIT_SIMD_OP2_SHUFFLE && reg_size != 4)
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3739,9 +3742,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 		ins = VXOR_V;
 		break;
 	case SLJIT_SIMD_OP2_SHUFFLE:
-		if (reg_size != 4)
-			return SLJIT_ERR_UNSUPPORTED;
-
 		return push_inst(compiler, VSHUF_B | FRD(dst_vreg) | FRJ(src1_vreg) | FRK(src1_vreg) | FRA(src2));
 	}
 
-- 
2.43.0


From 8638c24ab928c9b2337180ab0162fbc88b8259ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 82/93] fix: unsupported SIMD replicate and lane move forms on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index e192e0d..40561db 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3363,6 +3363,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_replicate(struct sljit_compil
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
+	if (elem_size > 3 || ((type & SLJIT_SIMD_FLOAT) && elem_size < 2))
+		return SLJIT_ERR_UNSUPPORTED;
+
 	if (type & SLJIT_SIMD_TEST)
 		return SLJIT_SUCCESS;
 
@@ -3421,10 +3424,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	if (reg_size == 5 && !(get_cpu_features(GET_HWCAP) & LOONGARCH_HWCAP_LASX))
 		return SLJIT_ERR_UNSUPPORTED;
 
-	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
-		return SLJIT_ERR_UNSUPPORTED;
-
-	if ((type & SLJIT_SIMD_FLOAT) && (elem_size < 2 || elem_size > 3))
+	if (elem_size > 3 || ((type & SLJIT_SIMD_FLOAT) && elem_size < 2))
 		return SLJIT_ERR_UNSUPPORTED;
 
 	if (type & SLJIT_SIMD_TEST)
-- 
2.43.0


From aa321686ad313f832f43b6515f9f3b19c40a96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 83/93] fix: replicating 128 bit lanes of SIMD registers on
 LoongArch

---
 sljit_src/sljitNativeLOONGARCH_64.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 40561db..ebd5f04 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3566,6 +3566,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_replicate(struct sljit_c
 	ins = (sljit_ins)(0x3f ^ (0x1f >> elem_size)) << 10;
 
 	if (reg_size == 5) {
+		if (elem_size == 4) {
+			ins = (src_lane_index == 0) ? (sljit_ins)(0x44 << 10) : (sljit_ins)(0xee << 10);
+
+			return push_inst(compiler, XVPERMI | ins | FRD(vreg) | FRJ(src));
+		}
+
 		FAIL_IF(push_inst(compiler, VREPLVEI | (sljit_ins)1 << 26 | ins | FRD(vreg) | FRJ(src) | IMM_V(src_lane_index % (2 << (3 - elem_size)))));
 
 		ins = (src_lane_index < (2 << (3 - elem_size))) ? (sljit_ins)(0x44 << 10) : (sljit_ins)(0xee << 10);
-- 
2.43.0


From f90d822d63eb100d16f3473a0c5a4d3693586583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 84/93] fix: argument checks of SIMD memory alignments

---
 sljit_src/sljitLir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index fa54935..7ecf1fb 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2996,7 +2996,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_mov(struct sljit_com
 	CHECK_ARGUMENT((type & SLJIT_SIMD_TYPE_MASK2(SLJIT_SIMD_STORE)) == 0);
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((srcdst & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(vreg, type));
 	FUNCTION_VCHECK(srcdst, srcdstw, type);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -3249,7 +3249,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_simd_op2(struct sljit_com
 	CHECK_ARGUMENT(SLJIT_SIMD_CHECK_REG(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM_SIZE(type) <= SLJIT_SIMD_GET_REG_SIZE(type));
 	CHECK_ARGUMENT(SLJIT_SIMD_GET_OPCODE(type) != SLJIT_SIMD_OP2_SHUFFLE || (SLJIT_SIMD_GET_ELEM_SIZE(type) == 0 && !(type & SLJIT_SIMD_FLOAT)));
-	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= (src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0);
+	CHECK_ARGUMENT(SLJIT_SIMD_GET_ELEM2_SIZE(type) <= ((src2 & SLJIT_MEM) ? SLJIT_SIMD_GET_REG_SIZE(type) : 0));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(dst_vreg, type));
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_VREG(src1_vreg, type));
 	FUNCTION_VCHECK(src2, src2w, type);
-- 
2.43.0


From 224b9a9b45c09d6a33c1bea9999b256fef3c6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 85/93] fix: zeroing SIMD lane moves of overlapping float
 registers on ARM-32

---
 sljit_src/sljitNativeARM_32.c    | 15 +++++++++++----
 sljit_src/sljitNativeARM_T2_32.c | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index c850ed7..d35ec57 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -4364,10 +4364,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 				return push_inst(compiler, VMOV_i | VD(vreg));
 			}
 
-			if (srcdst == vreg || (elem_size == 3 && srcdst == (vreg + SLJIT_QUAD_OTHER_HALF(vreg)))) {
-				FAIL_IF(push_inst(compiler, VORR | ins | VD(TMP_FREG2) | VN(vreg) | VM(vreg)));
-				srcdst = TMP_FREG2;
-				srcdstw = 0;
+			if (!(srcdst & SLJIT_MEM)) {
+				/* The source might be any half of the destination. */
+				FAIL_IF(push_inst(compiler, VMOV | (1 << 20) | VN(srcdst) | RD(TMP_REG1)));
+				FAIL_IF(push_inst(compiler, VMOV_i | ins | VD(vreg)));
+
+				if (lane_index >= 2) {
+					lane_index -= 2;
+					vreg += SLJIT_QUAD_OTHER_HALF(vreg);
+				}
+
+				return push_inst(compiler, VMOV_s | ((sljit_ins)lane_index << 21) | VN(vreg) | RD(TMP_REG1));
 			}
 		}
 
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 1f32cf3..4cd2f88 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -4009,10 +4009,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 				return push_inst32(compiler, VMOV_i | VD4(vreg));
 			}
 
-			if (srcdst == vreg || (elem_size == 3 && srcdst == (vreg + SLJIT_QUAD_OTHER_HALF(vreg)))) {
-				FAIL_IF(push_inst32(compiler, VORR | ins | VD4(TMP_FREG2) | VN4(vreg) | VM4(vreg)));
-				srcdst = TMP_FREG2;
-				srcdstw = 0;
+			if (!(srcdst & SLJIT_MEM)) {
+				/* The source might be any half of the destination. */
+				FAIL_IF(push_inst32(compiler, VMOV | (1 << 20) | VN4(srcdst) | RT4(TMP_REG1)));
+				FAIL_IF(push_inst32(compiler, VMOV_i | ins | VD4(vreg)));
+
+				if (lane_index >= 2) {
+					lane_index -= 2;
+					vreg += SLJIT_QUAD_OTHER_HALF(vreg);
+				}
+
+				return push_inst32(compiler, VMOV_s | ((sljit_ins)lane_index << 21) | VN4(vreg) | RT4(TMP_REG1));
 			}
 		}
 
-- 
2.43.0


From f913e824f11e2e126e04f3fb14bb66eb26211b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 86/93] fix: argument checks accept flags destroyed by earlier
 operations

---
 sljit_src/sljitLir.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 7ecf1fb..796ff9c 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1708,6 +1708,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op1(struct sljit_compiler
 
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src, srcw);
+	if (GET_OPCODE(op) > SLJIT_MOV_P)
+		compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -1960,6 +1962,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_shift_into(struct sljit_c
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(src2_reg));
 	FUNCTION_CHECK_SRC(src3, src3w);
 	CHECK_ARGUMENT(dst_reg != src2_reg);
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2098,6 +2101,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1(struct sljit_compile
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src, srcw, op & SLJIT_32);
 	FUNCTION_FCHECK(dst, dstw, op & SLJIT_32);
+	if (GET_OPCODE(op) != SLJIT_MOV_F64)
+		compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2169,6 +2174,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_conv_sw_from_f64(str
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src, srcw, op & SLJIT_32);
 	FUNCTION_CHECK_DST(dst, dstw);
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2198,6 +2204,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_conv_f64_from_w(stru
 	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_CHECK_SRC(src, srcw);
 	FUNCTION_FCHECK(dst, dstw, op & SLJIT_32);
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2230,6 +2237,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop2(struct sljit_compile
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 	FUNCTION_FCHECK(dst, dstw, op & SLJIT_32);
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2256,6 +2264,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop2r(struct sljit_compil
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(dst_freg, op & SLJIT_32));
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2486,6 +2495,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_call(struct sljit_compile
 			CHECK_ARGUMENT((type & 0xff) != SLJIT_CALL_REG_ARG);
 		}
 	}
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2639,6 +2649,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_icall(struct sljit_compil
 			CHECK_ARGUMENT((type & 0xff) != SLJIT_CALL_REG_ARG);
 		}
 	}
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -3291,6 +3302,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_get_local_base(struct sljit_co
 
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	FUNCTION_CHECK_DST(dst, dstw);
+	compiler->last_flags = 0;
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From 7ad862a79b05213c1ce23e3452cb58467aa26700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 87/93] fix: argument checks of entering a function and setting
 the context

---
 sljit_src/sljitLir.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 796ff9c..ee519ad 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -1431,7 +1431,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_enter(struct sljit_compil
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
@@ -1508,7 +1508,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	} else {
 		CHECK_ARGUMENT((options & ~SLJIT_ENTER_CPU_SPECIFIC_OPTIONS) == 0);
 	}
-	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= saveds);
+	CHECK_ARGUMENT(SLJIT_KEPT_SAVEDS_COUNT(options) <= 3 && SLJIT_KEPT_SAVEDS_COUNT(options) <= real_saveds);
 	CHECK_ARGUMENT((scratches & ~0xffffff) == 0 && (saveds & ~0xffffff) == 0);
 	CHECK_ARGUMENT(real_scratches >= 0 && real_scratches <= SLJIT_NUMBER_OF_REGISTERS);
 	CHECK_ARGUMENT(real_saveds >= 0 && real_saveds <= SLJIT_NUMBER_OF_SAVED_REGISTERS);
@@ -1520,7 +1520,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_set_context(struct sljit_compi
 	CHECK_ARGUMENT(real_vsaveds >= 0 && real_vsaveds <= SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(real_vscratches + real_vsaveds <= SLJIT_NUMBER_OF_VECTOR_REGISTERS);
 	CHECK_ARGUMENT(local_size >= 0 && local_size <= SLJIT_MAX_LOCAL_SIZE);
-	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) < SLJIT_ARG_TYPE_F64);
+	CHECK_ARGUMENT((arg_types & SLJIT_ARG_FULL_MASK) <= SLJIT_ARG_TYPE_F32);
 	CHECK_ARGUMENT(function_check_arguments(arg_types, real_scratches,
 		(options & SLJIT_ENTER_REG_ARG) ? 0 : real_saveds, real_fscratches));
 
-- 
2.43.0


From 17314958bafa31bc0d4cf8a9f3731fa71753a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 88/93] fix: argument checks of floating point comparison and
 copysign flags

---
 sljit_src/sljitLir.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index ee519ad..2073d5c 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2126,10 +2126,6 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_cmp(struct sljit_com
 	sljit_s32 src1, sljit_sw src1w,
 	sljit_s32 src2, sljit_sw src2w)
 {
-#if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
-	compiler->last_flags = GET_FLAG_TYPE(op) | (op & SLJIT_32);
-#endif /* SLJIT_ARGUMENT_CHECKS */
-
 	if (SLJIT_UNLIKELY(compiler->skip_checks)) {
 		compiler->skip_checks = 0;
 		CHECK_RETURN_OK;
@@ -2139,10 +2135,10 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop1_cmp(struct sljit_com
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_CMP_F64);
 	CHECK_ARGUMENT(!(op & SLJIT_SET_Z));
-	CHECK_ARGUMENT((op & VARIABLE_FLAG_MASK)
-		|| (GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL));
+	CHECK_ARGUMENT(GET_FLAG_TYPE(op) >= SLJIT_F_EQUAL && GET_FLAG_TYPE(op) <= SLJIT_ORDERED_LESS_EQUAL);
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
+	compiler->last_flags = GET_FLAG_TYPE(op) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
@@ -2261,6 +2257,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fop2r(struct sljit_compil
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT(SLJIT_CHECK_OPCODE(op, 0) == SLJIT_COPYSIGN_F64);
+	CHECK_ARGUMENT(!(op & ALL_STATUS_FLAGS_MASK));
 	FUNCTION_FCHECK(src1, src1w, op & SLJIT_32);
 	FUNCTION_FCHECK(src2, src2w, op & SLJIT_32);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(dst_freg, op & SLJIT_32));
-- 
2.43.0


From 8feac156f5e30a06d78e7ba3cca4a596d828a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:23 +0000
Subject: [PATCH 89/93] fix: argument checks of memory update and register pair
 operands

---
 sljit_src/sljitLir.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 2073d5c..3887b16 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2345,6 +2345,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fcopy(struct sljit_compil
 	case SLJIT_COPY_TO_F64:
 	case SLJIT_COPY_FROM_F64:
 		if (reg & REG_PAIR_MASK) {
+			CHECK_ARGUMENT(!(reg & SLJIT_MEM));
 			CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(REG_PAIR_FIRST(reg)));
 			CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(REG_PAIR_SECOND(reg)));
 
@@ -2825,7 +2826,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem(struct sljit_compiler
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | allowed_flags)) == 0);
 
 	if (reg & REG_PAIR_MASK) {
-		CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV);
+		CHECK_ARGUMENT(!(reg & SLJIT_MEM));
+		CHECK_ARGUMENT((type & (0xff | SLJIT_32)) == SLJIT_MOV);
 		CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(REG_PAIR_FIRST(reg)));
 		CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(REG_PAIR_SECOND(reg)));
 		CHECK_ARGUMENT(REG_PAIR_FIRST(reg) != REG_PAIR_SECOND(reg));
@@ -2884,7 +2886,8 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_mem_update(struct sljit_c
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	CHECK_ARGUMENT((type & 0xff) >= SLJIT_MOV && (type & 0xff) <= SLJIT_MOV_P);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
-	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != reg);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP && (mem & REG_MASK) != reg);
+	CHECK_ARGUMENT(FUNCTION_CHECK_IS_REG(reg));
 
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 #endif /* SLJIT_ARGUMENT_CHECKS */
@@ -2969,6 +2972,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_fmem_update(struct sljit_
 	CHECK_ARGUMENT(sljit_has_cpu_feature(SLJIT_HAS_FPU));
 	CHECK_ARGUMENT((type & 0xff) == SLJIT_MOV_F64);
 	CHECK_ARGUMENT((type & ~(0xff | SLJIT_32 | SLJIT_MEM_STORE | SLJIT_MEM_SUPP | SLJIT_MEM_POST)) == 0);
+	CHECK_ARGUMENT((mem & REG_MASK) != 0 && (mem & REG_MASK) != SLJIT_SP);
 	FUNCTION_CHECK_SRC_MEM(mem, memw);
 	CHECK_ARGUMENT(FUNCTION_CHECK_IS_FREG(freg, type & SLJIT_32));
 #endif /* SLJIT_ARGUMENT_CHECKS */
-- 
2.43.0


From ec9bc5357cae7f330c7bd8c2bff51e27ef6802f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 90/93] fix: register tables are indexed before the arguments
 are checked on s390x

---
 sljit_src/sljitNativeS390X.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index a054457..ae49a7d 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3041,14 +3041,17 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 {
 	sljit_s32 is_right;
 	sljit_sw bit_length = (op & SLJIT_32) ? 32 : 64;
-	sljit_gpr dst_r = gpr(dst_reg);
-	sljit_gpr src1_r = gpr(src1_reg);
-	sljit_gpr src2_r = gpr(src2_reg);
+	sljit_gpr dst_r;
+	sljit_gpr src1_r;
+	sljit_gpr src2_r;
 	sljit_gpr src3_r = tmp1;
 	sljit_ins ins;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_shift_into(compiler, op, dst_reg, src1_reg, src2_reg, src3, src3w));
+	dst_r = gpr(dst_reg);
+	src1_r = gpr(src1_reg);
+	src2_r = gpr(src2_reg);
 
 	is_right = (GET_OPCODE(op) == SLJIT_LSHR || GET_OPCODE(op) == SLJIT_MLSHR);
 
@@ -3730,10 +3733,11 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_call(struct sljit_compile
 SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_ijump(struct sljit_compiler *compiler, sljit_s32 type, sljit_s32 src, sljit_sw srcw)
 {
 	struct sljit_jump *jump;
-	sljit_gpr src_r = FAST_IS_REG(src) ? gpr(src) : tmp1;
+	sljit_gpr src_r;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_ijump(compiler, type, src, srcw));
+	src_r = FAST_IS_REG(src) ? gpr(src) : tmp1;
 
 	if (src != SLJIT_IMM) {
 		if (src & SLJIT_MEM) {
@@ -3798,13 +3802,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op_flags(struct sljit_compiler *co
 	sljit_s32 dst, sljit_sw dstw,
 	sljit_s32 type)
 {
-	sljit_gpr dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
+	sljit_gpr dst_r;
 	sljit_gpr loc_r = tmp1;
-	sljit_u8 mask = get_cc(compiler, type);
+	sljit_u8 mask;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_op_flags(compiler, op, dst, dstw, type));
 	ADJUST_LOCAL_OFFSET(dst, dstw);
+	mask = get_cc(compiler, type);
+	dst_r = FAST_IS_REG(dst) ? gpr(dst & REG_MASK) : tmp0;
 
 	switch (GET_OPCODE(op)) {
 	case SLJIT_AND:
@@ -3873,11 +3879,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins mask;
 	sljit_gpr src_r;
-	sljit_gpr dst_r = gpr(dst_reg);
+	sljit_gpr dst_r;
 	sljit_ins ins;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
+	dst_r = gpr(dst_reg);
 
 	ADJUST_LOCAL_OFFSET(src1, src1w);
 
@@ -4537,11 +4544,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 	sljit_s32 temp_reg)
 {
 	sljit_ins ins;
-	sljit_gpr tmp_r = gpr(temp_reg);
-	sljit_gpr mem_r = gpr(mem_reg);
+	sljit_gpr tmp_r;
+	sljit_gpr mem_r;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_atomic_store(compiler, op, src_reg, mem_reg, temp_reg));
+	tmp_r = gpr(temp_reg);
+	mem_r = gpr(mem_reg);
 
 	if (op & SLJIT_ATOMIC_USE_LS)
 		return SLJIT_ERR_UNSUPPORTED;
-- 
2.43.0


From f12aea40b0aa1060c659af3988518549180f3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 91/93] fix: s390x: write protect the literal pool as well
 after code generation

---
 sljit_src/sljitNativeS390X.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index ae49a7d..642f4a6 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -1648,7 +1648,8 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 	SLJIT_CACHE_FLUSH(code, code_ptr);
-	SLJIT_UPDATE_WX_FLAGS(code, code_ptr, 1);
+	/* The literal pool follows the instructions. */
+	SLJIT_UPDATE_WX_FLAGS(code, (sljit_u8*)code + compiler->executable_size, 1);
 	return code;
 }
 
-- 
2.43.0


From 4509924211f372f5c3ae6637c1133ef259330779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 92/93] fix: sljit_get_register_index rejects the documented
 SLJIT_SP register

---
 sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 3887b16..8c15140 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -2032,7 +2032,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_get_register_index(sljit_s32 t
 	SLJIT_UNUSED_ARG(reg);
 #if (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
 	if (type == SLJIT_GP_REGISTER) {
-		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS)
+		CHECK_ARGUMENT((reg > 0 && reg <= SLJIT_NUMBER_OF_REGISTERS) || reg == SLJIT_SP
 			|| (reg >= SLJIT_TMP_REGISTER_BASE && reg < (SLJIT_TMP_REGISTER_BASE + SLJIT_NUMBER_OF_TEMPORARY_REGISTERS)));
 	}
 #if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
-- 
2.43.0


From 7b9df19e61a00068183614a8f7659dcb7f886990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:48 +0000
Subject: [PATCH 93/93] fix: MIPS: float to integer conversion may be moved
 behind the comparison of its result

The register written by MFC1 was not recorded, so the instruction could
be moved into the delay slot of a conditional jump which depends on it.
---
 sljit_src/sljitNativeMIPS_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 3cf07c7..54558ef 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2930,7 +2930,7 @@ static SLJIT_INLINE sljit_s32 sljit_emit_fop1_conv_sw_from_f64(struct sljit_comp
 	FAIL_IF(push_inst(compiler, (TRUNC_W_S ^ (flags >> 19)) | FMT(op) | FS(src) | FD(TMP_FREG1), MOVABLE_INS));
 
 	if (FAST_IS_REG(dst)) {
-		FAIL_IF(push_inst(compiler, MFC1 | flags | T(dst) | FS(TMP_FREG1), MOVABLE_INS));
+		FAIL_IF(push_inst(compiler, MFC1 | flags | T(dst) | FS(TMP_FREG1), DR(dst)));
 #if !defined(SLJIT_MIPS_REV) || (SLJIT_CONFIG_MIPS_32 && SLJIT_MIPS_REV <= 1)
 		FAIL_IF(push_inst(compiler, NOP, UNMOVABLE_INS));
 #endif /* MIPS III */
-- 
2.43.0

