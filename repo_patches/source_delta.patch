From 46e8c56c725691fa913ca1931d80188924f67214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 01/47] fix: copy src1 to dst in sljit_emit_shift_into when the
 immediate shift is zero

---
 sljit_src/sljitNativeARM_32.c       | 9 +++++++--
 sljit_src/sljitNativeARM_64.c       | 9 +++++++--
 sljit_src/sljitNativeARM_T2_32.c    | 9 +++++++--
 sljit_src/sljitNativeLOONGARCH_64.c | 9 +++++++--
 sljit_src/sljitNativeMIPS_common.c  | 9 +++++++--
 sljit_src/sljitNativePPC_common.c   | 9 +++++++--
 sljit_src/sljitNativeRISCV_common.c | 9 +++++++--
 sljit_src/sljitNativeS390X.c        | 9 +++++++--
 sljit_src/sljitNativeX86_common.c   | 8 +++++++-
 9 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 5e2a0f6..c5bb19c 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2609,8 +2609,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		FAIL_IF(push_inst(compiler, MOV | RD(dst_reg) | RM(src1_reg) | ((sljit_ins)(is_left ? 0 : 1) << 5) | ((sljit_ins)src3w << 7)));
 		src3w = (src3w ^ 0x1f) + 1;
diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 7a68792..ae67e45 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -1828,8 +1828,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		mask = inv_bits ? 0x1f : 0x3f;
 		src3w &= mask;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left)
 			src3w = (src3w ^ mask) + 1;
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index fde821d..abd8b1d 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -2166,8 +2166,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= 0x1f;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (IS_2_LO_REGS(dst_reg, src1_reg))
 			FAIL_IF(push_inst16(compiler, (is_left ? LSLSI : LSRSI) | RD3(dst_reg) | RN3(src1_reg) | ((sljit_ins)src3w << 6)));
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 697863e..f944377 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2125,8 +2125,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = INST(SLLI, op) | IMM_I12(src3w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 79e41de..ebf2c87 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2745,8 +2745,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SELECT_OP3(op, src3w, DSLL, DSLL32, SLL);
diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index e1d120e..71d2c0c 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -2066,8 +2066,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 		if (!(op & SLJIT_32)) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f4ce41f..f6174ea 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2806,8 +2806,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (is_left) {
 			ins1 = SLLI | WORD | IMM_I(src3w);
diff --git a/sljit_src/sljitNativeS390X.c b/sljit_src/sljitNativeS390X.c
index da5c4dd..7cb19b6 100644
--- a/sljit_src/sljitNativeS390X.c
+++ b/sljit_src/sljitNativeS390X.c
@@ -3059,8 +3059,13 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 	if (src3 == SLJIT_IMM) {
 		src3w &= bit_length - 1;
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			if (dst_reg == src1_reg)
+				return SLJIT_SUCCESS;
+
+			SLJIT_SKIP_CHECKS(compiler);
+			return sljit_emit_op1(compiler, (op & SLJIT_32) ? SLJIT_MOV32 : SLJIT_MOV, dst_reg, 0, src1_reg, 0);
+		}
 
 		if (op & SLJIT_32) {
 			if (dst_r == src1_r) {
diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 9a6a37e..03dd943 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2861,8 +2861,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+
+			if (dst_reg != src1_reg || dstw != src1w)
+				EMIT_MOV(compiler, dst_reg, dstw, src1_reg, src1w);
+
 			return SLJIT_SUCCESS;
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From 5f1fea5ab3b75c0311da150a032cb8c14de02beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 02/47] fix: sign extend the result of 32 bit REV on RISC-V 64
 without Zbb

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f6174ea..5027b35 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1834,7 +1834,7 @@ static sljit_s32 emit_rev(struct sljit_compiler *compiler, sljit_s32 op, sljit_s
 	FAIL_IF(push_inst(compiler, AND | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 	FAIL_IF(push_inst(compiler, AND | RD(TMP_REG1) | RS1(TMP_REG1) | RS2(OTHER_FLAG)));
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
-	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) == SLJIT_REV_S32 ? WORD_32 : 0) | RD(dst) | RS1(dst) | IMM_I(8)));
+	FAIL_IF(push_inst(compiler, SLLI | (GET_OPCODE(op) != SLJIT_REV_U32 ? WORD_32 : 0) | RD(dst) | RS1(dst) | IMM_I(8)));
 #else /* !SLJIT_CONFIG_RISCV_64 */
 	FAIL_IF(push_inst(compiler, SLLI | RD(dst) | RS1(dst) | IMM_I(8)));
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From ac0bb1afbaccab0be79dc4ff60224be45994a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 03/47] fix: x86 binary operations overwrote the address of a
 memory operand

When dst is a base or index register of the src2 memory operand, dst was
set to src1 before the memory operand was read.
---
 sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 03dd943..bbe3caa 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From acf3556518d51b111fe749ea643738f2bf4ebb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 04/47] fix: x86 multiplication lost its result when dst is
 used by the src2 address

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index bbe3caa..0c6b88f 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From eb0e24e6b041fdee514fd0fb0f20984b526b6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 05/47] fix: x86 shift_into overwrote the address of the shift
 amount

---
 sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 0c6b88f..a3a5b3d 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2927,7 +2927,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2951,7 +2951,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
-- 
2.43.0


From 260d88fb3266f04bf24feb88d4c9b19b4438258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 06/47] fix: x86 shift_into lost src1 when it is the shift
 register and dst is src3

---
 sljit_src/sljitNativeX86_common.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index a3a5b3d..251f27f 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2981,6 +2981,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			/* The original value of the shift register is saved when it is overwritten. */
+			if (src1_reg == SLJIT_PREF_SHIFT_REG && restore_ecx) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+				src1_reg = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_64 */
+				src1_reg = (restore_ecx == 1) ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
+#endif /* SLJIT_CONFIG_X86_64 */
+			}
+
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From c505c096a94c5acc710b06c4fc1cb752f2081f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 07/47] fix: x86-32 shift_into overwrote the address of the
 shift amount with its temporary

---
 sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 251f27f..6d679ba 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2898,7 +2898,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 			src1_reg = TMP_REG1;
 			src1w = 0;
 		} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-			restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+			restore_sp4 = SLJIT_R0;
+			if (src3 == SLJIT_R0 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R0))
+				restore_sp4 = ADDRESSING_DEPENDS_ON(src3, SLJIT_R1) ? SLJIT_S0 : SLJIT_R1;
 			EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 			EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 			src1_reg = restore_sp4;
@@ -2941,7 +2943,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				src1_reg = TMP_REG1;
 				src1w = 0;
 			} else if ((src1_reg & SLJIT_MEM) || src1_reg == SLJIT_PREF_SHIFT_REG) {
-				restore_sp4 = (src3 == SLJIT_R0) ? SLJIT_R1 : SLJIT_R0;
+				restore_sp4 = SLJIT_R0;
+				if (src3 == SLJIT_R0 || ADDRESSING_DEPENDS_ON(src3, SLJIT_R0))
+					restore_sp4 = ADDRESSING_DEPENDS_ON(src3, SLJIT_R1) ? SLJIT_S0 : SLJIT_R1;
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), sizeof(sljit_s32), restore_sp4, 0);
 				EMIT_MOV(compiler, restore_sp4, 0, src1_reg, src1w);
 				src1_reg = restore_sp4;
-- 
2.43.0


From a5b8fe03e7e88ae96530d24f57bf55b7f97cc808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 08/47] fix: x86-64 shift lost the shift register when the
 address of src2 needs a 64 bit displacement

---
 sljit_src/sljitNativeX86_common.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 6d679ba..8372029 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,26 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
 	mode32 = compiler->mode32;
-	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
-	compiler->mode32 = mode32;
+
+	if (src2 & SLJIT_MEM) {
+		/* Computing the address of src2 may overwrite TMP_REG2. */
+		EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
+		compiler->mode32 = 0;
+		inst = emit_x86_instruction(compiler, 1, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+		FAIL_IF(!inst);
+		*inst = XCHG_r_rm;
+		compiler->mode32 = mode32;
+	} else {
+		compiler->mode32 = 0;
+		EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+		compiler->mode32 = mode32;
+		EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
+	}
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From b07915afb0d1798437bb4ac75459693da3c0478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 09/47] fix: ARM64 pair load swapped the two values when the
 base is the first register

---
 sljit_src/sljitNativeARM_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index ae67e45..3552d89 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2718,8 +2718,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			inst = SUBI;
 		} else if ((memw & 0x7) == 0 && memw <= 0x7ff0) {
 			if (!(type & SLJIT_MEM_STORE) && (mem & REG_MASK) == REG_PAIR_FIRST(reg)) {
-				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7)));
-				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7));
+				FAIL_IF(push_inst(compiler, LDRI | RD(REG_PAIR_SECOND(reg)) | RN(mem & REG_MASK) | ((sljit_ins)(memw + 0x8) << 7)));
+				return push_inst(compiler, LDRI | RD(REG_PAIR_FIRST(reg)) | RN(mem & REG_MASK) | ((sljit_ins)memw << 7));
 			}
 
 			inst = (type & SLJIT_MEM_STORE) ? STRI : LDRI;
-- 
2.43.0


From 3c727ecda28efb84c147dd698593307b76d23ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 10/47] fix: carry flag was not computed when an operand is the
 zero immediate (MIPS, RISC-V, LoongArch)

---
 sljit_src/sljitNativeLOONGARCH_64.c | 16 +++++++++-------
 sljit_src/sljitNativeMIPS_common.c  | 16 +++++++++-------
 sljit_src/sljitNativeRISCV_common.c | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f944377..f4a9e4b 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -1454,7 +1454,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1476,7 +1477,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, INST(ADD, op) | RD(EQUAL_FLAG) | RJ(src1) | RK(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1493,7 +1494,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1510,12 +1511,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RJ(TMP_REG1) | RK(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, ADDI_D | RD(dst) | RJ(src1) | IMM_I12(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -1530,7 +1532,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RJ(dst) | IMM_I12(src2)));
 			else
@@ -1539,7 +1541,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, ADD_D | RD(dst) | RJ(dst) | RK(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index ebf2c87..fd37ce1 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -1872,7 +1872,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -1894,7 +1895,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(src1) | T(src2) | DA(EQUAL_FLAG), EQUAL_FLAG));
 
-			if (is_overflow || carry_src_ar != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1911,7 +1912,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_ar != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(OTHER_FLAG) | IMM(src2), OTHER_FLAG));
 			else
@@ -1928,12 +1929,13 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | S(TMP_REG1) | TA(OTHER_FLAG) | DA(OTHER_FLAG), OTHER_FLAG);
 
 	case SLJIT_ADDC:
-		carry_src_ar = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_ar = 0;
 
 		if (flags & SRC2_IMM) {
 			FAIL_IF(push_inst(compiler, SELECT_OP(DADDIU, ADDIU) | S(src1) | T(dst) | IMM(src2), DR(dst)));
 		} else {
-			if (carry_src_ar != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_ar = DR(src1);
 				else if (src2 != dst)
@@ -1948,7 +1950,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_ar != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTIU | S(dst) | TA(EQUAL_FLAG) | IMM(src2), EQUAL_FLAG));
 			else
@@ -1957,7 +1959,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 
 		FAIL_IF(push_inst(compiler, SELECT_OP(DADDU, ADDU) | S(dst) | TA(OTHER_FLAG) | D(dst), DR(dst)));
 
-		if (carry_src_ar == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 5027b35..4282e8c 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -2014,7 +2014,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 	case SLJIT_ADD:
 		/* Overflow computation (both add and sub): overflow = src1_sign ^ src2_sign ^ result_sign ^ carry_flag */
 		is_overflow = GET_FLAG_TYPE(op) == SLJIT_OVERFLOW;
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			if (is_overflow) {
@@ -2043,7 +2044,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else if (op & SLJIT_SET_Z)
 				FAIL_IF(push_inst(compiler, ADD | WORD | RD(EQUAL_FLAG) | RS1(src1) | RS2(src2)));
 
-			if (is_overflow || carry_src_r != 0) {
+			if (is_overflow || is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2060,7 +2061,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (is_overflow || carry_src_r != 0) {
+		if (is_overflow || is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(OTHER_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2081,7 +2082,8 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return push_inst(compiler, XOR | RD(OTHER_FLAG) | RS1(TMP_REG1) | RS2(OTHER_FLAG));
 
 	case SLJIT_ADDC:
-		carry_src_r = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		is_carry = GET_FLAG_TYPE(op) == SLJIT_CARRY;
+		carry_src_r = TMP_ZERO;
 
 		if (flags & SRC2_IMM) {
 			SLJIT_ASSERT(src2 != 0);
@@ -2090,7 +2092,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 			else
 				FAIL_IF(push_inst(compiler, ADDI | WORD | RD(dst) | RS1(src1) | IMM_I(src2)));
 		} else {
-			if (carry_src_r != 0) {
+			if (is_carry) {
 				if (src1 != dst)
 					carry_src_r = (sljit_s32)src1;
 				else if (src2 != dst)
@@ -2108,7 +2110,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		}
 
 		/* Carry is zero if a + b >= a or a + b >= b, otherwise it is 1. */
-		if (carry_src_r != 0) {
+		if (is_carry) {
 			if (flags & SRC2_IMM)
 				FAIL_IF(push_inst(compiler, SLTUI | RD(EQUAL_FLAG) | RS1(dst) | IMM_I(src2)));
 			else
@@ -2120,7 +2122,7 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		else
 			FAIL_IF(push_inst(compiler, ADD | WORD | RD(dst) | RS1(dst) | RS2(OTHER_FLAG)));
 
-		if (carry_src_r == 0)
+		if (!is_carry)
 			return SLJIT_SUCCESS;
 
 		/* Set ULESS_FLAG (dst == 0) && (OTHER_FLAG == 1). */
-- 
2.43.0


From 92b80e0da5014272a28c44850920b8d7b9a02bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 11/47] fix: sign extend the memory and immediate operands of
 32 bit sljit_emit_cmp (MIPS64, RISC-V 64, LoongArch)

---
 sljit_src/sljitNativeLOONGARCH_64.c | 10 +++++++++-
 sljit_src/sljitNativeMIPS_common.c  | 10 +++++++++-
 sljit_src/sljitNativeRISCV_common.c | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index f4a9e4b..bfe01c7 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -2879,7 +2879,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 	compiler->cache_arg = 0;
 	compiler->cache_argw = 0;
 
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	if (type & SLJIT_32) {
+		flags = INT_DATA | SIGNED_DATA | LOAD_DATA;
+
+		if (src1 == SLJIT_IMM)
+			src1w = (sljit_s32)src1w;
+		if (src2 == SLJIT_IMM)
+			src2w = (sljit_s32)src2w;
+	} else
+		flags = WORD_DATA | LOAD_DATA;
 
 	if (src1 & SLJIT_MEM) {
 		PTR_FAIL_IF(emit_op_mem2(compiler, flags, TMP_REG1, src1, src1w, src2, src2w));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index fd37ce1..e6a3983 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3532,7 +3532,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_MIPS_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	if (type & SLJIT_32) {
+		flags = INT_DATA | SIGNED_DATA | LOAD_DATA;
+
+		if (src1 == SLJIT_IMM)
+			src1w = (sljit_s32)src1w;
+		if (src2 == SLJIT_IMM)
+			src2w = (sljit_s32)src2w;
+	} else
+		flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_MIPS_32 */
 
 	if (src1 & SLJIT_MEM) {
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 4282e8c..0d497fc 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -3473,7 +3473,15 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_cmp(struct sljit_compiler
 #if (defined SLJIT_CONFIG_RISCV_32 && SLJIT_CONFIG_RISCV_32)
 	flags = WORD_DATA | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_32 */
-	flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	if (type & SLJIT_32) {
+		flags = INT_DATA | SIGNED_DATA | LOAD_DATA;
+
+		if (src1 == SLJIT_IMM)
+			src1w = (sljit_s32)src1w;
+		if (src2 == SLJIT_IMM)
+			src2w = (sljit_s32)src2w;
+	} else
+		flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_32 */
 
 	if (src1 & SLJIT_MEM) {
-- 
2.43.0


From 52e8614619a0ae08c4ec35e1a0925c2295d3d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 12/47] fix: 32 bit sljit_emit_select with a memory operand
 (ARM64 read 8 bytes, MIPS64, RISC-V 64 and LoongArch zero extended it)

---
 sljit_src/sljitNativeARM_64.c       | 2 +-
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativeMIPS_common.c  | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 3552d89..403b6fa 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -2655,7 +2655,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 		FAIL_IF(load_immediate(compiler, TMP_REG2, src1w));
 		src1 = TMP_REG2;
 	} else if (src1 & SLJIT_MEM) {
-		FAIL_IF(emit_op_mem(compiler, WORD_SIZE, TMP_REG2, src1, src1w, TMP_REG2));
+		FAIL_IF(emit_op_mem(compiler, (type & SLJIT_32) ? INT_SIZE : WORD_SIZE, TMP_REG2, src1, src1w, TMP_REG2));
 		src1 = TMP_REG2;
 	}
 
diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index bfe01c7..9494395 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -3124,7 +3124,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 {
 	sljit_ins *ptr;
 	sljit_uw size;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_select(compiler, type, dst_reg, src1, src1w, src2_reg));
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index e6a3983..e540692 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3860,7 +3860,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_s32 src2_reg)
 {
 #if (defined SLJIT_CONFIG_MIPS_64 && SLJIT_CONFIG_MIPS_64)
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 	sljit_ins mov_ins = (type & SLJIT_32) ? ADDU : DADDU;
 #else /* !SLJIT_CONFIG_MIPS_64 */
 	sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 0d497fc..a295308 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -3755,7 +3755,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_select(struct sljit_compiler *comp
 	sljit_ins ins;
 #if (defined SLJIT_CONFIG_RISCV_64 && SLJIT_CONFIG_RISCV_64)
 	sljit_ins word = (sljit_ins)(type & SLJIT_32) >> 5;
-	sljit_s32 inp_flags = ((type & SLJIT_32) ? INT_DATA : WORD_DATA) | LOAD_DATA;
+	sljit_s32 inp_flags = ((type & SLJIT_32) ? (INT_DATA | SIGNED_DATA) : WORD_DATA) | LOAD_DATA;
 #else /* !SLJIT_CONFIG_RISCV_64 */
         sljit_s32 inp_flags = WORD_DATA | LOAD_DATA;
 #endif /* SLJIT_CONFIG_RISCV_64 */
-- 
2.43.0


From 5df0305597a5066561e71b88bda82e9664edcff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 13/47] fix: RISC-V reported twice the generated code size

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index a295308..404c5d4 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1039,7 +1039,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 
 	compiler->error = SLJIT_ERR_COMPILED;
 	compiler->executable_offset = executable_offset;
-	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_ins);
+	compiler->executable_size = (sljit_uw)(code_ptr - code) * sizeof(sljit_u16);
 
 	code = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code, executable_offset);
 	code_ptr = (sljit_u16 *)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
-- 
2.43.0


From 862edeef711e2257ed4eb43ce66c9e6d3b3ac569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 14/47] fix: the address of a label at the end of the code
 ignored the executable offset (MIPS, RISC-V, LoongArch)

---
 sljit_src/sljitNativeLOONGARCH_64.c | 2 +-
 sljit_src/sljitNativeMIPS_common.c  | 2 +-
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index 9494395..d45b595 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -774,7 +774,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index e540692..3261a8a 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -810,7 +810,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 404c5d4..84d24f0 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -978,7 +978,7 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_generate_code(struct sljit_compiler *compil
 		if (label->u.index >= SLJIT_LABEL_ALIGNED)
 			code_ptr = process_extended_label(code_ptr, (struct sljit_extended_label*)label);
 
-		label->u.addr = (sljit_uw)code_ptr;
+		label->u.addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
 		label->size = (sljit_uw)(code_ptr - code);
 		label = label->next;
 	}
-- 
2.43.0


From 2d1a3be0d1ebc797e95e9211c5f6ec03f1f8894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 15/47] fix: ARM64 local base stored to memory overwritten by
 the address

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index 403b6fa..f9c5549 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -3574,7 +3574,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_get_local_base(struct sljit_compiler *c
 	}
 
 	if (SLJIT_UNLIKELY(dst & SLJIT_MEM))
-		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG1);
+		return emit_op_mem(compiler, WORD_SIZE | STORE, dst_reg, dst, dstw, TMP_REG2);
 	return SLJIT_SUCCESS;
 }
 
-- 
2.43.0


From 47bb9d9bd819cd1297d6e8bea0f087670b59b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 16/47] fix: x86-32 tail calls stored 32 bit floating point
 arguments as 64 bit values

---
 sljit_src/sljitNativeX86_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index f5f5cc2..2bb5dc2 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -848,7 +848,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 				break;
 			case SLJIT_ARG_TYPE_F32:
 				offset -= SSIZE_OF(f32);
-				FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+				FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 				float_arg_count--;
 				break;
 			default:
@@ -957,7 +957,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 			break;
 		case SLJIT_ARG_TYPE_F32:
 			offset -= SSIZE_OF(f32);
-			FAIL_IF(emit_sse2_store(compiler, 0, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
+			FAIL_IF(emit_sse2_store(compiler, 1, SLJIT_MEM1(SLJIT_SP), offset, float_arg_count));
 			float_arg_count--;
 			break;
 		default:
-- 
2.43.0


From 29729d882b85fb2884889f041580d11d3a023231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 17/47] fix: x86-32 tail calls with stack arguments did not
 align the stack

---
 sljit_src/sljitNativeX86_32.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativeX86_32.c b/sljit_src/sljitNativeX86_32.c
index 2bb5dc2..6cd4b3c 100644
--- a/sljit_src/sljitNativeX86_32.c
+++ b/sljit_src/sljitNativeX86_32.c
@@ -883,7 +883,9 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 		return emit_stack_frame_release(compiler, 0);
 	}
 
-	stack_size = args_size + SSIZE_OF(sw);
+	/* Keep the stack aligned to 16 bytes at the call. */
+	*extra_space = (sljit_s32)((((args_size + SSIZE_OF(sw)) + 0xf) & ~(sljit_sw)0xf) - SSIZE_OF(sw));
+	stack_size = *extra_space + SSIZE_OF(sw);
 
 	if (word_arg_count >= 1 && src != SLJIT_IMM && src != SLJIT_R0) {
 		r2_offset = SSIZE_OF(sw);
@@ -940,8 +942,7 @@ static sljit_s32 tail_call_with_args(struct sljit_compiler *compiler,
 	}
 
 	/* Copy fourth argument and return address. */
-	offset = stack_size - SSIZE_OF(sw);
-	*extra_space = args_size;
+	offset = stack_size - SSIZE_OF(sw) - (*extra_space - args_size);
 
 	if (word_arg_count >= 4) {
 		offset -= SSIZE_OF(sw);
-- 
2.43.0


From 5d1bc4cc54906e46d7e0d53451d9bc5f3b896caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 18/47] fix: serialize the float and vector register counts of
 the compiler

---
 sljit_src/sljitSerialize.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 042cc18..51348ef 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -68,6 +68,11 @@ struct sljit_serialized_compiler {
 	sljit_s32 local_size;
 	sljit_uw size;
 
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	sljit_s32 status_flags_state;
 #endif /* SLJIT_HAS_STATUS_FLAGS_STATE */
@@ -97,6 +102,12 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 };
 
 struct sljit_serialized_label {
@@ -124,7 +135,7 @@ struct sljit_serialized_const {
 #else /* !SLJIT_LITTLE_ENDIAN */
 #define SLJIT_SERIALIZE_SIGNATURE 0x544a4c53
 #endif /* SLJIT_LITTLE_ENDIAN */
-#define SLJIT_SERIALIZE_VERSION 1
+#define SLJIT_SERIALIZE_VERSION 2
 
 SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compiler *compiler,
 	sljit_s32 options, sljit_uw *size)
@@ -215,6 +226,11 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 	serialized_compiler->local_size = compiler->local_size;
 	serialized_compiler->size = compiler->size;
 
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	serialized_compiler->vscratches = compiler->vscratches;
+	serialized_compiler->vsaveds = compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	serialized_compiler->status_flags_state = compiler->status_flags_state;
 #endif /* SLJIT_HAS_STATUS_FLAGS_STATE */
@@ -309,6 +325,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -369,6 +391,11 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->local_size = serialized_compiler->local_size;
 	compiler->size = serialized_compiler->size;
 
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->vscratches = serialized_compiler->vscratches;
+	compiler->vsaveds = serialized_compiler->vsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+
 #if (defined SLJIT_HAS_STATUS_FLAGS_STATE && SLJIT_HAS_STATUS_FLAGS_STATE)
 	compiler->status_flags_state = serialized_compiler->status_flags_state;
 #endif /* SLJIT_HAS_STATUS_FLAGS_STATE */
@@ -573,6 +600,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From 6df868ad01c39bb2691eef42311de4f6d21ccc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 19/47] fix: PPC: reserve enough space for calls and
 conditional jumps to absolute addresses

---
 sljit_src/sljitNativePPC_common.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sljit_src/sljitNativePPC_common.c b/sljit_src/sljitNativePPC_common.c
index 71d2c0c..692a86a 100644
--- a/sljit_src/sljitNativePPC_common.c
+++ b/sljit_src/sljitNativePPC_common.c
@@ -552,17 +552,22 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 		if (!(jump->flags & JUMP_MOV_ADDR)) {
 			total_size = JUMP_MAX_SIZE - 1;
 
+			/* The address must be loaded into TMP_CALL_REG for IS_CALL jumps. */
+#if (defined SLJIT_CONFIG_PPC_32 && SLJIT_CONFIG_PPC_32)
+			if (!(jump->flags & (SLJIT_REWRITABLE_JUMP | IS_CALL))) {
+#else /* !SLJIT_CONFIG_PPC_32 */
 			if (!(jump->flags & SLJIT_REWRITABLE_JUMP)) {
+#endif /* SLJIT_CONFIG_PPC_32 */
 				if (jump->flags & JUMP_ADDR) {
-					if (jump->u.target <= 0x01ffffff)
-						total_size = 1 - 1;
+					if (!(jump->flags & IS_CALL) && jump->u.target <= 0x01ffffff)
+						total_size = ((jump->flags & IS_COND) && jump->u.target > 0xffff) ? (2 - 1) : (1 - 1);
 #if (defined SLJIT_CONFIG_PPC_64 && SLJIT_CONFIG_PPC_64)
 					else if (jump->u.target < 0x80000000l)
 						total_size = 4 - 1;
 					else if (jump->u.target < 0x800000000000l)
 						total_size = 6 - 1;
 #endif /* SLJIT_CONFIG_PPC_64 */
-				} else {
+				} else if (!(jump->flags & IS_CALL)) {
 					/* Unit size: instruction. */
 					diff = (sljit_sw)jump->u.label->size - (sljit_sw)jump->addr;
 					if (jump->u.label->size > jump->addr) {
-- 
2.43.0


From 813d9f7e0fa6cd2c0eda2088dbcfa1642e682ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 20/47] fix: ARM and MIPS: XOR of two immediates where only the
 first is -1

---
 sljit_src/sljitNativeARM_32.c      | 3 ++-
 sljit_src/sljitNativeMIPS_common.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index c5bb19c..7ce7cff 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -2524,7 +2524,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 
 	case SLJIT_XOR:
 		inp_flags = ALLOW_IMM | ALLOW_DOUBLE_IMM;
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		/* When src2 is an immediate, it is checked first. */
+		if (src2 == SLJIT_IMM ? (src2w == -1) : (src1 == SLJIT_IMM && src1w == -1)) {
 			inp_flags |= ALLOW_INV_IMM;
 		}
 		return emit_op(compiler, op, inp_flags, dst, dstw, src1, src1w, src2, src2w);
diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index 3261a8a..ef91b20 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -2647,7 +2647,8 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_op2(struct sljit_compiler *compile
 		return emit_op(compiler, op, flags | CUMULATIVE_OP, dst, dstw, src1, src1w, src2, src2w);
 
 	case SLJIT_XOR:
-		if ((src1 == SLJIT_IMM && src1w == -1) || (src2 == SLJIT_IMM && src2w == -1)) {
+		/* When src2 is an immediate, it is checked first. */
+		if (src2 == SLJIT_IMM ? (src2w == -1) : (src1 == SLJIT_IMM && src1w == -1)) {
 			return emit_op(compiler, op, flags | CUMULATIVE_OP | IMM_OP, dst, dstw, src1, src1w, src2, src2w);
 		}
 		/* fallthrough */
-- 
2.43.0


From 0e1819c2768aea72df3fbde71efe87afcb24c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 21/47] fix: Thumb2: lower bound of the short form of address
 loads

---
 sljit_src/sljitNativeARM_T2_32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index abd8b1d..480c38a 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -592,7 +592,7 @@ static void reduce_code_size(struct sljit_compiler *compiler)
 					diff -= (sljit_sw)size_reduce;
 				}
 
-				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= (-0xfff / SSIZE_OF(u16)))
+				if (diff <= (0xffd / SSIZE_OF(u16)) && diff >= ((-0xfff + 2 * SSIZE_OF(u16)) / SSIZE_OF(u16)))
 					total_size = 1;
 			}
 
-- 
2.43.0


From efb9e69696d1d8a552e2561ed33ba16f3096344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 22/47] fix: ARM: signed overflow when splitting offsets of
 register pair transfers

---
 sljit_src/sljitNativeARM_32.c    | 14 +++++++-------
 sljit_src/sljitNativeARM_T2_32.c | 33 +++++++++++++++++---------------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/sljit_src/sljitNativeARM_32.c b/sljit_src/sljitNativeARM_32.c
index 7ce7cff..433962f 100644
--- a/sljit_src/sljitNativeARM_32.c
+++ b/sljit_src/sljitNativeARM_32.c
@@ -3808,22 +3808,22 @@ static sljit_s32 update_mem_addr(struct sljit_compiler *compiler, sljit_s32 *mem
 
 		if (argw >= 0) {
 			tmp = (sljit_uw)(argw & (sign | mask));
-			tmp = (sljit_uw)((argw + ((tmp <= (sljit_uw)max_offset || tmp == (sljit_uw)sign) ? 0 : sign)) & ~mask);
+			tmp = ((sljit_uw)argw + ((tmp <= (sljit_uw)max_offset || tmp == (sljit_uw)sign) ? 0 : (sljit_uw)sign)) & ~(sljit_uw)mask;
 			imm = get_imm(tmp);
 
 			if (imm) {
-				*memw = argw - (sljit_sw)tmp;
+				*memw = (sljit_sw)((sljit_uw)argw - tmp);
 				SLJIT_ASSERT(*memw >= -mask && *memw <= max_offset);
 
 				return push_inst(compiler, ADD | RD(TMP_REG1) | RN(arg) | imm);
 			}
 		} else {
-			tmp = (sljit_uw)(-argw & (sign | mask));
-			tmp = (sljit_uw)((-argw + ((tmp <= (sljit_uw)((sign << 1) - max_offset - 1)) ? 0 : sign)) & ~mask);
+			tmp = (0 - (sljit_uw)argw) & (sljit_uw)(sign | mask);
+			tmp = (0 - (sljit_uw)argw + ((tmp <= (sljit_uw)((sign << 1) - max_offset - 1)) ? 0 : (sljit_uw)sign)) & ~(sljit_uw)mask;
 			imm = get_imm(tmp);
 
 			if (imm) {
-				*memw = argw + (sljit_sw)tmp;
+				*memw = (sljit_sw)((sljit_uw)argw + tmp);
 				SLJIT_ASSERT(*memw >= -mask && *memw <= max_offset);
 
 				return push_inst(compiler, SUB | RD(TMP_REG1) | RN(arg) | imm);
@@ -3832,8 +3832,8 @@ static sljit_s32 update_mem_addr(struct sljit_compiler *compiler, sljit_s32 *mem
 	}
 
 	tmp = (sljit_uw)(argw & (sign | mask));
-	tmp = (sljit_uw)((argw + ((tmp <= (sljit_uw)max_offset || tmp == (sljit_uw)sign) ? 0 : sign)) & ~mask);
-	*memw = argw - (sljit_sw)tmp;
+	tmp = ((sljit_uw)argw + ((tmp <= (sljit_uw)max_offset || tmp == (sljit_uw)sign) ? 0 : (sljit_uw)sign)) & ~(sljit_uw)mask;
+	*memw = (sljit_sw)((sljit_uw)argw - tmp);
 
 	FAIL_IF(load_immediate(compiler, TMP_REG1, tmp));
 
diff --git a/sljit_src/sljitNativeARM_T2_32.c b/sljit_src/sljitNativeARM_T2_32.c
index 480c38a..4ebda4e 100644
--- a/sljit_src/sljitNativeARM_T2_32.c
+++ b/sljit_src/sljitNativeARM_T2_32.c
@@ -3357,7 +3357,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 	if (type & (SLJIT_MEM_UNALIGNED | SLJIT_MEM_ALIGNED_16 | SLJIT_MEM_ALIGNED_32)) {
 		if ((mem & REG_MASK) == 0) {
 			if ((memw & 0xfff) >= (0x1000 - SSIZE_OF(sw))) {
-				imm = get_imm((sljit_uw)((memw + 0x1000) & ~0xfff));
+				imm = get_imm(((sljit_uw)memw + 0x1000) & ~(sljit_uw)0xfff);
 
 				if (imm != INVALID_IMM)
 					memw = (memw & 0xfff) - 0x1000;
@@ -3381,17 +3381,19 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			mem = SLJIT_MEM1(TMP_REG1);
 		} else if (memw < -0xff) {
 			/* Zero value can be included in the first case. */
-			if ((-memw & 0xfff) <= SSIZE_OF(sw))
-				tmp = (sljit_uw)((-memw + 0x7ff) & ~0x7ff);
+			tmp = 0 - (sljit_uw)memw;
+
+			if ((tmp & 0xfff) <= sizeof(sljit_sw))
+				tmp = (tmp + 0x7ff) & ~(sljit_uw)0x7ff;
 			else
-				tmp = (sljit_uw)((-memw + 0xfff) & ~0xfff);
+				tmp = (tmp + 0xfff) & ~(sljit_uw)0xfff;
 
-			SLJIT_ASSERT(tmp >= (sljit_uw)-memw);
+			SLJIT_ASSERT(tmp >= 0 - (sljit_uw)memw);
 			imm = get_imm(tmp);
 
 			if (imm != INVALID_IMM) {
 				FAIL_IF(push_inst32(compiler, SUB_WI | RD4(TMP_REG1) | RN4(mem & REG_MASK) | imm));
-				memw += (sljit_sw)tmp;
+				memw = (sljit_sw)((sljit_uw)memw + tmp);
 				SLJIT_ASSERT(memw >= 0 && memw <= 0xfff - SSIZE_OF(sw));
 			} else {
 				FAIL_IF(load_immediate(compiler, TMP_REG1, (sljit_uw)memw));
@@ -3402,7 +3404,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 			mem = SLJIT_MEM1(TMP_REG1);
 		} else if (memw >= (0x1000 - SSIZE_OF(sw))) {
 			if ((memw & 0xfff) >= (0x1000 - SSIZE_OF(sw))) {
-				imm = get_imm((sljit_uw)((memw + 0x1000) & ~0xfff));
+				imm = get_imm(((sljit_uw)memw + 0x1000) & ~(sljit_uw)0xfff);
 
 				if (imm != INVALID_IMM)
 					memw = (memw & 0xfff) - 0x1000;
@@ -3444,7 +3446,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 
 	if ((mem & REG_MASK) == 0) {
 		tmp = (sljit_uw)(memw & 0x7fc);
-		imm = get_imm((sljit_uw)((memw + (tmp <= 0x400 ? 0 : 0x400)) & ~0x3fc));
+		imm = get_imm(((sljit_uw)memw + (tmp <= 0x400 ? 0 : 0x400)) & ~(sljit_uw)0x3fc);
 
 		if (imm == INVALID_IMM) {
 			FAIL_IF(load_immediate(compiler, TMP_REG1, (sljit_uw)memw));
@@ -3467,18 +3469,19 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 		memw = 0;
 		mem = SLJIT_MEM1(TMP_REG1);
 	} else if (memw < 0) {
-		if ((-memw & ~0x3fc) == 0) {
+		tmp = 0 - (sljit_uw)memw;
+
+		if ((tmp & ~(sljit_uw)0x3fc) == 0) {
 			flags = 0;
-			memw = -memw >> 2;
+			memw = (sljit_sw)(tmp >> 2);
 		} else {
-			tmp = (sljit_uw)(-memw & 0x7fc);
-			imm = get_imm((sljit_uw)((-memw + (tmp <= 0x400 ? 0 : 0x400)) & ~0x3fc));
+			imm = get_imm((tmp + ((tmp & 0x7fc) <= 0x400 ? 0 : 0x400)) & ~(sljit_uw)0x3fc);
 
 			if (imm != INVALID_IMM) {
 				FAIL_IF(push_inst32(compiler, SUB_WI | RD4(TMP_REG1) | RN4(mem & REG_MASK) | imm));
-				memw = (-memw & 0x3fc) >> 2;
+				memw = (sljit_sw)((tmp & 0x3fc) >> 2);
 
-				if (tmp <= 0x400)
+				if ((tmp & 0x7fc) <= 0x400)
 					flags = 0;
 				else
 					memw = 0x100 - memw;
@@ -3492,7 +3495,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_mem(struct sljit_compiler *compile
 		}
 	} else if ((memw & ~0x3fc) != 0) {
 		tmp = (sljit_uw)(memw & 0x7fc);
-		imm = get_imm((sljit_uw)((memw + (tmp <= 0x400 ? 0 : 0x400)) & ~0x3fc));
+		imm = get_imm(((sljit_uw)memw + (tmp <= 0x400 ? 0 : 0x400)) & ~(sljit_uw)0x3fc);
 
 		if (imm != INVALID_IMM) {
 			FAIL_IF(push_inst32(compiler, ADD_WI | RD4(TMP_REG1) | RN4(mem & REG_MASK) | imm));
-- 
2.43.0


From 74458646d781fc0683facbc09d547f44d780fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 23/47] fix: ARMv6: deserialize the constant pool from behind
 the header

---
 sljit_src/sljitSerialize.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitSerialize.c b/sljit_src/sljitSerialize.c
index 51348ef..d2ad0c9 100644
--- a/sljit_src/sljitSerialize.c
+++ b/sljit_src/sljitSerialize.c
@@ -382,6 +382,8 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler = sljit_create_compiler(allocator_data);
 	PTR_FAIL_IF(compiler == NULL);
 
+	ptr += sizeof(struct sljit_serialized_compiler);
+
 	compiler->label_count = serialized_compiler->label_count;
 	compiler->options = serialized_compiler->options;
 	compiler->scratches = serialized_compiler->scratches;
@@ -431,7 +433,6 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 		goto error;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
-	ptr += sizeof(struct sljit_serialized_compiler);
 	i = serialized_compiler->buf_segment_count;
 	last_buf = NULL;
 	while (i > 0) {
-- 
2.43.0


From c0dc7f55d2800ba47b5e2704faa7778c6fe2ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 24/47] fix: RISC-V: extending moves to memory changed the
 source register when zbb is used

---
 sljit_src/sljitNativeRISCV_common.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 84d24f0..f54319a 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -1916,11 +1916,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S8:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTB | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(24)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(24));
 		}
@@ -1928,11 +1928,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_U16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, ZEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRLI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
@@ -1940,11 +1940,11 @@ static SLJIT_INLINE sljit_s32 emit_single_op(struct sljit_compiler *compiler, sl
 		return SLJIT_SUCCESS;
 
 	case SLJIT_MOV_S16:
-		if (RISCV_HAS_BITMANIP_B(93))
-			return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
-
 		SLJIT_ASSERT(src1 == TMP_ZERO && !(flags & SRC2_IMM));
 		if ((flags & (REG_DEST | REG2_SOURCE)) == (REG_DEST | REG2_SOURCE)) {
+			if (RISCV_HAS_BITMANIP_B(93))
+				return push_inst(compiler, SEXTH | RD(dst) | RS1(src2));
+
 			FAIL_IF(push_inst(compiler, SLLI | WORD | RD(dst) | RS1(src2) | IMM_EXTEND(16)));
 			return push_inst(compiler, SRAI | WORD | RD(dst) | RS1(dst) | IMM_EXTEND(16));
 		}
-- 
2.43.0


From da924f18ef27114dc6691948f72cb394857f0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 25/47] fix: executable allocators: integer overflow when the
 size is close to the address range

---
 sljit_src/allocator_src/sljitExecAllocatorCore.c      | 4 ++++
 sljit_src/allocator_src/sljitWXExecAllocatorPosix.c   | 3 +++
 sljit_src/allocator_src/sljitWXExecAllocatorWindows.c | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/sljit_src/allocator_src/sljitExecAllocatorCore.c b/sljit_src/allocator_src/sljitExecAllocatorCore.c
index 314483c..5a4767a 100644
--- a/sljit_src/allocator_src/sljitExecAllocatorCore.c
+++ b/sljit_src/allocator_src/sljitExecAllocatorCore.c
@@ -161,6 +161,10 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	sljit_sw executable_offset;
 #endif /* SLJIT_HAS_EXECUTABLE_OFFSET */
 
+	/* Avoids overflow when the size is rounded up. */
+	if (SLJIT_UNLIKELY(size > (~(sljit_uw)0 >> 1)))
+		return NULL;
+
 	if (size < (64 - sizeof(struct block_header)))
 		size = (64 - sizeof(struct block_header));
 	size = ALIGN_SIZE(size);
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
index 36d3014..a7a48ae 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorPosix.c
@@ -91,6 +91,9 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 	prot |= PROT_MAX(PROT_READ | PROT_WRITE | PROT_EXEC);
 #endif
 
+	if (SLJIT_UNLIKELY(size > (~(sljit_uw)0 >> 1)))
+		return NULL;
+
 	size += sizeof(sljit_uw);
 	ptr = (sljit_uw*)mmap(NULL, size, prot, MAP_PRIVATE | MAP_ANON, -1, 0);
 
diff --git a/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c b/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
index a9553bd..9de144c 100644
--- a/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
+++ b/sljit_src/allocator_src/sljitWXExecAllocatorWindows.c
@@ -57,6 +57,9 @@ SLJIT_API_FUNC_ATTRIBUTE void* sljit_malloc_exec(sljit_uw size)
 {
 	sljit_uw *ptr;
 
+	if (SLJIT_UNLIKELY(size > (~(sljit_uw)0 >> 1)))
+		return NULL;
+
 	size += sizeof(sljit_uw);
 	ptr = (sljit_uw*)VirtualAlloc(NULL, size,
 				MEM_COMMIT | MEM_RESERVE, PAGE_READWRITE);
-- 
2.43.0


From 91d4bc8b2df8430af91e37b7940946fc12c45a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 26/47] fix: x86-64: relative jump range check is off by one at
 both ends

---
 sljit_src/sljitNativeX86_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 8372029..75a7107 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -681,6 +681,9 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 	sljit_s32 short_jump;
 	sljit_uw label_addr;
 	sljit_uw jump_addr;
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+	sljit_sw near_diff;
+#endif /* SLJIT_CONFIG_X86_64 */
 
 	jump_addr = (sljit_uw)code_ptr;
 	if (!(jump->flags & JUMP_ADDR)) {
@@ -692,7 +695,9 @@ static sljit_u8* detect_near_jump_type(struct sljit_jump *jump, sljit_u8 *code_p
 		label_addr = jump->u.target - (sljit_uw)executable_offset;
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	if ((sljit_sw)(label_addr - (jump_addr + 6)) > HALFWORD_MAX || (sljit_sw)(label_addr - (jump_addr + 5)) < HALFWORD_MIN)
+	/* The conditional near jump is one byte longer. */
+	near_diff = (sljit_sw)(label_addr - (jump_addr + (type >= SLJIT_JUMP ? 5 : 6)));
+	if (near_diff > HALFWORD_MAX || near_diff < HALFWORD_MIN)
 		return detect_far_jump_type(jump, code_ptr);
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From 025d1f791db47657278039b3ad96127053b4971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 27/47] fix: x86-64: range check of relative address loads is
 off by three

---
 sljit_src/sljitNativeX86_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_64.c b/sljit_src/sljitNativeX86_64.c
index 8737d68..74260c3 100644
--- a/sljit_src/sljitNativeX86_64.c
+++ b/sljit_src/sljitNativeX86_64.c
@@ -408,7 +408,8 @@ static sljit_u8* generate_mov_addr_code(struct sljit_jump *jump, sljit_u8 *code_
 		addr = (sljit_uw)SLJIT_ADD_EXEC_OFFSET(code, executable_offset) + jump->u.label->size;
 
 	if (addr > 0xffffffffl) {
-		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr, executable_offset);
+		/* The lea instruction is three bytes shorter than the mov instruction. */
+		diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(code_ptr - (SSIZE_OF(s32) - 1), executable_offset);
 
 		if (diff <= HALFWORD_MAX && diff >= HALFWORD_MIN) {
 			SLJIT_ASSERT(((jump->flags >> JUMP_SIZE_SHIFT) & 0x1f) >= 7);
-- 
2.43.0


From 873a3bc3d538c79ff7d27455d59e6ccb8fad4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 28/47] fix: x86-64: wrong assertion for absolute addresses
 between 2 and 4 GB

---
 sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 75a7107..123a601 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -752,7 +752,7 @@ static void generate_jump_or_mov_addr(struct sljit_jump *jump, sljit_sw executab
 			addr -= (sljit_uw)SLJIT_ADD_EXEC_OFFSET((sljit_u8*)jump_addr, executable_offset);
 			SLJIT_ASSERT((sljit_sw)addr <= HALFWORD_MAX && (sljit_sw)addr >= HALFWORD_MIN);
 		} else {
-			SLJIT_ASSERT(addr <= HALFWORD_MAX);
+			SLJIT_ASSERT(addr <= 0xffffffffu);
 		}
 		sljit_unaligned_store_s32((void*)(jump_addr - sizeof(sljit_s32)), (sljit_s32)addr);
 #endif /* !SLJIT_CONFIG_X86_32 */
-- 
2.43.0


From ffc356c599c7bc5e70bcdb1712dc4454ba4f9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 29/47] fix: aarch64: wrong assertion for page relative jumps
 at the end of the range

---
 sljit_src/sljitNativeARM_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeARM_64.c b/sljit_src/sljitNativeARM_64.c
index f9c5549..34aad68 100644
--- a/sljit_src/sljitNativeARM_64.c
+++ b/sljit_src/sljitNativeARM_64.c
@@ -349,7 +349,7 @@ static SLJIT_INLINE void generate_jump_or_mov_addr(struct sljit_jump *jump, slji
 
 		if (jump->flags & PATCH_B32) {
 			addr -= (sljit_sw)SLJIT_ADD_EXEC_OFFSET(buf_ptr, executable_offset) & ~(sljit_sw)0xfff;
-			SLJIT_ASSERT(addr <= 0xfffff000l && addr >= -0x100000000l);
+			SLJIT_ASSERT(addr <= 0xffffffffl && addr >= -0x100000000l);
 			buf_ptr[0] = ADRP | (((sljit_ins)(addr >> 12) & 0x3) << 29) | (((sljit_ins)(addr >> 14) & 0x7ffff) << 5) | dst;
 			buf_ptr[1] = ADDI | dst | (dst << 5) | ((sljit_ins)(addr & 0xfff) << 10);
 			return;
-- 
2.43.0


From 8444634777d9fadeefa3cbe56c94a099bf615aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 30/47] fix: riscv: wrong assertion for absolute addresses
 close to 2 GB

---
 sljit_src/sljitNativeRISCV_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index f54319a..3c4f434 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -683,7 +683,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 #else /* !SLJIT_CONFIG_RISCV_32 */
 
 	if (flags & PATCH_ABS32) {
-		SLJIT_ASSERT(addr <= S32_MAX);
+		SLJIT_ASSERT(addr <= 0x7fffffffl);
 		ins = LUI | RD(reg) | (sljit_ins)((sljit_sw)addr & ~0xfff);
 		buf[0] = (sljit_u16)ins;
 		buf[1] = (sljit_u16)(ins >> 16);
-- 
2.43.0


From 18200fe25d7f8c945bf3b435291553c22e619e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 31/47] fix: riscv: 52 bit absolute addresses are wrong at the
 end of the range

---
 sljit_src/sljitNativeRISCV_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit_src/sljitNativeRISCV_common.c b/sljit_src/sljitNativeRISCV_common.c
index 3c4f434..95470e9 100644
--- a/sljit_src/sljitNativeRISCV_common.c
+++ b/sljit_src/sljitNativeRISCV_common.c
@@ -402,7 +402,7 @@ static const sljit_u8 vreg_map[SLJIT_NUMBER_OF_VECTOR_REGISTERS + 3] = {
 #define S32_MAX		(0x7ffff7ffl)
 #define S32_MIN		(-0x80000000l)
 #define S44_MAX		(0x7fffffff7ffl)
-#define S52_MAX		(0x7ffffffffffffl)
+#define S52_MAX		(0x7fffffffff7ffl)
 #endif /* SLJIT_CONFIG_RISCV_64 */
 
 #define C_ADDI_W(word)	(C_ADDI | (sljit_u16)((word) << 10))
@@ -722,7 +722,7 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 			high = ~high;
 
 		if (flags & PATCH_ABS52) {
-			SLJIT_ASSERT(addr <= S52_MAX);
+			SLJIT_ASSERT(addr <= 0x7ffffffffffffl);
 			ins = LUI | RD(TMP_REG3) | (sljit_ins)(high << 12);
 			buf[0] = (sljit_u16)ins;
 			buf[1] = (sljit_u16)(ins >> 16);
-- 
2.43.0


From 16cf4966059f50f6c4773ba0c86d008532781e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 32/47] fix: loongarch: pc relative far jumps are wrong when
 bit 11 of the offset is set

---
 sljit_src/sljitNativeLOONGARCH_64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index d45b595..e240768 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -547,7 +547,9 @@ static SLJIT_INLINE void load_addr_to_reg(struct sljit_jump *jump, sljit_sw exec
 
 		SLJIT_ASSERT((sljit_sw)addr >= S32_MIN && (sljit_sw)addr <= S32_MAX);
 
-		if ((addr & 0x800) != 0)
+		/* The offset of the addi.d instruction is a signed 12 bit value,
+		   the offset of the jirl instruction is a larger value. */
+		if ((flags & JUMP_MOV_ADDR) && (addr & 0x800) != 0)
 			addr += 0x1000;
 
 		ins[0] = PCADDU12I | RD(reg) | IMM_I20(addr);
-- 
2.43.0


From 4a6076bcd4b79d84f98365c98967e4f61f1bc896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 33/47] fix: loongarch: pc relative address loads are wrong at
 the end of the range

---
 sljit_src/sljitNativeLOONGARCH_64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeLOONGARCH_64.c b/sljit_src/sljitNativeLOONGARCH_64.c
index e240768..24f3cd2 100644
--- a/sljit_src/sljitNativeLOONGARCH_64.c
+++ b/sljit_src/sljitNativeLOONGARCH_64.c
@@ -512,7 +512,8 @@ static SLJIT_INLINE sljit_sw mov_addr_get_length(struct sljit_jump *jump, sljit_
 
 	diff = (sljit_sw)addr - (sljit_sw)SLJIT_ADD_EXEC_OFFSET(jump_addr, executable_offset);
 
-	if (diff >= S32_MIN && diff <= S32_MAX) {
+	/* The lower 12 bits are sign extended by addi.d. */
+	if (diff >= S32_MIN && diff <= S32_MAX - 0x800) {
 		SLJIT_ASSERT(jump->flags >= ((sljit_uw)1 << JUMP_SIZE_SHIFT));
 		jump->flags |= PATCH_REL32;
 		return 1;
-- 
2.43.0


From 72f1e5840108d379c0f93d870124bdd9736a604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 34/47] fix: x86: adding an absolute address must not modify
 the flags

---
 sljit_src/sljitNativeX86_common.c | 44 +++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 123a601..014d9ae 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5250,10 +5250,7 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 {
 	struct sljit_jump *jump;
 	sljit_u8 *inst;
-#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 	sljit_s32 reg;
-#endif /* SLJIT_CONFIG_X86_64 */
-	SLJIT_UNUSED_ARG(op);
 
 	CHECK_ERROR_PTR();
 	CHECK_PTR(check_sljit_emit_op_addr(compiler, op, dst, dstw));
@@ -5261,16 +5258,22 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 
 	CHECK_EXTRA_REGS(dst, dstw, (void)0);
 
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+	compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
+
+	if (op == SLJIT_ADD_ABS_ADDR && (dst & SLJIT_MEM))
+		PTR_FAIL_IF(emit_mov(compiler, TMP_REG1, 0, dst, dstw));
+
 	jump = (struct sljit_jump*)ensure_abuf(compiler, sizeof(struct sljit_jump));
 	PTR_FAIL_IF(!jump);
 	set_mov_addr(jump, compiler, 0);
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
-	compiler->mode32 = 0;
-	if (dst & SLJIT_MEM)
-		reg = TMP_REG1;
+	if (op == SLJIT_ADD_ABS_ADDR)
+		reg = TMP_REG2;
 	else
-		reg = (op != SLJIT_ADD_ABS_ADDR) ? dst : TMP_REG2;
+		reg = FAST_IS_REG(dst) ? dst : TMP_REG1;
 
 	PTR_FAIL_IF(emit_load_imm64(compiler, reg, 0));
 	jump->addr = compiler->size;
@@ -5279,13 +5282,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 		jump->flags |= MOV_ADDR_HI;
 #else /* !SLJIT_CONFIG_X86_64 */
 	if (op == SLJIT_ADD_ABS_ADDR) {
-		if (dst != SLJIT_R0) {
-			/* Must not be a signed byte argument. */
-			inst = emit_x86_instruction(compiler, 1 | EX86_BIN_INS, SLJIT_IMM, 0x100, dst, dstw);
-			PTR_FAIL_IF(!inst);
-			*(inst + 1) |= ADD;
-		} else
-			PTR_FAIL_IF(emit_do_imm(compiler, ADD_EAX_i32, 0));
+		reg = FAST_IS_REG(dst) ? dst : TMP_REG1;
+
+		/* The lea instruction does not modify the flags. Must not be a signed byte argument. */
+		inst = emit_x86_instruction(compiler, 1, reg, 0, SLJIT_MEM1(reg), 0x100);
+		PTR_FAIL_IF(!inst);
+		*inst = LEA_r_m;
 	} else {
 		PTR_FAIL_IF(emit_mov(compiler, dst, dstw, SLJIT_IMM, 0));
 	}
@@ -5298,10 +5300,18 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_jump* sljit_emit_op_addr(struct sljit_comp
 
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 	if (op == SLJIT_ADD_ABS_ADDR) {
-		inst = emit_x86_instruction(compiler, 1, reg, 0, dst, dstw);
+		reg = FAST_IS_REG(dst) ? dst : TMP_REG1;
+
+		/* The lea instruction does not modify the flags. */
+		inst = emit_x86_instruction(compiler, 1, reg, 0, SLJIT_MEM2(reg, TMP_REG2), 0);
 		PTR_FAIL_IF(!inst);
-		*inst = ADD_rm_r;
-	} else if (dst & SLJIT_MEM)
+		*inst = LEA_r_m;
+	}
+
+	if (dst & SLJIT_MEM)
+		PTR_FAIL_IF(emit_mov(compiler, dst, dstw, TMP_REG1, 0));
+#else /* !SLJIT_CONFIG_X86_64 */
+	if (op == SLJIT_ADD_ABS_ADDR && (dst & SLJIT_MEM))
 		PTR_FAIL_IF(emit_mov(compiler, dst, dstw, TMP_REG1, 0));
 #endif /* SLJIT_CONFIG_X86_64 */
 
-- 
2.43.0


From b23c7529d1245a7beb87616376a36cc5c0c38deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:52 +0000
Subject: [PATCH 35/47] fix: copysign on stack operands adjusted the offset
 twice

---
 sljit_src/sljitLir.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sljit_src/sljitLir.c b/sljit_src/sljitLir.c
index 14d1e95..b823a2d 100644
--- a/sljit_src/sljitLir.c
+++ b/sljit_src/sljitLir.c
@@ -3521,8 +3521,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_fop2r(struct sljit_compiler *compi
 {
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_fop2r(compiler, op, dst_freg, src1, src1w, src2, src2w));
-	ADJUST_LOCAL_OFFSET(src1, src1w);
-	ADJUST_LOCAL_OFFSET(src2, src2w);
 
 	SLJIT_SKIP_CHECKS(compiler);
 	return sljit_emit_fop2(compiler, op, dst_freg, 0, src1, src1w, src2, src2w);
-- 
2.43.0


From 8765cb437b0f3f346af6009909ad9df5405f2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 36/47] fix: regex characters above 127 never matched when char
 is signed

---
 regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 3f95469..79aa2e8 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -43,6 +43,13 @@
    which ends with [\r\n] character range. */
 #define REGEX_FAKE_MATCH_END	0x400
 
+/* The value of a character (never negative). */
+#ifdef REGEX_USE_8BIT_CHARS
+#define REGEX_CHAR_VALUE(chr)	((int)(unsigned char)(chr))
+#else
+#define REGEX_CHAR_VALUE(chr)	((int)(chr))
+#endif
+
 /* --------------------------------------------------------------------- */
 /*  Structures for JIT-ed pattern matching                               */
 /* --------------------------------------------------------------------- */
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = REGEX_CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = REGEX_CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = REGEX_CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = REGEX_CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -801,7 +808,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, REGEX_CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -901,7 +908,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, REGEX_CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From d0340e978e6b343c42d7267df6a01f0847f3ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 37/47] fix: allocation failures in the regex iterator were
 treated as success

---
 regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 79aa2e8..d546f0c 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 9518822433768ba5f3b1d545f1a9cc95341da565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 38/47] fix: regex match that ends at the end of the input was
 ignored after a match at a newline

---
 regex_src/regexJIT.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index d546f0c..d1e3db0 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2448,12 +2448,18 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+
+		/* The match which ends at the end of the input might be better. */
+		if (match->best_begin != -1) {
+			if (match->current[no_states + 2] > match->best_begin)
+				return (int)match->best_begin;
+			if ((flags & REGEX_MATCH_NON_GREEDY) && match->current[no_states + 2] == match->best_begin)
+				return (int)match->best_begin;
+		}
+
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From 4ed99c0f02d1929908911a1bb4d5927831d3a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 39/47] fix: regex newline anchors were applied only to one
 alternative of the pattern

---
 regex_src/regexJIT.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index d1e3db0..9d3ae1c 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -801,6 +801,12 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches must be applied to all alternatives of the pattern. */
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_open_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -921,6 +927,11 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if (compiler_common->flags & REGEX_NEWLINE) {
+		if (stack_push(stack, type_close_br, 0))
+			return REGEX_MEMORY_ERROR;
+	}
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From 2ac437d947cbd32dac4fcd622dd5a8114f18ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 40/47] fix: non-greedy regex that accepts an empty string
 could not be matched to the end of the input

---
 regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 9d3ae1c..6505ba7 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2269,7 +2269,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From ad09e04e4f03a7e2457967b1d7cdae141dc423ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 41/47] fix: anchored regex matched even if characters follow
 the match

---
 regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 6505ba7..b9e21ed 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2187,6 +2187,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* More characters might follow, which would invalidate this match. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From de74aad0a24a39b1cffb4e70d3ece9662fc22843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 42/47] fix: regex newline anchor at the end of the input
 returned a wrong begin position after fast forward

---
 regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index b9e21ed..2ebd7de 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2155,6 +2155,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 		EMIT_LABEL(label);
 		sljit_set_label(fast_forward_jump, label);
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, index), R_NEXT_HEAD, 0);
+		if (compiler_common.flags & REGEX_FAKE_MATCH_END) {
+			/* The start field of this location is needed by regex_get_result. */
+			EMIT_OP1(SLJIT_MOV, R_CURR_STATE, 0, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, current));
+			EMIT_OP2(SLJIT_SUB, SLJIT_MEM1(R_CURR_STATE), TERM_OFFSET_OF(1, 2), R_NEXT_HEAD, 0, SLJIT_IMM, 1);
+		}
 		EMIT_JUMP(fast_forward_jump, SLJIT_JUMP);
 	}
 
-- 
2.43.0


From c59a3333a8d395b0dac5d0cfe9b7cae082067100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 43/47] fix: resetting a regex match kept the result of the
 previous input

---
 regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regex_src/regexJIT.c b/regex_src/regexJIT.c
index 2ebd7de..dfbe92c 100644
--- a/regex_src/regexJIT.c
+++ b/regex_src/regexJIT.c
@@ -2444,6 +2444,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is not cleared when it is the only active state. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From 0a00ed59894f7ad4a60e43f1f1b32f8c65b34707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:08 +0000
Subject: [PATCH 44/47] fix: x86: simd op2 loaded only half of an unaligned 256
 bit memory operand

---
 sljit_src/sljitNativeX86_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 014d9ae..2a9be3b 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4936,7 +4936,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			mov_op |= VEX_256;
+
+		if (reg_size == 5 || use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From 779f478089f18fc6d3f10a263b905c628024868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:08 +0000
Subject: [PATCH 45/47] fix: x86-32: atomic byte store used an overwritten
 temporary register

---
 sljit_src/sljitNativeX86_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 2a9be3b..2fad692 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -5069,7 +5069,12 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_atomic_store(struct sljit_compiler
 			if (mem_reg == SLJIT_R0) {
 				EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_R1, 0);
 				EMIT_MOV(compiler, SLJIT_R1, 0, SLJIT_R0, 0);
-				EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
+				/* The R1 register has been overwritten. */
+				if (temp_reg == SLJIT_R1) {
+					EMIT_MOV(compiler, SLJIT_R0, 0, SLJIT_MEM1(SLJIT_SP), 0);
+				} else {
+					EMIT_MOV(compiler, SLJIT_R0, 0, temp_reg, tempw);
+				}
 
 				mem_reg = SLJIT_R1;
 				saved_reg = SLJIT_R1;
-- 
2.43.0


From c3f56d9fadb251766fd0498acab656bebef7164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:08 +0000
Subject: [PATCH 46/47] fix: x86-64: simd lane mov truncated 64 bit immediates

---
 sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit_src/sljitNativeX86_common.c b/sljit_src/sljitNativeX86_common.c
index 2fad692..58c0ac7 100644
--- a/sljit_src/sljitNativeX86_common.c
+++ b/sljit_src/sljitNativeX86_common.c
@@ -4343,6 +4343,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From 9e1cefaeae1e53168bc9147695594d25bd183d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:08 +0000
Subject: [PATCH 47/47] fix: mips: select did not support the atomic store
 result flags

---
 sljit_src/sljitNativeMIPS_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit_src/sljitNativeMIPS_common.c b/sljit_src/sljitNativeMIPS_common.c
index ef91b20..6bb8a28 100644
--- a/sljit_src/sljitNativeMIPS_common.c
+++ b/sljit_src/sljitNativeMIPS_common.c
@@ -3817,6 +3817,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_GREATER:
 	case SLJIT_OVERFLOW:
 	case SLJIT_CARRY:
+	case SLJIT_ATOMIC_STORED:
 		return (is_float ? MOVN_S : MOVN) | TA(OTHER_FLAG);
 	case SLJIT_GREATER_EQUAL:
 	case SLJIT_LESS_EQUAL:
@@ -3824,6 +3825,7 @@ static sljit_ins get_select_cc(sljit_s32 type, sljit_s32 is_float)
 	case SLJIT_SIG_LESS_EQUAL:
 	case SLJIT_NOT_OVERFLOW:
 	case SLJIT_NOT_CARRY:
+	case SLJIT_ATOMIC_NOT_STORED:
 		return (is_float ? MOVZ_S : MOVZ) | TA(OTHER_FLAG);
 	case SLJIT_F_EQUAL:
 	case SLJIT_F_LESS:
-- 
2.43.0

