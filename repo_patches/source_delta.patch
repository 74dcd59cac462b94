From a483e705151f0e0b01592183b5ce0d82ed6c4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 01/35] fix: do not keep values in the frame pointer across
 calls

CALLEE_SAVED_REG_IDS listed %rbp, so a second value live across a call
overwrote the frame pointer and later accesses to locals went astray.
---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..b187388 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
-- 
2.43.0


From 9c1988017ea86b725302a1e5e3f424fec7eb6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 02/35] fix: spell the 16-bit name of r13 correctly

---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index b187388..5d57002 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -18,7 +18,7 @@ char* BREG_NAMES[16] = {"%al",  "%bl",  "%cl",   "%dl",   "%spl",  "%bpl",  "%si
                         "%r8b", "%r9b", "%r10b", "%r11b", "%r12b", "%r13b", "%r14b", "%r15b"};
 
 char* WREG_NAMES[16] = {"%ax",  "%bx",  "%cx",   "%dx",   "%sp",   "%bp",   "%si",   "%di",
-                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13q", "%r14w", "%r15w"};
+                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13w", "%r14w", "%r15w"};
 
 char* LREG_NAMES[16] = {"%eax", "%ebx", "%ecx",  "%edx",  "%esp",  "%ebp",  "%esi",  "%edi",
                         "%r8d", "%r9d", "%r10d", "%r11d", "%r12d", "%r13d", "%r14d", "%r15d"};
-- 
2.43.0


From b27eb530f8e400161d6de028e1a670bd962e93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:36 +0000
Subject: [PATCH 03/35] fix: widen the comparison result from the register
 setcc wrote

gen_setcmp_common_x64code zero-extended the first operand's register
instead of the destination's, so the result was garbage whenever the two
differ.
---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From dd5c85a781e87ef248f7685bc91c518fa42269d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 04/35] fix: zero-extend unsigned 32-bit values to 64 bits

Widening between different registers emitted a movq with a 32-bit source,
which does not assemble, and widening in place relies on the upper half
being clear, which a narrowing move within one register did not ensure.
---
 src/x64gen/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..83b049d 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -25,7 +25,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // narrowing to 32 bits has to clear the upper 32 bits even if the register stays the same
+    int clears_upper_bits = src->suffix == X64_SUFFIX_QUAD && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !clears_upper_bits) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
@@ -39,11 +41,13 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         vector_push(codes, new_inst_x64(X64_INST_MOVZXX, src, dst));
         return;
     }
+    // writing the lower 32 bits of a register always clears its upper 32 bits
     if (src->reg_id == dst->reg_id) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
     }
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From a84a965c9172bf4712932ddd0de133d202521c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:32 +0000
Subject: [PATCH 05/35] fix: do not dereference the missing destination of a
 void call

Calling a function without a result while other values are live crashed
the compiler.
---
 src/x64gen/ctrlinst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..49aa358 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -142,7 +142,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
@@ -198,7 +198,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From 31baabd6405ca4dc1f61e6349c7727ec65e802d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:51 +0000
Subject: [PATCH 06/35] fix: shift unsigned values right logically

The right shift of an unsigned value was emitted as an arithmetic shift,
which fills with copies of the top bit.
---
 src/x64/inst.c         | 9 +++++----
 src/x64/inst.h         | 1 +
 src/x64gen/shrotinst.c | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..f9c4367 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,10 +11,10 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
-                            "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
-                            "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
-                            "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",
+                            "sete",   "setne",    "seta",     "setae",    "setb",   "setbe",  "setg",   "setge",
+                            "setl",   "setle",    "jmp",      "je",       "jne",    "ja",     "jae",    "jb",
+                            "jbe",    "jg",       "jge",      "jl",       "jle",    "call",   "ret"};
 
 X64Inst* new_x64inst(X64InstType type, X64Ope* src, X64Ope* dst) {
     X64Inst* x64inst = malloc(sizeof(X64Inst));
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..960340e 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -12,6 +12,12 @@ Vector* gen_sal_x64code(X64gen* x64gen) {
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+
+    if (immc_fst_src->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
-- 
2.43.0


From ead18b1f58eaed55153c471b5de82375e680c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 07/35] fix: keep live values when dividing by a literal

The literal divisor was always loaded into r10, destroying the value held
there when r10 was in use.
---
 src/x64gen/arithinst.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..aa5b173 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -167,7 +167,22 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
+            // the literal must not overwrite a live value: registers of fst_src and dst are free from now on
             snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+            if (set_contains(alive_regs_set, &snd_src_id)) {
+                if (fst_src_id != DX_REG_ID) {
+                    snd_src_id = fst_src_id;
+                } else if (dst_id != DX_REG_ID) {
+                    snd_src_id = dst_id;
+                } else {
+                    snd_src_id = CALLEE_SAVED_REG_IDS[0];
+                    if (x64gen->evacuation_count < 1) {
+                        x64gen->evacuation_count = 1;
+                    }
+                }
+            }
+            delete_set(alive_regs_set);
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-- 
2.43.0


From bd03036381866f3409c0e90aacf1c1d63193c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:37 +0000
Subject: [PATCH 08/35] fix: accept literals that do not fit a 32-bit immediate

64-bit instructions other than a move to a register encode only sign-extended
32-bit immediates, so wider literals produced code that does not assemble.
Such literals are now loaded into rax first.
---
 src/x64gen/arithinst.c | 14 +++++++++++++-
 src/x64gen/bitinst.c   |  2 +-
 src/x64gen/ctrlinst.c  |  2 +-
 src/x64gen/datainst.c  |  4 ++--
 src/x64gen/logicinst.c |  2 +-
 src/x64gen/util.c      | 21 +++++++++++++++++++++
 src/x64gen/util.h      |  2 ++
 7 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index aa5b173..38fc08f 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -40,7 +40,7 @@ Vector* gen_additive_subtractive_common_x64code(X64gen* x64gen, X64InstType type
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = new_imm_x64ope(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
@@ -96,6 +96,18 @@ Vector* gen_mul_x64code(X64gen* x64gen) {
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
+            if (!iliteral_isencodable(suffix, immc_snd_src->iliteral)) {
+                X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, fst_src_id);
+                X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
+                int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
+                append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
+
+                X64Ope* imm = new_imm_x64ope(codes, suffix, immc_snd_src->iliteral);
+                X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
+                vector_push(codes, new_inst_x64(X64_INST_IMULX, fst_src, imm));
+                break;
+            }
+
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
             int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 792f401..4dfd801 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -78,7 +78,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = new_imm_x64ope(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 49aa358..04fb774 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -93,7 +93,7 @@ Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = new_imm_x64ope(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..17d238f 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -206,7 +206,7 @@ Vector* gen_store_x64code(X64gen* x64gen) {
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
             X64Suffix src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_src->suffix));
-            src = new_int_x64ope(src_suffix, iliteral_copy(immc_src->iliteral));
+            src = new_imm_x64ope(codes, src_suffix, immc_src->iliteral);
             break;
         }
         case IMMC_OPERAND_REG: {
@@ -271,7 +271,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            X64Ope* src = new_imm_x64ope(codes, X64_SUFFIX_QUAD, immc_src->iliteral);
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
diff --git a/src/x64gen/logicinst.c b/src/x64gen/logicinst.c
index e6e3995..c7e70ac 100644
--- a/src/x64gen/logicinst.c
+++ b/src/x64gen/logicinst.c
@@ -95,7 +95,7 @@ Vector* gen_bitwise_binary_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = new_imm_x64ope(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 83b049d..4ab2248 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -7,6 +7,27 @@
 #include <stdlib.h>
 #include <string.h>
 
+X64Ope* new_imm_x64ope(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral) {
+    if (iliteral_isencodable(suffix, iliteral)) {
+        return new_int_x64ope(suffix, iliteral_copy(iliteral));
+    }
+    X64Ope* imm_dst = new_reg_x64ope(suffix, AX_REG_ID);
+    X64Ope* imm_src = new_int_x64ope(suffix, iliteral_copy(iliteral));
+    vector_push(codes, new_inst_x64(X64_INST_MOVABSX, imm_src, imm_dst));
+    return new_reg_x64ope(suffix, AX_REG_ID);
+}
+
+int iliteral_isencodable(X64Suffix suffix, IntegerLiteral* iliteral) {
+    // an immediate of 64-bit instructions other than mov to registers is a sign-extended 32-bit value
+    if (suffix != X64_SUFFIX_QUAD) {
+        return 1;
+    }
+    if (iliteral_isunsigned(iliteral)) {
+        return iliteral->unsigned_value <= 0x7fffffffULL || iliteral->unsigned_value >= 0xffffffff80000000ULL;
+    }
+    return -0x80000000LL <= iliteral->signed_value && iliteral->signed_value <= 0x7fffffffLL;
+}
+
 void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
     void append_mov_code_simple(Vector * codes, X64Ope * src, X64Ope * dst);
     void append_mov_code_unsigned(Vector * codes, X64Ope * src, X64Ope * dst);
diff --git a/src/x64gen/util.h b/src/x64gen/util.h
index 1c50e24..c923169 100644
--- a/src/x64gen/util.h
+++ b/src/x64gen/util.h
@@ -5,6 +5,8 @@
 #include "../vector/vector.h"
 #include "../x64/x64.h"
 
+X64Ope* new_imm_x64ope(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral);
+int iliteral_isencodable(X64Suffix suffix, IntegerLiteral* iliteral);
 void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned);
 void liveseqs_next(Vector* liveseqs);
 Set* create_alive_reg_induces_set(Vector* liveseqs);
-- 
2.43.0


From 1ef38430f16f9c497095e7d859f23af36ff14cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 09/35] fix: keep the stack 16-byte aligned in nested calls

Padding for a call only looked at its own stack arguments, so a call made
while arguments of an enclosing call were already pushed could run with a
misaligned stack.
---
 src/x64gen/ctrlinst.c | 17 ++++++++++++++---
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 04fb774..a0b503e 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -171,6 +171,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->pushed_count--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -283,7 +284,12 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    // keep the stack aligned on call even if arguments of enclosing calls are already pushed
+    int padding = (x64gen->pushed_count + num_mem_args) % 2;
+    vector_push(x64gen->paddings, new_integer(padding));
+    x64gen->pushed_count += padding;
+    if (padding > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -301,8 +307,13 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    int* padding_ref = vector_pop(x64gen->paddings);
+    int num_cleaned = num_mem_args + *padding_ref;
+    free(padding_ref);
+    x64gen->pushed_count -= num_cleaned;
+    if (num_cleaned > 0) {
+        int mem_param_offset = num_cleaned * 8;
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 17d238f..0c23376 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -286,6 +286,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
             exit(1);
     }
 
+    x64gen->pushed_count++;
     liveseqs_next(x64gen->liveseqs);
     return codes;
 }
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..39db229 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->pushed_count = 0;
+    x64gen->paddings = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -160,5 +162,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->paddings);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..67e5412 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int pushed_count;
+    Vector* paddings;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From d83f5cae6de9a960d174194b4697e2ac77254671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:17 +0000
Subject: [PATCH 10/35] fix: keep one entry per key in a map

---
 src/map/map.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..8133402 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,21 +81,41 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int found = 0;
+    int reusable_hash = -1;
+    while (cell != NULL) {
+        if (cell->deleted) {
+            if (reusable_hash < 0) {
+                reusable_hash = hash;
+            }
+        } else if (map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
         cell = map->container[hash];
     }
 
+    if (!found && reusable_hash >= 0) {
+        hash = reusable_hash;
+    }
+
+    cell = map->container[hash];
     if (cell != NULL) {
         delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
     }
     map->container[hash] = new_mapcell(key, value);
+    if (found) {
+        return;
+    }
     map->size++;
 
     int std_capacity = 2 * (map->size + 1) - 1;
-- 
2.43.0


From 58f68f9084e467bbc71036791df1dd29f60e0b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 11/35] fix: give every integer and string a non-negative hash

---
 src/common/type.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..bf64e56 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -1,5 +1,6 @@
 #include "./type.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -43,15 +44,17 @@ int* copy_integer(int* integer) {
 }
 
 int hash_integer(int* integer) {
+    unsigned int hash = *integer;
     if (*integer >= 0) {
-        return *integer * 2;
+        hash = hash * 2;
     } else {
-        return -(*integer) * 2 + 1;
+        hash = -hash * 2 + 1;
     }
+    return hash & INT_MAX;
 }
 
 int comp_integer(int* a, int* b) {
-    return *a - *b;
+    return (*a > *b) - (*a < *b);
 }
 
 char* new_string(char* str) {
@@ -66,7 +69,7 @@ int hash_string(char* str) {
 
     char* str_ptr = str;
     while (*str_ptr != '\0') {
-        hash = (*str_ptr * a + hash) % b;
+        hash = ((unsigned char)*str_ptr * a + hash) % b;
         str_ptr++;
     }
 
-- 
2.43.0


From 13bffc93ad98b70a974da639095f9624cfbbb777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:22 +0000
Subject: [PATCH 12/35] fix: promote enumeration operands to int

---
 src/resolver/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/conversion.c b/src/resolver/conversion.c
index dd5caba..720342f 100644
--- a/src/resolver/conversion.c
+++ b/src/resolver/conversion.c
@@ -103,7 +103,7 @@ Srt* perform_integer_promotion(Srt* srt) {
     if (srt->dtype == NULL || !dtype_isinteger(srt->dtype)) {
         return srt;
     }
-    if (srt->dtype->type == DTYPE_CHAR) {
+    if (srt->dtype->type == DTYPE_CHAR || srt->dtype->type == DTYPE_ENUM) {
         DType* dtype = new_integer_dtype(DTYPE_INT);
         return new_dtyped_srt(SRT_CAST_EXPR, dtype, 1, srt);
     }
-- 
2.43.0


From a2ab6823fe1a7ff76d5769e190ba7caa7ad16cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:45 +0000
Subject: [PATCH 13/35] fix: zero-initialise members and elements of every
 scalar type

---
 src/resolver/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..c9b4826 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,6 +1070,12 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
+        case DTYPE_ENUM:
         case DTYPE_POINTER:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
-- 
2.43.0


From 213da96bbc7a59f99f2edbfba9371e06301ce713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:46 +0000
Subject: [PATCH 14/35] fix: address memory through the register that holds the
 pointer

---
 src/immcgen/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..4e9a86a 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -181,7 +181,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-- 
2.43.0


From 039dc2178b9c4c6d77a0db7a948dde160ae53829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:05 +0000
Subject: [PATCH 15/35] fix: apply every conversion of nested casts and of cast
 expressions

---
 src/immcgen/declaration.c |  8 ++---
 src/immcgen/expression.c  | 17 ++++++++++
 src/immcgen/expression.h  |  1 +
 src/immcgen/immcgen.c     |  3 ++
 src/immcgen/util.c        | 66 +++++++++++++++------------------------
 src/immcgen/util.h        |  1 +
 6 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..c6e1709 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -263,11 +263,9 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
 
     Srt* srt = vector_at(immcgen->srt->children, 0);
     // TODO: support expression for global initializer
-    while (srt->type == SRT_CAST_EXPR) {
-        srt = vector_at(srt->children, 0);
-    }
-
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
+    IntegerLiteral* constant = create_constant_iliteral(srt);
+    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, constant);
+    delete_iliteral(constant);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..fc62daf 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,23 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+
+    if (immcgen->srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+
+    update_non_void_expr_register(immcgen, dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 4e9a86a..8d474b1 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -104,47 +104,15 @@ void update_void_expr_register(Immcgen* immcgen) {
 }
 
 ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
-    Srt* srt = immcgen->srt;
-    Srt* child_srt = vector_at(srt->children, index);
-
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
-    }
+    Srt* child_srt = vector_at(immcgen->srt->children, index);
 
-    if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
-        return new_int_immcope(suffix, iliteral);
+    IntegerLiteral* iliteral = create_constant_iliteral(child_srt);
+    if (iliteral != NULL) {
+        return new_int_immcope(immcsuffix_get(dtype_nbytes(child_srt->dtype)), iliteral);
     }
 
     append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
-        ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
-        return new_reg_immcope(immcgen->expr_reg_suffix, reg);
-    }
-
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
-
-    int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
-    ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
-
-    immcgen->next_reg_id++;
-    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
-    ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
-
-    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-    return immcope_copy(dst);
+    return new_reg_immcope(immcgen->expr_reg_suffix, immcreg_copy(immcgen->expr_reg));
 }
 
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index) {
@@ -191,17 +159,35 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
     return new_reg_immcope(suffix, new_immcreg(immcgen->next_reg_id, is_unsigned));
 }
 
+IntegerLiteral* create_constant_iliteral(Srt* srt) {
+    if (srt->type == SRT_ILITERAL_EXPR) {
+        return create_dtyped_iliteral(srt->dtype, srt->iliteral);
+    }
+    if (srt->type != SRT_CAST_EXPR || srt->dtype->type == DTYPE_VOID) {
+        return NULL;
+    }
+
+    IntegerLiteral* src_iliteral = create_constant_iliteral(vector_at(srt->children, 0));
+    if (src_iliteral == NULL) {
+        return NULL;
+    }
+    IntegerLiteral* iliteral = create_dtyped_iliteral(srt->dtype, src_iliteral);
+    delete_iliteral(src_iliteral);
+    return iliteral;
+}
+
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
-    int rank = dtype_scalar_rank(dtype);
+    int rank = dtype_scalar_rank(dtype), nbytes = dtype_nbytes(dtype);
 
     if (dtype_isunsignedinteger(dtype)) {
         unsigned long long value =
             iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 1);
-        return new_unsigned_iliteral(type, value);
+        return new_unsigned_iliteral(type, nbytes == 4 ? (unsigned int)value : value);
     } else {
         long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 0);
+        value = nbytes == 1 ? (signed char)value : nbytes == 4 ? (int)value : value;
         return new_signed_iliteral(type, value);
     }
-}
\ No newline at end of file
+}
diff --git a/src/immcgen/util.h b/src/immcgen/util.h
index 793adfd..89f0a4e 100644
--- a/src/immcgen/util.h
+++ b/src/immcgen/util.h
@@ -14,6 +14,7 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen);
+IntegerLiteral* create_constant_iliteral(Srt* srt);
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral);
 
 #endif
-- 
2.43.0


From ceef9eda94ccbaeda5a4cab9fd35c392123992d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:54 +0000
Subject: [PATCH 16/35] fix: advance past the trailing padding of an
 initialised local struct

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index c6e1709..e4bb782 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From 51b082bf380904619fd8f9a6d993e496b87811af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:19 +0000
Subject: [PATCH 17/35] fix: give a shift the promoted type of its left operand

---
 src/resolver/expression.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..876f615 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,12 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
-- 
2.43.0


From 1f6c37ec2df6169f3c675ee38a3dcc1012bd47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:21 +0000
Subject: [PATCH 18/35] fix: promote the integer operand of pointer arithmetic

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 876f615..302cbea 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -784,10 +784,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
         dtype = dtype_copy(rhs_srt->dtype);
+        lhs_srt = perform_integer_promotion(lhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
         return new_resolverret(srt);
     }
@@ -840,6 +842,7 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
@@ -1317,6 +1320,7 @@ ResolverReturn* resolve_subscription_expr(Resolver* resolver) {
     }
 
     dtype = dtype_copy(lhs_srt->dtype);
+    rhs_srt = perform_integer_promotion(rhs_srt);
     srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
     srt = new_dtyped_srt(SRT_INDIR_EXPR, dtype_copy(lhs_srt->dtype->dpointer->to_dtype), 1, srt);
     return new_resolverret(srt);
-- 
2.43.0


From 5b0f94b37380a5a7bd6a4a69992a4e31be549e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:39 +0000
Subject: [PATCH 19/35] fix: divide pointer differences as signed numbers

---
 src/immcgen/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index fc62daf..0ecaa5e 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -303,6 +303,7 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* fst_src = gen_child_reg_immcope(immcgen, codes, 0);
     ImmcOpe* snd_src = gen_child_reg_immcope(immcgen, codes, 1);
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    dst->reg->is_unsigned = 0;
 
     Srt* lhs_srt = vector_at(srt->children, 0);
     int nbytes = dtype_nbytes(lhs_srt->dtype->dpointer->to_dtype);
-- 
2.43.0


From 00e4d7ad77e6df88339109455afe57c4e08c8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:53 +0000
Subject: [PATCH 20/35] fix: keep bytes above 127 in strings

---
 src/literal/sliteral.c | 2 +-
 src/x64gen/datainst.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..b874b6e 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -102,7 +102,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
                 len += 2;
                 break;
             default:
-                sprintf(display_string + len, "\\%03o", c);
+                sprintf(display_string + len, "\\%03o", (unsigned char)c);
                 len += 4;
                 break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 0c23376..c88cee3 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 8ce208b1daeb2548601a570264a6f7a68d8e8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:08 +0000
Subject: [PATCH 21/35] fix: keep a local string initialiser inside its
 variable

---
 src/x64gen/datainst.c | 82 +++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index c88cee3..44916c5 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -128,48 +128,52 @@ Vector* gen_str_x64code(X64gen* x64gen) {
         index_offset += unit_size;
     }
 
-    int num_rest_bytes = immc_src->sliteral->size - index_offset;
-
-    if (num_rest_bytes == 0) {
-        liveseqs_next(x64gen->liveseqs);
-        return codes;
-    }
-
-    int boundary_rest_bytes = 0;
-    IntegerLiteralType iliteral_type = INTEGER_UNSIGNED_INT;
-    if (num_rest_bytes <= 1) {
-        boundary_rest_bytes = 1;
-        iliteral_type = INTEGER_UNSIGNED_INT;
-    } else if (num_rest_bytes <= 2) {
-        boundary_rest_bytes = 2;
-        iliteral_type = INTEGER_UNSIGNED_INT;
-    } else if (num_rest_bytes <= 4) {
-        boundary_rest_bytes = 4;
-        iliteral_type = INTEGER_UNSIGNED_INT;
-    } else {
-        boundary_rest_bytes = 8;
-        iliteral_type = INTEGER_UNSIGNED_LONG;
-    }
+    while (index_offset < immc_src->sliteral->size) {
+        int num_rest_bytes = immc_src->sliteral->size - index_offset;
+        int boundary_rest_bytes = 0;
+        IntegerLiteralType iliteral_type = INTEGER_UNSIGNED_INT;
+        if (num_rest_bytes <= 1) {
+            boundary_rest_bytes = 1;
+            iliteral_type = INTEGER_UNSIGNED_INT;
+        } else if (num_rest_bytes <= 2) {
+            boundary_rest_bytes = 2;
+            iliteral_type = INTEGER_UNSIGNED_INT;
+        } else if (num_rest_bytes <= 4) {
+            boundary_rest_bytes = 4;
+            iliteral_type = INTEGER_UNSIGNED_INT;
+        } else {
+            boundary_rest_bytes = 8;
+            iliteral_type = INTEGER_UNSIGNED_LONG;
+        }
+        // the area of a variable ends at a multiple of 4
+        if (boundary_rest_bytes > num_rest_bytes && mem_offset % 4 != 0) {
+            boundary_rest_bytes /= 2;
+            num_rest_bytes = boundary_rest_bytes;
+        }
 
-    X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
-    unsigned long long unit_value = 0ull;
-    for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
-        unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
-    }
+        X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
+        unsigned long long unit_value = 0ull;
+        for (int i = 0; i < num_rest_bytes; i++) {
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
+            unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
+        }
 
-    if (suffix == X64_SUFFIX_QUAD) {
-        X64Ope* imm_dst = new_reg_x64ope(X64_SUFFIX_QUAD, tmp_reg_id);
-        X64Ope* imm_src = new_unsigned_int_x64ope(X64_SUFFIX_QUAD, iliteral_type, unit_value);
-        vector_push(codes, new_inst_x64(X64_INST_MOVABSX, imm_src, imm_dst));
+        if (suffix == X64_SUFFIX_QUAD) {
+            X64Ope* imm_dst = new_reg_x64ope(X64_SUFFIX_QUAD, tmp_reg_id);
+            X64Ope* imm_src = new_unsigned_int_x64ope(X64_SUFFIX_QUAD, iliteral_type, unit_value);
+            vector_push(codes, new_inst_x64(X64_INST_MOVABSX, imm_src, imm_dst));
+
+            X64Ope* mem_dst = new_mem_x64ope(mem_offset);
+            X64Ope* mem_src = new_reg_x64ope(X64_SUFFIX_QUAD, tmp_reg_id);
+            vector_push(codes, new_inst_x64(X64_INST_MOVX, mem_src, mem_dst));
+        } else {
+            X64Ope* dst = new_mem_x64ope(mem_offset);
+            X64Ope* src = new_unsigned_int_x64ope(suffix, iliteral_type, unit_value);
+            vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
+        }
 
-        X64Ope* mem_dst = new_mem_x64ope(mem_offset);
-        X64Ope* mem_src = new_reg_x64ope(X64_SUFFIX_QUAD, tmp_reg_id);
-        vector_push(codes, new_inst_x64(X64_INST_MOVX, mem_src, mem_dst));
-    } else {
-        X64Ope* dst = new_mem_x64ope(mem_offset);
-        X64Ope* src = new_unsigned_int_x64ope(suffix, iliteral_type, unit_value);
-        vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
+        mem_offset -= boundary_rest_bytes;
+        index_offset += boundary_rest_bytes;
     }
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From 29b294f1d1bdf87aad7f8400d2620ea5da00a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:37 +0000
Subject: [PATCH 22/35] fix: size assembly text buffers by the names and
 strings they hold

---
 src/x64/data.c  |  4 ++--
 src/x64/inst.c  | 12 +++++++++---
 src/x64/label.c |  6 +++---
 src/x64/ope.c   |  4 ++--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..0196880 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,8 +45,8 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    int sliteral_size = x64data->sliteral != NULL ? x64data->sliteral->size : 0;
+    char* data_str = malloc((4 * sliteral_size + 200) * sizeof(char));
     char* display_str = NULL;
 
     switch (x64data->type) {
diff --git a/src/x64/inst.c b/src/x64/inst.c
index f9c4367..28bbbda 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,9 +41,15 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
+    int code_size = 200;
+    if (x64inst->src != NULL && x64inst->src->label_name != NULL) {
+        code_size += strlen(x64inst->src->label_name);
+    }
+    if (x64inst->dst != NULL && x64inst->dst->label_name != NULL) {
+        code_size += strlen(x64inst->dst->label_name);
+    }
+    char* code_str = malloc(code_size * sizeof(char));
+    memset(code_str, 0, code_size * sizeof(char));
 
     char* instcode_string = x64instcode_tostring(x64inst);
     strcat(code_str, "\t");
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..513cf13 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,9 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    int label_size = 2 * strlen(x64label->name) + 200;
+    char* label_str = malloc(label_size * sizeof(char));
+    memset(label_str, 0, label_size * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..0dd7b64 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,8 +103,8 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int label_len = x64ope->label_name != NULL ? strlen(x64ope->label_name) : 0;
+    char* ope_str = malloc((label_len + 50) * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-- 
2.43.0


From 3dd488155da48dc04983d88f7318e78238728f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:38 +0000
Subject: [PATCH 23/35] fix: emit the alert character as an escape the
 assembler knows

---
 src/x64/data.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 0196880..75b5315 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -48,6 +48,7 @@ char* x64data_tostring(X64Data* x64data) {
     int sliteral_size = x64data->sliteral != NULL ? x64data->sliteral->size : 0;
     char* data_str = malloc((4 * sliteral_size + 200) * sizeof(char));
     char* display_str = NULL;
+    int len = 0;
 
     switch (x64data->type) {
         case X64_DATA_BYTE:
@@ -76,8 +77,21 @@ char* x64data_tostring(X64Data* x64data) {
             free(display_str);
             break;
         case X64_DATA_STR:
+            // the assembler does not know the escape sequence of alert
             display_str = sliteral_display_string(x64data->sliteral);
-            sprintf(data_str, "\t.ascii\t%s\n", display_str);
+            len = sprintf(data_str, "\t.ascii\t");
+            for (char* c = display_str; *c != '\0'; c++) {
+                if (c[0] == '\\' && c[1] == 'a') {
+                    len += sprintf(data_str + len, "\\007");
+                    c++;
+                    continue;
+                }
+                data_str[len++] = *c;
+                if (*c == '\\') {
+                    data_str[len++] = *++c;
+                }
+            }
+            sprintf(data_str + len, "\n");
             free(display_str);
             break;
     }
-- 
2.43.0


From 63b360dcd92a3666f7f059501ed9ac2134fc339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:32 +0000
Subject: [PATCH 24/35] fix: read source bytes above 127 as characters

---
 src/lexer/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..7b0d9df 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
-- 
2.43.0


From 82ddc2f47e072cc29d2331fc0d3b07ff4a3cb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:32 +0000
Subject: [PATCH 25/35] fix: report a character or string constant cut off by
 the end of input

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..b2cf2cd 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -118,6 +118,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\n':
             err = new_error("newline appeared in character constant");
             break;
+        case EOF:
+            err = new_error("end of file appeared in character constant");
+            break;
         case '\'':
             err = new_error("character constant is empty");
             break;
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("end of file appeared in character constant");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("end of file appeared in string literal");
+                break;
             default:
                 break;
         }
-- 
2.43.0


From e2a71c91c008dc08dc8c1a37fb43d1727bfb5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:49 +0000
Subject: [PATCH 26/35] fix: give a character constant the value of its char

---
 src/resolver/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 302cbea..7dc3afa 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1662,7 +1662,7 @@ ResolverReturn* resolve_character_expr(Resolver* resolver) {
     Ast* ast = resolver->ast;
 
     DType* dtype = new_integer_dtype(DTYPE_INT);
-    IntegerLiteral* iliteral = iliteral_copy(ast->iliteral);
+    IntegerLiteral* iliteral = new_signed_iliteral(INTEGER_INT, (signed char)ast->iliteral->signed_value);
     srt = new_iliteral_srt(dtype, iliteral);
     return new_resolverret(srt);
 }
-- 
2.43.0


From 020ea5ee21139313b6467554dea960539bd85853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:09 +0000
Subject: [PATCH 27/35] fix: give an integer constant the first type that
 represents it

---
 src/lexer/util.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 7b0d9df..a749051 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -208,12 +208,23 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    unsigned long long unsigned_value = strtoull(value, NULL, base);
+
+    // the type is the first one of the list for the base and the suffix that can represent the value
+    int suffix_isunsigned = iliteral_type_isunsigned(type);
+    while (type < INTEGER_UNSIGNED_LONGLONG) {
+        int num_value_bits = 8 * iliteral_type_nbytes(type) - !iliteral_type_isunsigned(type);
+        if ((suffix_isunsigned || base != 10 || !iliteral_type_isunsigned(type)) &&
+            (!suffix_isunsigned || iliteral_type_isunsigned(type)) && unsigned_value >> (num_value_bits - 1) <= 1) {
+            break;
+        }
+        type++;
+    }
+
     if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
         return new_unsigned_iliteral(type, unsigned_value);
     } else {
-        long long signed_value = strtoll(value, NULL, base);
-        return new_signed_iliteral(type, signed_value);
+        return new_signed_iliteral(type, unsigned_value);
     }
 }
 
-- 
2.43.0


From 58b3cbf43d6ef23fad0a2d880bc15d5d6664befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:25 +0000
Subject: [PATCH 28/35] fix: let arrays and functions decay under a cast

---
 src/resolver/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 7dc3afa..b67370f 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -967,6 +967,9 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    child_srt = convert_to_ptr_if_array(child_srt);
+    child_srt = convert_to_ptr_if_function(child_srt);
+
     if (dtype->type != DTYPE_VOID && (!dtype_isscalar(dtype) || !dtype_isscalar(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("cast should be from an any type to void or from a scalar type to scalar type");
-- 
2.43.0


From 08cd619355de669fa58e4ab02a936286659bd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:19 +0000
Subject: [PATCH 29/35] fix: size error messages by their content

---
 src/error/error.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..4be40e4 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
+    int length = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((length + 1) * sizeof(char));
+    va_start(arg, format);
     vsprintf(message, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
-- 
2.43.0


From d858a8313a9d101a90e03dafe7108733e421f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:21 +0000
Subject: [PATCH 30/35] fix: copy a typedef whose type is not yet connected

---
 src/dtype/typedef.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dtype/typedef.c b/src/dtype/typedef.c
index ef42674..6f7ad98 100644
--- a/src/dtype/typedef.c
+++ b/src/dtype/typedef.c
@@ -18,7 +18,10 @@ DTypedef* new_socket_dtypedef(void) {
 
 DTypedef* dtypedef_copy(DTypedef* dtypedef) {
     DTypedef* copied_dtypedef = malloc(sizeof(DTypedef));
-    copied_dtypedef->defined_dtype = dtype_copy(dtypedef->defined_dtype);
+    copied_dtypedef->defined_dtype = NULL;
+    if (dtypedef->defined_dtype != NULL) {
+        copied_dtypedef->defined_dtype = dtype_copy(dtypedef->defined_dtype);
+    }
     return copied_dtypedef;
 }
 
-- 
2.43.0


From f38920242db3e1f4d7aa793501b075f0cbff3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 31/35] fix: advance past the first live range when the next
 one already starts

With ranges [0,1) and [1,2) the cursor moved to the first range at position 1
and the register was reported free there although the second range covers it.
---
 src/liveseq/liveseq.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/liveseq/liveseq.c b/src/liveseq/liveseq.c
index 231ebdb..c860b56 100644
--- a/src/liveseq/liveseq.c
+++ b/src/liveseq/liveseq.c
@@ -52,10 +52,10 @@ void liveseq_goto_next(Liveseq* liveseq) {
 
     if (liveseq->liveness_index < 0) {
         Liveness* first_liveness = vector_at(liveseq->livenesses, 0);
-        if (index >= first_liveness->first_def_index) {
-            liveseq->liveness_index = 0;
+        if (index < first_liveness->first_def_index) {
+            return;
         }
-        return;
+        liveseq->liveness_index = 0;
     }
 
     Liveness* liveness = vector_at(liveseq->livenesses, liveseq->liveness_index);
-- 
2.43.0


From d4e07804aaa41dd29df24eda18feb5b57b120e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 32/35] fix: treat jlt and jleq as jump instructions

---
 src/immc/immc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immc/immc.c b/src/immc/immc.c
index 69f5786..e416180 100644
--- a/src/immc/immc.c
+++ b/src/immc/immc.c
@@ -73,7 +73,7 @@ Immc* immc_copy(Immc* immc) {
 }
 
 int immc_isjumpinst(Immc* immc) {
-    return immc->type == IMMC_INST && (IMMC_INST_JMP <= immc->inst->type && immc->inst->type <= IMMC_INST_JGEQ);
+    return immc->type == IMMC_INST && (IMMC_INST_JMP <= immc->inst->type && immc->inst->type <= IMMC_INST_JLEQ);
 }
 
 char* immc_tostring(Immc* immc) {
-- 
2.43.0


From ede549a812b10a2c22577c08d520e3d66f4e9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:18 +0000
Subject: [PATCH 33/35] fix: let an array decay before an arrow member access

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index b67370f..295d28f 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1400,6 +1400,10 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    if (ast->type == AST_TOMEMBER_EXPR) {
+        lhs_srt = convert_to_ptr_if_array(lhs_srt);
+    }
+
     if (ast->type == AST_TOMEMBER_EXPR &&
         (lhs_srt->dtype->type != DTYPE_POINTER || lhs_srt->dtype->dpointer->to_dtype->type != DTYPE_STRUCT)) {
         errs = new_vector(&t_error);
-- 
2.43.0


From d5cedaf4c9f438007769bbb45dab1b1204699653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:07 +0000
Subject: [PATCH 34/35] fix: report a source file that cannot be read instead
 of crashing

---
 src/freader/freader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..e4e7825 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,5 +1,6 @@
 #include "./freader.h"
 
+#include <limits.h>
 #include <stdlib.h>
 
 FileReader* new_freader(FILE* file_ptr) {
@@ -14,7 +15,7 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     fseek(freader->file_ptr, 0, SEEK_END);
     long file_size = ftell(freader->file_ptr);
-    if (file_size <= 0) {
+    if (file_size <= 0 || file_size == LONG_MAX) {
         err = new_error("fail to read content of file");
         return new_freaderret_error(err);
     }
@@ -23,6 +24,11 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     file_content = malloc(file_size + 1);
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    if (ferror(freader->file_ptr)) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_content[file_size] = '\0';
 
     file_content = realloc(file_content, file_size + 1);
-- 
2.43.0


From 61e6062519d78f13ced946fdf8aa939e71f7f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:22 +0000
Subject: [PATCH 35/35] fix: report an output file that cannot be written

---
 src/main.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index c6ae2ec..bb705e3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,7 +102,12 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
-    free(dst_filename);
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: cannot be written\n", dst_filename);
+        free(dst_filename);
+        delete_vector(x64codes);
+        return 1;
+    }
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
@@ -110,9 +115,16 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
-
     delete_vector(x64codes);
 
+    int is_failed = ferror(dst);
+    if (fclose(dst) != 0 || is_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: cannot be written\n", dst_filename);
+        free(dst_filename);
+        return 1;
+    }
+
+    free(dst_filename);
+
     return 0;
 }
-- 
2.43.0

