From 840899f9ee51e4da937c93a3743da1eb58595174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 01/74] fix: sign-extend LEB128 immediates of more than 32 bits

---
 pwart/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/util.c b/pwart/util.c
index 2bcd459..a9801cc 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -89,7 +89,7 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     }
     if (sign && (shift < maxbits) && (byte & 0x40)) {
         // Sign extend
-        result |= - (1 << shift);
+        result |= - ((uint64_t)1 << shift);
     }
     return result;
 }
-- 
2.43.0


From 00a6f573986402ddb0a4d9535ba95f2f68641b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 02/74] fix: copysign takes the magnitude of its first and the
 sign of its second operand

---
 pwart/extfunc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7bce97..d7078e1 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -228,7 +228,7 @@ static void insn_f32min(float *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f32copysign(float *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
@@ -238,7 +238,7 @@ static void insn_f64min(double *fp){
   *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
 }
 static void insn_f64copysign(double *fp){
-  *fp = signbit(*fp) ? -fabs(*(fp + 1)) : fabs(*(fp + 1));
+  *fp = copysign(*fp, *(fp + 1));
 }
 
 static void insn_i32truncf32u(uint32_t *fp){
-- 
2.43.0


From 3c4c63381989588f7a97b19139f8a882e40cbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 03/74] fix: rotate by zero does not shift by the operand width

---
 pwart/extfunc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d7078e1..6182dcd 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -191,26 +191,26 @@ static void insn_i32rotl(uint32_t *fp){
   uint32_t x = *fp;
   uint32_t y = *(fp + 1);
   y = y & 31;
-  *fp = (x << y) | (x >> (32 - y));
+  *fp = (x << y) | (x >> ((32 - y) & 31));
 }
 static void insn_i32rotr(uint32_t *fp){
   uint32_t x = *fp;
   uint32_t y = *(fp + 1);
   y = y & 31;
-  *fp = (x >> y) | (x << (32 - y));
+  *fp = (x >> y) | (x << ((32 - y) & 31));
 }
 
 static void insn_i64rotl(uint64_t *fp){
   uint64_t x = *fp;
   uint64_t y = *(fp + 1);
   y = y & 63;
-  *fp = (x << y) | (x >> (64 - y));
+  *fp = (x << y) | (x >> ((64 - y) & 63));
 }
 static void insn_i64rotr(uint64_t *fp){
   uint64_t x = *fp;
   uint64_t y = *(fp + 1);
   y = y & 63;
-  *fp = (x >> y) | (x << (64 - y));
+  *fp = (x >> y) | (x << ((64 - y) & 63));
 }
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-- 
2.43.0


From af7e20bbb491c2d326bf7984f67706efe8a4529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 04/74] fix: float min/max propagate NaN and order signed zeros

---
 pwart/extfunc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 6182dcd..96b0157 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -221,21 +221,27 @@ static void insn_i64shl(uint64_t *fp){ *fp = (*fp) << (*(fp + 1)); }
 static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 static void insn_i64shru(uint64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
 
+// NaN if either operand is NaN, and -0 is less than +0.
+#define FLOAT_MAX(a, b) (((a) != (a) || (b) != (b)) ? (a) + (b) : \
+  (a) == (b) ? (signbit(a) ? (b) : (a)) : (a) > (b) ? (a) : (b))
+#define FLOAT_MIN(a, b) (((a) != (a) || (b) != (b)) ? (a) + (b) : \
+  (a) == (b) ? (signbit(a) ? (a) : (b)) : (a) < (b) ? (a) : (b))
+
 static void insn_f32max(float *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  *fp = FLOAT_MAX(*fp, *(fp + 1));
 }
 static void insn_f32min(float *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  *fp = FLOAT_MIN(*fp, *(fp + 1));
 }
 static void insn_f32copysign(float *fp){
   *fp = copysignf(*fp, *(fp + 1));
 }
 
 static void insn_f64max(double *fp){
-  *fp = (*fp) > *(fp + 1) ? (*fp) : *(fp + 1);
+  *fp = FLOAT_MAX(*fp, *(fp + 1));
 }
 static void insn_f64min(double *fp){
-  *fp = (*fp) < *(fp + 1) ? (*fp) : *(fp + 1);
+  *fp = FLOAT_MIN(*fp, *(fp + 1));
 }
 static void insn_f64copysign(double *fp){
   *fp = copysign(*fp, *(fp + 1));
-- 
2.43.0


From df9695e7d9afdc013ce5c7145ef8a0c6be78484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 05/74] fix: i64.clz, i64.ctz and i64.popcnt write all 64 bits
 of their result

---
 pwart/extfunc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 96b0157..ba9402a 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -25,9 +25,9 @@ static void insn_i64clz(void *fp){
       x >>= 4, c -= 4;
     if (x >> 2)
       x >>= 2, c -= 2;
-    *(uint32_t *)fp = c - (x >> 1);
+    *(uint64_t *)fp = c - (x >> 1);
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64ctz(void *fp){
@@ -46,9 +46,9 @@ static void insn_i64ctz(void *fp){
       x <<= 2, c -= 2;
     if (x << 1)
       c -= 1;
-    *(uint32_t *)fp = c;
+    *(uint64_t *)fp = c;
   } else {
-    *(uint32_t *)fp = 64;
+    *(uint64_t *)fp = 64;
   }
 }
 static void insn_i64popcount(void *fp){
@@ -56,7 +56,7 @@ static void insn_i64popcount(void *fp){
   x -= (x & 0xaaaaaaaaaaaaaaaaull) >> 1;
   x = (x & 0x3333333333333333ull) + ((x & 0xccccccccccccccccull) >> 2);
   x = ((x * 0x11) & 0xf0f0f0f0f0f0f0f0ull) >> 4;
-  *(uint32_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
+  *(uint64_t *)fp = (uint32_t)((x * 0x0101010101010101ull) >> 56);
 }
 
 static void insn_i32clz(void *fp){
-- 
2.43.0


From 3e93d575a6e0bbe6044ef7b5e93a01c766b554d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 06/74] fix: i64.extend16_s and i64.extend32_s extend from 16
 and 32 bits

---
 pwart/opgen_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 5cb9b74..7c43ed0 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -1294,7 +1294,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr2, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S16, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
@@ -1307,7 +1307,7 @@ static void opgen_GenConvertOp(ModuleCompiler *m,int opcode){
                      sv->val.tworeg.opr1, 0, SLJIT_IMM, 31);
     } else {
       a = pwart_GetFreeReg(m, RT_INTEGER, 1);
-      sljit_emit_op1(m->jitc, SLJIT_MOV_S8, a, 0, sv->val.op, sv->val.opw);
+      sljit_emit_op1(m->jitc, SLJIT_MOV_S32, a, 0, sv->val.op, sv->val.opw);
       sv->val.op = a;
       sv->val.opw = 0;
     }
-- 
2.43.0


From 0f28a0c89a60757502d77d3c927d9ef0dc88eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 07/74] fix: zero-initialise all 8 bytes of f64 locals

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 5be0754..358e6d1 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -758,7 +758,7 @@ static char* pwart_EmitFuncEnter(ModuleCompiler *m) {
         opgen_GenF32Const(m,(uint8_t *)&f32zero);
         break;
         case WVT_F64:
-        opgen_GenF32Const(m,(uint8_t *)&f64zero);
+        opgen_GenF64Const(m,(uint8_t *)&f64zero);
         break;
         case WVT_I32:
         opgen_GenI32Const(m,0);
-- 
2.43.0


From 6fa88b30e337debb5ac6f19c5e6435c89db7ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 08/74] fix: do not allocate a float register past the last
 scratch one

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 358e6d1..f08778c 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -564,7 +564,7 @@ static sljit_s32 pwart_GetFreeReg(ModuleCompiler *m, sljit_s32 regtype, int upst
     }
   } else {
     for (fr = SLJIT_FR0;
-         fr <= SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
+         fr < SLJIT_FR0 + SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS; fr++) {
       if (m->float_registers_status[fr - SLJIT_FR0] & RS_RESERVED) {
         continue;
       }
-- 
2.43.0


From f3ea61ee1dddafa9bfceff54b71275fc85f4d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 09/74] fix: rem_s of the minimum integer by -1 is 0 instead of
 a hardware fault

---
 pwart/extfunc.c   | 2 +-
 pwart/opgen_num.c | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index ba9402a..ca273bc 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -215,7 +215,7 @@ static void insn_i64rotr(uint64_t *fp){
 static void insn_i64mul(uint64_t *fp){ *fp = (*fp) * (*(fp + 1)); }
 static void insn_i64divs(int64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
 static void insn_i64divu(uint64_t *fp){ *fp = (*fp) / (*(fp + 1)); }
-static void insn_i64rems(int64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
+static void insn_i64rems(int64_t *fp){ *fp = *(fp + 1) == -1 ? 0 : (*fp) % (*(fp + 1)); }
 static void insn_i64remu(uint64_t *fp){ *fp = (*fp) % (*(fp + 1)); }
 static void insn_i64shl(uint64_t *fp){ *fp = (*fp) << (*(fp + 1)); }
 static void insn_i64shrs(int64_t *fp){ *fp = (*fp) >> (*(fp + 1)); }
diff --git a/pwart/opgen_num.c b/pwart/opgen_num.c
index 7c43ed0..74ff92e 100644
--- a/pwart/opgen_num.c
+++ b/pwart/opgen_num.c
@@ -316,6 +316,13 @@ static void opgen_GenCompareOp(ModuleCompiler *m,int opcode){
   }
 }
 
+//rem_s by -1 is 0 for every dividend, but the divide instruction may raise overflow for the minimum one, so divide 0 instead.
+static void opgen_GenRemSAvoidOverflow(ModuleCompiler *m,int32_t cmpflag){
+  struct sljit_jump *jump=sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL|cmpflag, SLJIT_R1, 0, SLJIT_IMM, -1);
+  sljit_emit_op1(m->jitc, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0);
+  sljit_set_label(jump, sljit_emit_label(m->jitc));
+}
+
 static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
   StackValue *sv, *sv2;
   int32_t a, b;
@@ -513,6 +520,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
         pwart_EmitLoadReg(m, sv2, SLJIT_R1);
       }
       a = SLJIT_R1;
+      opgen_GenRemSAvoidOverflow(m,SLJIT_32);
       sljit_emit_op0(m->jitc, SLJIT_DIVMOD_S32);
     } break;
     case 0x70: // i32.rem_u
@@ -657,6 +665,7 @@ static void opgen_GenArithmeticOp(ModuleCompiler *m,int opcode){
           pwart_EmitLoadReg(m, sv2, SLJIT_R1);
         }
         a = SLJIT_R1;
+        opgen_GenRemSAvoidOverflow(m,0);
         sljit_emit_op0(m->jitc, SLJIT_DIVMOD_SW);
       } break;
       case 0x82: // i64.rem_u
-- 
2.43.0


From d79955128904591ab4485d90f4cf8abb25c39b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 10/74] fix: read the memory index before the offset in a
 memory operand when scanning a function

---
 pwart/wagen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/wagen.c b/pwart/wagen.c
index 2a0a59f..f05d7ac 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -224,8 +224,8 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     case 0x28:  case 0x29:  case 0x2a:  case 0x2b:  case 0x2c:  case 0x2d:  case 0x2e:  case 0x2f:  case 0x30:  case 0x31:  case 0x32:  case 0x33:  case 0x34:  case 0x35:  case 0x36:  case 0x37:  case 0x38:  case 0x39:  case 0x3a:  case 0x3b:  case 0x3c:  case 0x3d:  case 0x3e: 
       midx=0;
       arg = read_LEB(m->bytes, &m->pc, 32);
-      offset = read_LEB(m->bytes, &m->pc, 32);
       if(arg&0x40)midx=read_LEB(m->bytes, &m->pc, 32);
+      offset = read_LEB(m->bytes, &m->pc, 32);
       if(m->cached_midx<0 && (*dynarr_get(m->context->memories,Memory *,midx))->bytes!=NULL){
         m->mem_base_local = -2;
         m->cached_midx=midx;
-- 
2.43.0


From cd97ed01201b1f0f7a5112786c6a76ee12daf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 11/74] fix: decode the immediates of select t, return_call,
 return_call_indirect, table.get and table.set

---
 pwart/opgen_ctl.c |  5 ++++-
 pwart/wagen.c     | 12 ++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index e5325c4..6fb43b8 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -372,7 +372,10 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
     opgen_GenDrop(m);
     break;
   case WASMOPC_select_t:                     // select t
-    m->pc++;
+    count = read_LEB(bytes, &m->pc, 32);
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, &m->pc, 32);
+    }
   case WASMOPC_select:                     // select
     opgen_GenSelect(m);
     break;
diff --git a/pwart/wagen.c b/pwart/wagen.c
index f05d7ac..82c1057 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -21,7 +21,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   // varuint32, varint32
   case 0x0c: case 0x0d: // br, br_if
-  case 0x10:          // call
+  case 0x10: case 0x12: // call, return_call
     read_LEB(bytes, pos, 32);
     break;
   case 0x20: //local.get
@@ -35,6 +35,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x23: //global.get
   case 0x24: //global.set
+  case 0x25: case 0x26: //table.get, table.set
   case 0xd0: //ref.null
   case 0xd2: //ref.func
     read_LEB(bytes, pos, 32);
@@ -43,12 +44,15 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     read_LEB(bytes, pos, 32);
     break;
   // varuint32 + varuint1
-  case 0x11: // call_indirect
+  case 0x11: case 0x13: // call_indirect, return_call_indirect
     read_LEB(bytes, pos, 32);
     read_LEB(bytes, pos, 1);
     break;
   case 0x1c: // select t
-    read_LEB(bytes, pos, 32);
+    count = read_LEB(bytes, pos, 32); // type count
+    for (uint32_t i = 0; i < count; i++) {
+      read_LEB(bytes, pos, 32);
+    }
     break;
   // varint64
   case 0x42: // i64.const
@@ -334,7 +338,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
       pwart_EmitStackValueLoadReg(m, &m->stack[m->sp]);
     }
 
-    if (opcode >= 0 && opcode <= 0x1b) {
+    if (opcode >= 0 && opcode <= 0x1c) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
-- 
2.43.0


From ec66dcbdddfc03617dd72750f8ebfb3c5dde6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 12/74] fix: returning a result does not overwrite an argument
 returned as a later result

---
 pwart/opgen_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index f08778c..336b97b 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -481,6 +481,14 @@ static char *pwart_EmitFuncReturn(ModuleCompiler *m) {
     /* maybe unreachable code, Do nothing */
     return NULL;
   }
+  // A result may still be an argument of this function, which shares its place with the results.
+  // Move it to its own stack slot, so that storing an earlier result can't overwrite it.
+  for (idx = 1; idx < len; idx++) {
+    sv = &m->stack[m->sp - len + idx + 1];
+    if(sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_S0)){
+      pwart_EmitSaveStack(m, sv);
+    }
+  }
   for (idx = 0; idx < len; idx++) {
     sv = &m->stack[m->sp - len + idx + 1];
     if(pwart_gcfg.stack_flags & PWART_STACK_FLAGS_AUTO_ALIGN){
-- 
2.43.0


From fd6e0a654095cf5d7034e6248198048e28ad1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 13/74] fix: tail call arguments do not overwrite each other
 and are placed as the stack flags say

---
 pwart/opgen_utils.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 336b97b..b9ee56b 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -381,7 +381,26 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
   }
   sv = m->stack+m->sp + 1; // first argument
 
-  if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
+  if(callReturn){
+    //tail call, the arguments become the arguments of current frame.
+    for(a=0;a<len;a++){
+      // Current arguments are about to be overwritten, so move those used to their own stack slot.
+      if(sv[a].jit_type==SVT_GENERAL && sv[a].val.op==SLJIT_MEM1(SLJIT_S0)){
+        pwart_EmitSaveStack(m,sv+a);
+      }
+    }
+    sv->frame_offset=0;
+    b=0;
+    for(a=0;a<len;a++){
+      if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+        sv[a].frame_offset=stackvalue_GetAlignedOffset(sv+a,b,&b);
+      }else{
+        sv[a].frame_offset=b;
+        b+=stackvalue_GetSizeAndAlign(sv+a,NULL);
+      }
+      pwart_EmitSaveStack(m,sv+a);
+    }
+  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
     //XXX: move stack value to align frame to 8 ,we should avoid this happen.
     sv->frame_offset+=4;
     if(len>0){
@@ -401,22 +420,6 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       m->sp-=len;
       sv=m->stack+m->sp+1; // first argument
     }
-  }else if(callReturn){
-    //tail call
-    sv->frame_offset=0;
-    if(len>0){
-      pwart_EmitSaveStack(m,sv);
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-        pwart_EmitSaveStack(m,sv);
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
-    }
   }else{
     for(i=len;i>0;i--){
       m->sp++;
-- 
2.43.0


From 68562a0cb9c5d6de580ead4d1e029fe8319bd752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 14/74] fix: return_call of an inlined builtin returns its
 result

---
 pwart/opgen_ctl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 6fb43b8..95f771b 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -248,6 +248,8 @@ static void opgen_GenCall(ModuleCompiler *m, int32_t fidx, int callReturn) {
     sljit_emit_op1(m->jitc, SLJIT_MOV, a, 0, SLJIT_IMM,(sljit_uw)(m->context->funcentries+fidx));
     type = dynarr_get(m->types, Type, fn->tidx);
     pwart_EmitCallFunc2(m, type, SLJIT_MEM1(a), 0,callReturn);
+  }else if(callReturn){
+    opgen_GenReturn(m);
   }
 }
 
-- 
2.43.0


From 7e56e4b114db4e11741db755e6c88ddb4cda9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 15/74] fix: do not generate code for instructions after br,
 br_table, return and unreachable

---
 pwart/def.h       |  5 ++++-
 pwart/opgen_ctl.c | 13 ++++++++-----
 pwart/wagen.c     | 21 +++++++++++++++++++++
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index f0cfee0..75a52a0 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -198,7 +198,7 @@ typedef struct ModuleCompiler {
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
-    int8_t block_returned; //the block has br/return out.
+    int8_t block_returned; //1: the block has br/return out. 2: unreachable.
 
     //prepare info, used in compile time
     #if DEBUG_BUILD
@@ -494,7 +494,10 @@ static struct{
 #define WASMOPC_i32_wrap_i64 0xa7
 #define WASMOPC_i64_extend_i32_u 0xad
 #define WASMOPC_i32_eqz 0x45
+#define WASMOPC_block 0x02
+#define WASMOPC_loop 0x03
 #define WASMOPC_if 0x04
+#define WASMOPC_else 0x05
 #define WASMOPC_br_if 0x0d
 #define WASMOPC_select 0x1b
 #define WASMOPC_select_t 0x1c
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index 95f771b..fedf8d5 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -7,7 +7,8 @@
 #include "opgen_utils.c"
 
 static void opgen_GenUnreachable(ModuleCompiler *m) {
-  //just do nothing now.
+  //just do nothing now, but the code up to the end of block is not validated against operand stack.
+  m->block_returned=2;
 }
 
 static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
@@ -76,6 +77,7 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
   pwart_EmitSaveStackAll(m);
+  m->block_returned=0;
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
   *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
       sljit_emit_jump(m->jitc, SLJIT_JUMP);
@@ -106,7 +108,9 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     }
   } else if (block->block_type == 0x00) {
     // function
-    if(!m->block_returned){
+    if(m->block_returned==2){
+      sljit_emit_return_void(m->jitc);
+    }else if(!m->block_returned){
       pwart_EmitFuncReturn(m);
     }
     m->eof = 1;
@@ -136,9 +140,7 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
     *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
-  if(block->block_type==0x2 || block->block_type==0x4){
-    m->block_returned=1;
-  }
+  m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
@@ -225,6 +227,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
         sljit_emit_jump(m->jitc, SLJIT_JUMP);
   }
   m->sp--;
+  m->block_returned=1;
 }
 
 static void opgen_GenReturn(ModuleCompiler *m) {
diff --git a/pwart/wagen.c b/pwart/wagen.c
index 82c1057..ee55978 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -291,6 +291,26 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   return NULL;
 }
 
+// Skip the code after br, return... , up to the else or end of current block, which is never executed and
+// whose operands may not be on stack.
+static void pwart_SkipUnreachable(ModuleCompiler *m) {
+  int depth = 0;
+  while (m->pc < m->byte_count) {
+    uint8_t opcode = m->bytes[m->pc];
+    if (depth == 0 && (opcode == WASMOPC_else || opcode == WASMOPC_end)) {
+      break;
+    } else if (opcode == WASMOPC_block || opcode == WASMOPC_loop || opcode == WASMOPC_if) {
+      depth++;
+    } else if (opcode == WASMOPC_end) {
+      depth--;
+    }
+    wasm_SkipImmediates(m->bytes, &m->pc);
+    #if DEBUG_BUILD
+    m->insnCnt--;
+    #endif
+  }
+}
+
 /*
 r0,r1,r2 is scratch registers(at least three registers are required.).
 s0(arg0) contains stack frame pointer.
@@ -340,6 +360,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
 
     if (opcode >= 0 && opcode <= 0x1c) {
       ReturnIfErr(opgen_GenCtlOp(m, opcode));
+      if (m->block_returned) pwart_SkipUnreachable(m);
     } else if (opcode <= 0x44) {
       ReturnIfErr(opgen_GenMemOp(m, opcode));
     } else if (opcode <= 0xc4) {
-- 
2.43.0


From bdca1c7f3859292054c13e915731a2b5adbc6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 16/74] fix: branches leave the block result at one place, may
 target the function, and keep the br_table index

The result of a block was expected at its own stack slot, but a branch with
other values below the result left it in another slot; a branch to the
function's label used a null jump list; br_table counted down the index in
place, which could be the register of a local variable.
---
 pwart/def.h       |   3 +-
 pwart/opgen_ctl.c | 176 +++++++++++++++++++++++++++++-----------------
 2 files changed, 114 insertions(+), 65 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 75a52a0..3f8c825 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -67,7 +67,8 @@ typedef struct Block {
                               // 0x02: block, 0x03: loop, 0x04: if
     int8_t     stack_offset;  //stack offset after block end.
     int16_t    saved_sp;      //sp when enter block.
-    //Type      *type;           params/results type
+    uint8_t    result_type;   //result type, 0 if none.
+    uint16_t   result_offset; //frame offset of the result.
     struct sljit_jump *else_jump;     // if block only
     struct sljit_label *br_label;       // blocks only
     struct dynarr *br_jump;         //type struct jump *
diff --git a/pwart/opgen_ctl.c b/pwart/opgen_ctl.c
index fedf8d5..550b08f 100644
--- a/pwart/opgen_ctl.c
+++ b/pwart/opgen_ctl.c
@@ -11,36 +11,78 @@ static void opgen_GenUnreachable(ModuleCompiler *m) {
   m->block_returned=2;
 }
 
-static void opgen_GenBlock(ModuleCompiler *m,int stackOffset) {
+// Reserve the place of block result, which follow the current stack top.
+static void opgen_SetBlockResult(ModuleCompiler *m,Block *block,int resultType){
+  block->stack_offset=resultType!=0;
+  block->result_type=resultType;
+  block->saved_sp=m->sp;
+  if(resultType!=0){
+    block->result_offset=stackvalue_Push(m,resultType)->frame_offset;
+    m->sp--;
+  }
+}
+
+// 1 if the stack top should be moved to leave 'block' by branch
+static int opgen_IsMoveRequiredToBranch(ModuleCompiler *m,Block *block){
+  StackValue *sv=m->stack+m->sp;
+  if(block->block_type==0x0){
+    return 1;
+  }
+  return block->block_type!=0x3 && block->stack_offset>0 && !(sv->jit_type==SVT_GENERAL && 
+    sv->val.op==SLJIT_MEM1(SLJIT_S0) && sv->val.opw==block->result_offset);
+}
+
+// move stack top to the place of block result.
+static void opgen_EmitBlockResult(ModuleCompiler *m,Block *block){
+  if(block->block_type!=0x3 && block->stack_offset>0){
+    pwart_EmitStoreStackValue(m,m->stack+m->sp,SLJIT_MEM1(SLJIT_S0),block->result_offset);
+  }
+}
+
+// take the branch unconditionally.
+static void opgen_EmitBranch(ModuleCompiler *m,Block *block){
+  if(block->block_type==0x0){
+    // branch out of function is return.
+    pwart_EmitFuncReturn(m);
+    return;
+  }
+  opgen_EmitBlockResult(m,block);
+  if (block->br_label != NULL) {
+    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
+  } else {
+    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
+        sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  }
+}
+
+static void opgen_GenBlock(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x2;
   dynarr_init(&block->br_jump, sizeof(struct sljit_jump *));
   block->else_jump = NULL;
-  block->stack_offset=stackOffset;
-  block->saved_sp=m->sp;
+  opgen_SetBlockResult(m,block,resultType);
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenLoop(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenLoop(ModuleCompiler *m,int resultType) {
   Block *block;
   pwart_EmitSaveStackAll(m);
   block = dynarr_push_type(&m->blocks, Block);
   block->block_type = 0x3;
   block->br_label = sljit_emit_label(m->jitc);
-  block->stack_offset=stackOffset;
-  block->saved_sp=m->sp;
+  opgen_SetBlockResult(m,block,resultType);
   #if PWART_DEBUG_RUNTIME_PROBE
   sljit_emit_op1(m->jitc,SLJIT_MOV,SLJIT_R0,0,SLJIT_IMM,m->pc-1);
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
 }
 /* blktype 0x40 indicating the empty type. */
-static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
+static void opgen_GenIf(ModuleCompiler *m,int resultType) {
   Block *block;
   StackValue *sv;
   struct sljit_jump *jump;
@@ -69,18 +111,17 @@ static void opgen_GenIf(ModuleCompiler *m,int stackOffset) {
   }
   block->else_jump = jump;
   m->sp--;
-  block->stack_offset=stackOffset;
-  block->saved_sp=m->sp;
-  
+  opgen_SetBlockResult(m,block,resultType);
 }
 
 static void opgen_GenElse(ModuleCompiler *m) {
   Block *block;
-  pwart_EmitSaveStackAll(m);
-  m->block_returned=0;
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1);
-  *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-      sljit_emit_jump(m->jitc, SLJIT_JUMP);
+  if(!m->block_returned){
+    pwart_EmitSaveStackAll(m);
+    opgen_EmitBranch(m,block);
+  }
+  m->block_returned=0;
   sljit_set_label(block->else_jump, sljit_emit_label(m->jitc));
   block->else_jump = NULL;
   m->sp=block->saved_sp;
@@ -95,7 +136,10 @@ static void opgen_GenEnd(ModuleCompiler *m) {
   Block *block = dynarr_pop_type(&m->blocks, Block);
   int a;
   if (block->block_type == 0x2 || block->block_type == 0x4) {
-    pwart_EmitSaveStackAll(m);
+    if(!m->block_returned){
+      pwart_EmitSaveStackAll(m);
+      opgen_EmitBlockResult(m,block);
+    }
     // if block
     block->br_label = sljit_emit_label(m->jitc);
     for (a = 0; a < block->br_jump->len; a++) {
@@ -115,7 +159,15 @@ static void opgen_GenEnd(ModuleCompiler *m) {
     }
     m->eof = 1;
   } 
-  m->sp=block->saved_sp+block->stack_offset;
+  if(block->stack_offset>0 && (block->block_type!=0x3 || m->block_returned)){
+    StackValue *sv;
+    m->sp=block->saved_sp;
+    sv=stackvalue_Push(m,block->result_type);
+    sv->val.op=SLJIT_MEM1(SLJIT_S0);
+    sv->val.opw=sv->frame_offset;
+  }else{
+    m->sp=block->saved_sp+block->stack_offset;
+  }
   if (block->br_jump != NULL) {
     dynarr_free(&block->br_jump);
   }
@@ -134,18 +186,14 @@ static void opgen_GenBr(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
+  opgen_EmitBranch(m,block);
   m->block_returned=1;
 }
 
 static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   StackValue *sv;
   Block *block;
+  struct sljit_jump *jump;
   StackValue *stack = m->stack;
   sv = &stack[m->sp];
   // stack top will be remove soon. Don't save it here.
@@ -158,29 +206,32 @@ static void opgen_GenBrIf(ModuleCompiler *m, int32_t depth) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (sv->jit_type == SVT_CMP) {
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, sv->val.cmp.flag),
-                      block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, sv->val.cmp.flag);
-    }
-  } else if (sv->jit_type == SVT_GENERAL) {
+  if (sv->jit_type != SVT_CMP) {
     // sljit_emit_cmp always use machine word length, So load to register first.
     pwart_EmitStackValueLoadReg(m, sv);
+  }
+  m->sp--;
+  if(opgen_IsMoveRequiredToBranch(m,block)){
+    if (sv->jit_type == SVT_CMP) {
+      //inverse flag, we supposed inverse flag are always set.
+      jump = sljit_emit_jump(m->jitc, sv->val.cmp.flag^0x1);
+    } else {
+      jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
+    }
+    opgen_EmitBranch(m,block);
+    sljit_set_label(jump, sljit_emit_label(m->jitc));
+  }else{
+    if (sv->jit_type == SVT_CMP) {
+      jump = sljit_emit_jump(m->jitc, sv->val.cmp.flag);
+    } else {
+      jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
+    }
     if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL, sv->val.op,
-                                     sv->val.opw, SLJIT_IMM, 0),
-                      block->br_label);
+      sljit_set_label(jump, block->br_label);
     } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = sljit_emit_cmp(
-          m->jitc, SLJIT_NOT_EQUAL, sv->val.op, sv->val.opw, SLJIT_IMM, 0);
+      *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
     }
-  } else {
-    SLJIT_UNREACHABLE();
   }
-  m->sp--;
 }
 
 static void opgen_GenBrTable(ModuleCompiler *m) {
@@ -188,6 +239,7 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   int a, count;
   Block *block;
   StackValue *sv;
+  struct sljit_jump *jump;
   sv=m->stack+m->sp;
   count = m->br_table->len-1;
   for (int i = 0; i < m->sp; i++) {
@@ -199,34 +251,29 @@ static void opgen_GenBrTable(ModuleCompiler *m) {
   sljit_emit_icall(m->jitc,SLJIT_CALL,SLJIT_ARGS1(VOID,W),SLJIT_IMM,(sljit_sw)&debug_PrintBlockInstr);
   #endif
   pwart_EmitStackValueLoadReg(m, sv);
+  m->sp--;
   for (a = 0; a < count; a++) {
     depth = *dynarr_get(m->br_table, uint32_t, a);
     block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-    if (a == 0) {
-      sljit_emit_op2u(m->jitc, SLJIT_AND | SLJIT_SET_Z, sv->val.op, sv->val.opw,
-                      sv->val.op, sv->val.opw);
-    } else {
-      sljit_emit_op2(m->jitc, SLJIT_SUB32 | SLJIT_SET_Z, sv->val.op,
-                     sv->val.opw, sv->val.op, sv->val.opw, SLJIT_IMM, 1);
-    }
-    if (block->br_label != NULL) {
-      sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_ZERO), block->br_label);
-    } else {
-      *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-          sljit_emit_jump(m->jitc, SLJIT_ZERO);
+    // the index may be in the register of local variable, don't modify it.
+    if(opgen_IsMoveRequiredToBranch(m,block)){
+      jump = sljit_emit_cmp(m->jitc, SLJIT_NOT_EQUAL|SLJIT_32, sv->val.op, sv->val.opw, SLJIT_IMM, a);
+      opgen_EmitBranch(m,block);
+      sljit_set_label(jump, sljit_emit_label(m->jitc));
+    }else{
+      jump = sljit_emit_cmp(m->jitc, SLJIT_EQUAL|SLJIT_32, sv->val.op, sv->val.opw, SLJIT_IMM, a);
+      if (block->br_label != NULL) {
+        sljit_set_label(jump, block->br_label);
+      } else {
+        *dynarr_push_type(&block->br_jump, struct sljit_jump *) = jump;
+      }
     }
   }
 
   // default
   depth = *dynarr_get(m->br_table, uint32_t, count);
   block = dynarr_get(m->blocks, Block, m->blocks->len - 1 - depth);
-  if (block->br_label != NULL) {
-    sljit_set_label(sljit_emit_jump(m->jitc, SLJIT_JUMP), block->br_label);
-  } else {
-    *dynarr_push_type(&block->br_jump, struct sljit_jump *) =
-        sljit_emit_jump(m->jitc, SLJIT_JUMP);
-  }
-  m->sp--;
+  opgen_EmitBranch(m,block);
   m->block_returned=1;
 }
 
@@ -297,12 +344,13 @@ static void opgen_GenSelect(ModuleCompiler *m) {
   sljit_set_label(jump, sljit_emit_label(m->jitc));
 }
 
-static char *opgen_ParseBlockStackOffset(ModuleCompiler *m,int *stackOffset){
+//resultType: 0 if no result.
+static char *opgen_ParseBlockType(ModuleCompiler *m,int *resultType){
   if(*(m->bytes+m->pc)==0x40){
-    *stackOffset=0;
+    *resultType=0;
     m->pc++;
   }else if(((*(m->bytes+m->pc))&0xC0)==0x40){
-    *stackOffset=1;
+    *resultType=*(m->bytes+m->pc);
     m->pc++;
   }else{
     return "Not support type index for block type";
@@ -321,15 +369,15 @@ static char *opgen_GenCtlOp(ModuleCompiler *m, int opcode) {
   case 0x01: // nop
     break;
   case 0x02: // block
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockType(m,&count));
     opgen_GenBlock(m,count);
     break;
   case 0x03: // loop
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockType(m,&count));
     opgen_GenLoop(m,count);
     break;
   case 0x04: // if
-    ReturnIfErr(opgen_ParseBlockStackOffset(m,&count));
+    ReturnIfErr(opgen_ParseBlockType(m,&count));
     opgen_GenIf(m,count);
     break;
   case 0x05: // else
-- 
2.43.0


From d10268285d2f7d723025a67a61fd19966546fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 17/74] fix: constant expressions consume the type of ref.null
 and cannot overflow their result or stack

---
 pwart/extfunc.c   | 20 +++++++++++++++++++-
 pwart/modparser.c |  6 +++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index ca273bc..82f1114 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -486,7 +486,8 @@ static Type func_type_i32_i32_ref_ret_i32 = {.params = types_i32_i32_ref, .resul
 static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types_void};
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
 
-static char *waexpr_run_const(ModuleCompiler *m, void *result) {
+// the value of the expr is written to *result, the rest bits are zero.
+static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
   int opcode=0;
   //const stack
   uint64_t stack[16];
@@ -495,6 +496,9 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   while(m->pc<=m->byte_count && !eof){
     opcode=m->bytes[m->pc];
     m->pc++;
+    if(sp+8>(void *)(stack+16)){
+      return "const expr is too complex";
+    }
     switch (opcode) {
       case 0x41: // i32.const
         *(uint32_t *)sp = read_LEB_signed(m->bytes, &m->pc, 32);
@@ -520,6 +524,9 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
         StackValue *sv = dynarr_get(m->globals, StackValue, arg);
+        if (sv->val.op == SLJIT_IMM) {
+          return "Unsupport const expr"; // globals of current module, not available yet.
+        }
         if (stackvalue_GetSizeAndAlign(sv, NULL) == 8) {
           *(uint64_t *)sp = *(uint64_t *)(sv->val.opw);
           sp+=8;
@@ -529,6 +536,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
         }
       } break;
       case 0xd0: //ref.null
+        read_LEB(m->bytes, &m->pc, 32); // type, ignored
         *(void **)sp=NULL;
         sp+=m->target_ptr_size/8;
         break;
@@ -540,6 +548,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       }break;
       case WASMOPC_i32_add:
       {
+        if(sp-(void *)stack<8)return "const expr operand missing";
         uint32_t *arg1=((void *)sp)-8;
         uint32_t *arg2=arg1+1;
         sp-=8;
@@ -548,6 +557,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       }break;
       case WASMOPC_i32_sub:
       {
+        if(sp-(void *)stack<8)return "const expr operand missing";
         uint32_t *arg1=((void *)sp)-8;
         uint32_t *arg2=arg1+1;
         sp-=8;
@@ -556,6 +566,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       }break;
       case WASMOPC_i32_mul:
       {
+        if(sp-(void *)stack<8)return "const expr operand missing";
         uint32_t *arg1=((void *)sp)-8;
         uint32_t *arg2=arg1+1;
         sp-=8;
@@ -564,6 +575,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       }break;
       case WASMOPC_i64_add:
       {
+        if(sp-(void *)stack<16)return "const expr operand missing";
         uint64_t *arg1=((void *)sp)-16;
         uint64_t *arg2=arg1+1;
         sp-=16;
@@ -572,6 +584,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       }break;
       case WASMOPC_i64_sub:
       {
+        if(sp-(void *)stack<16)return "const expr operand missing";
         uint64_t *arg1=((void *)sp)-16;
         uint64_t *arg2=arg1+1;
         sp-=16;
@@ -580,6 +593,7 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
       }break;
       case WASMOPC_i64_mul:
       {
+        if(sp-(void *)stack<16)return "const expr operand missing";
         uint64_t *arg1=((void *)sp)-16;
         uint64_t *arg2=arg1+1;
         sp-=16;
@@ -599,6 +613,10 @@ static char *waexpr_run_const(ModuleCompiler *m, void *result) {
   if(m->bytes[m->pc]!=0xb){
     return "const expr miss end instruction.";
   }
+  if(sp-(void *)stack!=4 && sp-(void *)stack!=8){
+    return "const expr should produce one value.";
+  }
+  *result=0;
   memcpy(result,&stack,sp-(void *)stack);
   m->pc++;
   return NULL;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index f1f40c3..9e72126 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -429,8 +429,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for(uint32_t c=0; c<element_count; c++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t index=0;
-                uint32_t offset;
-                void *elem_expr;
+                uint64_t offset;
+                uint64_t elem_expr;
                 switch(flags){
                     case 0:case 4:
                     index=0;
@@ -471,7 +471,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t s=0; s<seg_count; s++) {
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t midx;
-                uint32_t offset;
+                uint64_t offset;
                 switch(flags){
                     case 0:  //active
                     midx=0;
-- 
2.43.0


From c3c679dc764881fad003c4b5c9695772d894a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 18/74] fix: decode all kinds of element segment, check their
 bounds, and store function pointers to imported tables and funcref globals

---
 pwart/def.h       | 12 +++++++
 pwart/extfunc.c   | 14 +++++++-
 pwart/modparser.c | 88 +++++++++++++++++++++++++++--------------------
 3 files changed, 76 insertions(+), 38 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 3f8c825..211cd00 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -162,6 +162,14 @@ typedef struct RuntimeContext{
     void *userdata;  //user data, pwart don't use it.
 }RuntimeContext;
 
+// Reference to write to a table or a global of the module after all functions are generated.
+typedef struct RefInit {
+    Table *table; // NULL if the target is own_globals
+    uint32_t offset; // index in the table, or byte offset in own_globals
+    WasmFunction *func; // write func->func_ptr if not NULL, else value
+    void *value;
+} RefInit;
+
 //compile module info
 typedef struct ModuleCompiler {
 
@@ -185,6 +193,10 @@ typedef struct ModuleCompiler {
 
     struct dynarr *functions;      //functions, type WasmFunction
 
+    struct dynarr *ref_inits;      //elements and function globals to write when functions are generated, type RefInit
+
+    WasmFunction *const_func;      //function referred by the last const expr.
+
     struct pwart_symbol_resolver *import_resolver;
 
     uint8_t compile_succeeded;
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 82f1114..6a6b499 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -487,12 +487,14 @@ static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
 
 // the value of the expr is written to *result, the rest bits are zero.
+// m->const_func is the function the expr refer to, whose func_ptr may not available yet, or NULL.
 static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
   int opcode=0;
   //const stack
   uint64_t stack[16];
   void *sp=&stack;
   int eof=0;
+  m->const_func=NULL;
   while(m->pc<=m->byte_count && !eof){
     opcode=m->bytes[m->pc];
     m->pc++;
@@ -527,6 +529,12 @@ static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
         if (sv->val.op == SLJIT_IMM) {
           return "Unsupport const expr"; // globals of current module, not available yet.
         }
+        for (uint32_t i = 0; i < m->ref_inits->len; i++) {
+          RefInit *init = dynarr_get(m->ref_inits, RefInit, i);
+          if (init->table == NULL && m->context->own_globals->data + init->offset == (uint8_t *)sv->val.opw) {
+            m->const_func = init->func;
+          }
+        }
         if (stackvalue_GetSizeAndAlign(sv, NULL) == 8) {
           *(uint64_t *)sp = *(uint64_t *)(sv->val.opw);
           sp+=8;
@@ -543,7 +551,11 @@ static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
       case 0xd2: //ref.func
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
-        *(WasmFunction **)sp = dynarr_get(m->functions,WasmFunction,arg);
+        if (arg >= m->functions->len) {
+          return "Unknown function.";
+        }
+        m->const_func = dynarr_get(m->functions,WasmFunction,arg);
+        *(void **)sp = NULL;
         sp+=m->target_ptr_size/8;
       }break;
       case WASMOPC_i32_add:
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 9e72126..27a1066 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -99,6 +99,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->tables,sizeof(Table *));
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
+    dynarr_init(&m->ref_inits,sizeof(RefInit));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -369,6 +370,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     *(uint64_t *)dynarr_push(&m->context->own_globals,8)=result;
                       break;
                     default:
+                    if(m->const_func!=NULL){
+                        // set once all functions are generated.
+                        RefInit *init=dynarr_push_type(&m->ref_inits,RefInit);
+                        init->offset=m->context->own_globals->len;
+                        init->func=m->const_func;
+                    }
                     *(sljit_sw *)dynarr_push(&m->context->own_globals,sizeof(sljit_sw))=(sljit_sw)result;
                       break;
                     }
@@ -427,39 +434,46 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
             uint32_t element_count = read_LEB(bytes, &pos, 32);
             for(uint32_t c=0; c<element_count; c++) {
+                // bit 0: passive or declarative, bit 1: has table index (active) or declarative,
+                // bit 2: the elements are const expr.
                 uint32_t flags = read_LEB(bytes, &pos, 32);
                 uint32_t index=0;
-                uint64_t offset;
-                uint64_t elem_expr;
-                switch(flags){
-                    case 0:case 4:
-                    index=0;
+                uint64_t offset=0;
+                uint64_t elem;
+                Table *dtab=NULL;
+                if(flags>7)return "Illegal segment flags.";
+                if(!(flags&1)){
+                    if(flags&2)index=read_LEB(bytes, &pos, 32);
                     // Run the init_expr to get offset
                     m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    break;
-                    case 1:case 3:
-                    index=0;
-                    pos++; //extern_kind, ignored.
-                    break;
-                    case 2:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
-                    pos++;
-                    break;
-                    case 6:
-                    index=read_LEB(bytes, &pos, 32);
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
-                    case 5:case 7:
-                    m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem_expr));pos=m->pc;
+                    if(index>=m->context->tables->len)return "Unknown table.";
+                    dtab=*dynarr_get(m->context->tables,Table *,index);
                 }
-                
+                if(flags&3)pos++; //elem_kind or reference type, ignored.
+
                 uint32_t num_elem = read_LEB(bytes, &pos, 32);
-                Table *dtab=*dynarr_get(m->context->tables,Table *,index);
-                wa_debug("  table.entries: %p, offset: 0x%x\n", dtab->entries, offset);
+                if(dtab!=NULL && (offset>dtab->size || num_elem>dtab->size-offset)){
+                    return "elements segment does not fit.";
+                }
                 for (uint32_t n=0; n<num_elem; n++) {
-                    wa_debug("  write table entries %p, offset: 0x%x, n: 0x%x, addr: %p\n",
-                            dtab->entries, offset, n, &dtab->entries[offset+n]);
-                    dtab->entries[offset+n] = dynarr_get(m->functions,WasmFunction,read_LEB(bytes, &pos, 32));
+                    WasmFunction *func=NULL;
+                    elem=0;
+                    if(flags&4){
+                        m->pc=pos;ReturnIfErr(waexpr_run_const(m,&elem));pos=m->pc;
+                        func=m->const_func;
+                    }else{
+                        uint32_t fidx=read_LEB(bytes, &pos, 32);
+                        if(fidx>=m->functions->len)return "Unknown function.";
+                        func=dynarr_get(m->functions,WasmFunction,fidx);
+                    }
+                    if(dtab!=NULL){
+                        // write to table once all functions are generated.
+                        RefInit *init=dynarr_push_type(&m->ref_inits,RefInit);
+                        init->table=dtab;
+                        init->offset=offset+n;
+                        init->func=func;
+                        init->value=(void *)(size_t)elem;
+                    }
                 }
             }
             pos = start_pos+slen;
@@ -559,17 +573,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
     wa_debug("table count %x\n",m->context->own_tables_count);
-    //update table entries to real function entries.
-    for(int i1=0;i1<m->context->own_tables_count;i1++){
-        Table *tab=m->context->own_tables+i1;
-        wa_debug("table type %x\n",tab->elem_type);
-        if(tab->elem_type==WVT_FUNC){
-            for(int i=0;i<tab->size;i++){
-                if(tab->entries[i]!=NULL){
-                    wa_debug("function entry update:%p->%p\n",tab->entries[i],((WasmFunction *)tab->entries[i])->func_ptr);
-                    tab->entries[i]=((WasmFunction *)tab->entries[i])->func_ptr;
-                }
-            }
+    //write function entries and elements to globals and tables.
+    for(int i=0;i<m->ref_inits->len;i++){
+        RefInit *init=dynarr_get(m->ref_inits,RefInit,i);
+        void *val=init->func!=NULL?(void *)init->func->func_ptr:init->value;
+        if(init->table!=NULL){
+            init->table->entries[init->offset]=val;
+        }else{
+            *(void **)(m->context->own_globals->data+init->offset)=val;
         }
     }
 
@@ -649,6 +660,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->ref_inits!=NULL){
+        dynarr_free(&m->ref_inits);
+    }
     if(m->types_pool.chunks!=NULL){
         pool_free(&m->types_pool);
     }
-- 
2.43.0


From e36eec4ea0df74d80a9dec0b7a36aa6c2a545382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 19/74] fix: memories are allocated and grown to their exact
 size, and a failed grow returns -1

---
 pwart/extfunc.c   | 18 ++++++++++++------
 pwart/modparser.c | 10 ++++++----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 6a6b499..b39dde8 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -298,17 +298,23 @@ static void insn_memorygrow(void *fp){
   uint32_t index=pwart_rstack_get_i32(&sp); // memory index
   RuntimeContext *m=pwart_rstack_get_ref(&sp);
   Memory *mem=*dynarr_get(m->memories,Memory *,index);
-  int32_t prev_pages = mem->pages;
-  if (delta + prev_pages > mem->maximum) {
+  uint32_t prev_pages = mem->pages;
+  if ((uint64_t)delta + prev_pages > mem->maximum) {
     sp=fp;
     pwart_rstack_put_i32(&sp,-1);
     return;
   }
-  mem->pages += delta;
-  if(!mem->fixed){
-    mem->bytes = wa_realloc(mem->bytes, mem->pages * PAGE_SIZE);
-    memset(mem->bytes+prev_pages*PAGE_SIZE,0,delta*PAGE_SIZE);
+  if(!mem->fixed && delta>0){
+    uint8_t *bytes = wa_realloc(mem->bytes, ((size_t)prev_pages + delta) * PAGE_SIZE);
+    if(bytes==NULL){
+      sp=fp;
+      pwart_rstack_put_i32(&sp,-1);
+      return;
+    }
+    mem->bytes = bytes;
+    memset(mem->bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
   }
+  mem->pages += delta;
   sp=fp;
   pwart_rstack_put_i32(&sp,prev_pages);
   return;
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 27a1066..9d8b052 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -329,10 +329,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
                 //XXX: custom memory creator?
-                if(memory->fixed){
-                    memory->bytes = wa_calloc(memory->initial*PAGE_SIZE);
-                }else{
-                    memory->bytes = wa_calloc(memory->maximum*PAGE_SIZE);
+                //fixed memory is allocated to maximum, other is reallocated when grow.
+                //bytes can't be NULL even if the memory is empty, as NULL indicate native memory.
+                size_t msize = (size_t)(memory->fixed?memory->maximum:memory->initial)*PAGE_SIZE;
+                memory->bytes = wa_calloc(msize>0?msize:1);
+                if(memory->bytes==NULL){
+                    return "Failed to allocate memory.";
                 }
                 *dynarr_push_type(&m->context->memories,Memory *)=memory;
             }
-- 
2.43.0


From b5afb227f4ce314eaa161fd3ee6cb7ccf1e2889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 20/74] fix: imported memories and tables are checked by their
 current size

---
 pwart/modparser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 9d8b052..75342e2 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -257,7 +257,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_TABLE:
                 {
                     Table *tval = val;
-                    if(info.tab.initial>tval->maximum){
+                    if(info.tab.initial>tval->size){
                         return "Imported table is not large enough";
                     }
                     *dynarr_push_type(&m->context->tables,Table *)=tval;
@@ -266,7 +266,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 case PWART_KIND_MEMORY:
                 {
                     Memory *mval = val;
-                    if(info.mem.initial>mval->maximum){
+                    if(info.mem.initial>mval->pages){
                         return "Imported memory is not large enough";
                     }
                     *dynarr_push_type(&m->context->memories,Memory *)=mval;
-- 
2.43.0


From 553e583a2f24054c38b307210690be0b27d9ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 21/74] fix: a truncated, oversized, inconsistent or
 unsupported module is reported, instead of read past its end or terminating
 the process

---
 pwart/def.h         |   4 ++
 pwart/extfunc.c     |   6 ++-
 pwart/modparser.c   | 113 ++++++++++++++++++++++++++++++++++++--------
 pwart/opgen_misc.c  |   3 +-
 pwart/opgen_utils.c |   6 ++-
 pwart/util.c        |  31 +++++++-----
 pwart/wagen.c       |  31 ++++++++----
 7 files changed, 147 insertions(+), 47 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 211cd00..6cd597a 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -30,6 +30,9 @@
 
 #define OPERAND_STACK_COUNT 32
 
+//index of locals are stored in int16_t
+#define MAX_LOCALS_COUNT 30000
+
 
 
 
@@ -211,6 +214,7 @@ typedef struct ModuleCompiler {
     struct dynarr *blocks; // block stacks, block type
     struct dynarr *br_table; // br_table branch indexes, uint32_t type
     uint8_t eof;      // end of function
+    uint8_t stack_overflow; // operand stack overflow
     int8_t block_returned; //1: the block has br/return out. 2: unreachable.
 
     //prepare info, used in compile time
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index b39dde8..d1ad6d2 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -501,7 +501,7 @@ static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
   void *sp=&stack;
   int eof=0;
   m->const_func=NULL;
-  while(m->pc<=m->byte_count && !eof){
+  while(m->pc<m->byte_count && !eof){
     opcode=m->bytes[m->pc];
     m->pc++;
     if(sp+8>(void *)(stack+16)){
@@ -518,12 +518,14 @@ static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
         break;
       case 0x43: // f32.const
       //use memmove to avoid align error
+        if(m->byte_count-m->pc<4)return "unexpected end of module.";
         memmove(sp,m->bytes + m->pc,4);
         m->pc += 4;
         sp+=4;
         break;
       case 0x44: // f64.const
       //use memmove to avoid align error
+        if(m->byte_count-m->pc<8)return "unexpected end of module.";
         memmove(sp,m->bytes + m->pc,8);
         m->pc += 8;
         sp+=8;
@@ -628,7 +630,7 @@ static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
     }
   }
   
-  if(m->bytes[m->pc]!=0xb){
+  if(!eof){
     return "const expr miss end instruction.";
   }
   if(sp-(void *)stack!=4 && sp-(void *)stack!=8){
diff --git a/pwart/modparser.c b/pwart/modparser.c
index 75342e2..f40e9df 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -7,10 +7,16 @@
 // Reads a string from the bytes array at pos that starts with a LEB length
 // the length of string(include tailing 0) must less than maxlen, or the function read nothing.
 // return the real length of the string(include tailing 0), no matter with 'maxlen'.
-static uint32_t read_string(uint8_t *bytes, uint32_t *pos, uint32_t maxlen,char *buf) {
+// if the string exceed the module, return 1 and set *pos behind the end of the module.
+static uint32_t read_string(ModuleCompiler *m, uint8_t *bytes, uint32_t *pos, uint32_t maxlen,char *buf) {
     uint32_t savedpos=*pos;
-    int32_t str_len = read_LEB(bytes, pos, 32);
-    uint32_t copy_len=str_len;
+    uint32_t str_len = read_LEB(bytes, pos, 32);
+    if(*pos>m->byte_count || str_len>m->byte_count-*pos){
+        *pos=m->byte_count+1;
+        str_len=0;
+        if(maxlen>0)buf[0]='\0';
+        return 1;
+    }
     if(str_len+1>maxlen){
         *pos=savedpos;
         return str_len+1;
@@ -72,6 +78,18 @@ static Export *get_export(RuntimeContext *rc, const char *name, uint32_t *kind)
 }
 
 
+// allocate space for function entries, the functions generated are owned by context.
+static char *alloc_funcentries(ModuleCompiler *m){
+    RuntimeContext *rc=m->context;
+    rc->funcentries_count=m->functions->len;
+    rc->import_funcentries_count=m->import_count;
+    rc->funcentries=wa_calloc((rc->funcentries_count+1)*sizeof(WasmFunctionEntry));
+    return rc->funcentries!=NULL?NULL:"Failed to allocate function entries.";
+}
+
+// the readers move 'pos' behind the end of the module if they reach it.
+#define ReturnIfEnd() if(pos>byte_count){return "unexpected end of module.";}
+
 static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count) {
     uint8_t   vt;
     char err;
@@ -105,23 +123,26 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
     // Check the module
     pos = 0;
+    if(byte_count<8)return "unexpected end of module.";
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_MAGIC, "Wrong module magic\n");
+    if(word != WA_MAGIC)return "Wrong module magic";
     word = read_uint32(bytes, &pos);
-    wa_assert(word == WA_VERSION, "Wrong module version\n");
+    if(word != WA_VERSION)return "Wrong module version";
 
     // Read the sections
     while (pos < byte_count) {
         uint32_t id = read_LEB(bytes, &pos, 7);
         uint32_t slen = read_LEB(bytes, &pos, 32);
         int start_pos = pos;
+        ReturnIfEnd()
+        if(slen > byte_count-pos)return "unexpected end of module.";
         wa_debug("Reading section %d at 0x%x, length %d\n", id, pos, slen);
         switch (id) {
         case 0:
             wa_debug("Parsing Custom(0) section (length: 0x%x)\n", slen);
             uint32_t end_pos = pos+slen;
             char *name = m->import_name_buffer;
-            if(read_string(bytes, &pos, 512,name)>500){
+            if(read_string(m, bytes, &pos, 512,name)>500){
                 return "section name too long,must less than 500.";
             }
             wa_debug("  Section name '%s'\n", name);
@@ -147,7 +168,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Type *type = dynarr_push_type(&m->types,Type);
                 type->form = read_LEB(bytes, &pos, 7);
                 count2 = read_LEB(bytes, &pos, 32);
-                if(count2>255)return "type group too long.(should less than 256)";
+                ReturnIfEnd()
+                if(count2<0 || count2>255)return "type group too long.(should less than 256)";
                 type->params=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t p=0; p<count2; p++) {
                     type->params[p]=read_LEB(bytes, &pos, 32);
@@ -155,12 +177,14 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 type->params[count2]=0;
 
                 count2 = read_LEB(bytes, &pos, 32);
-                if(count2>255)return "type group too long.(should less than 256)";
+                ReturnIfEnd()
+                if(count2<0 || count2>255)return "type group too long.(should less than 256)";
                 type->results=(uint8_t *)pool_alloc(&m->types_pool,count2+1);
                 for (uint32_t r=0; r<count2; r++) {
                     type->results[r] = read_LEB(bytes, &pos, 32);
                 }
                 type->results[count2]=0;
+                ReturnIfEnd()
                 wa_debug("type %d:\n",c);
                 #if DEBUG_BUILD
                 debug_printfunctype(type);
@@ -177,12 +201,12 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 uint32_t module_len, field_len;
                 char *import_module,*import_field;
                 import_module=m->import_name_buffer;
-                module_len = read_string(bytes, &pos, 512,import_module);
+                module_len = read_string(m, bytes, &pos, 512,import_module);
                 if(module_len>500){return "import name too long, module+field should less than 500 byte.";};
                 import_field=import_module+module_len;
-                field_len  = read_string(bytes, &pos, 512-module_len,import_field);
+                field_len  = read_string(m, bytes, &pos, 512-module_len,import_field);
                 if(module_len+field_len>500){return "import name too long, module+field should less than 500 byte.";};
-                uint32_t external_kind = bytes[pos++];
+                uint32_t external_kind = read_LEB(bytes, &pos, 7);
 
                 wa_debug("  import: %d/%d, external_kind: %d, %s.%s\n",
                       gidx, import_count, external_kind, import_module,
@@ -193,7 +217,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
                 switch (external_kind) {
                 case PWART_KIND_FUNCTION:
-                    type_index = read_LEB(bytes, &pos, 32); break;
+                    type_index = read_LEB(bytes, &pos, 32);
+                    if(type_index>=m->types->len)return "Unknown type.";
+                    break;
                 case PWART_KIND_TABLE:
                   parse_table_type(m, &pos,&info.tab); break;
                 case PWART_KIND_MEMORY:
@@ -203,7 +229,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     // TODO: use mutability
                     mutability = read_LEB(bytes, &pos, 1);
                     (void)mutability; break;
+                default:
+                    return "Unsupported import kind.";
                 }
+                ReturnIfEnd()
 
                 
                 val=NULL;
@@ -295,6 +324,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             for (uint32_t f=0; f<localFuncCount; f++) {
                 wasmfunc=dynarr_push_type(&m->functions,WasmFunction);
                 uint32_t tidx = read_LEB(bytes, &pos, 32);
+                ReturnIfEnd()
+                if(tidx>=m->types->len)return "Unknown type.";
                 wasmfunc->fidx = f;
                 wasmfunc->tidx = tidx;
                 wa_debug("  function fidx: 0x%x, tidx: 0x%x\n",
@@ -305,6 +336,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         {
             wa_debug("Parsing Table(4) section\n");
             uint32_t table_count = read_LEB(bytes, &pos, 32);
+            if(m->context->own_tables!=NULL)return "duplicate section.";
+            if(table_count>0xffff)return "too many tables.";
             m->context->own_tables_count=table_count;
             m->context->own_tables=wa_calloc(sizeof(Table)*table_count);
             wa_debug("  table count: 0x%x\n", table_count);
@@ -312,7 +345,11 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 Table *table=m->context->own_tables+i;
                 wa_debug("create new table at %p\n",table);
                 parse_table_type(m, &pos,table);
+                ReturnIfEnd()
                 table->entries = wa_calloc(table->size*sizeof(void *));
+                if(table->entries==NULL && table->size>0){
+                    return "Failed to allocate table.";
+                }
                 *dynarr_push_type(&m->context->tables,Table *)=table;
             }
         }
@@ -322,12 +359,15 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         {
             wa_debug("Parsing Memory(5) section\n");
             uint32_t memory_count = read_LEB(bytes, &pos, 32);
+            if(m->context->own_memories!=NULL)return "duplicate section.";
+            if(memory_count>0xffff)return "too many memories.";
             m->context->own_memories_count=memory_count;
             m->context->own_memories=wa_calloc(sizeof(Memory)*memory_count);
             wa_debug("  memory count: 0x%x\n", memory_count);
             for(int i=0;i<memory_count;i++){
                 Memory *memory=m->context->own_memories+i;
                 parse_memory_type(m, &pos,memory);
+                ReturnIfEnd()
                 //XXX: custom memory creator?
                 //fixed memory is allocated to maximum, other is reallocated when grow.
                 //bytes can't be NULL even if the memory is empty, as NULL indicate native memory.
@@ -360,6 +400,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 sv->val.opw=m->context->own_globals->len;
                 // Run the init_expr to get global value
                 m->pc=pos;
+                ReturnIfEnd()
                 ReturnIfErr(waexpr_run_const(m,&result));
                 pos=m->pc;
                 switch (type) {
@@ -397,15 +438,23 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             wa_debug("Parsing Export(7) section (length: 0x%x)\n", slen);
             uint32_t export_count = read_LEB(bytes, &pos, 32);
             for (uint32_t e=0; e<export_count; e++) {
-                uint32_t strlen=read_string(bytes, &pos, 0,NULL);
+                uint32_t strlen=read_string(m, bytes, &pos, 0,NULL);
                 char *name;
                 if(strlen>256){return "export name too long, should less than 256 byte.";}
+                ReturnIfEnd()
                 name=pool_alloc(&m->context->strings_pool,strlen);
-                read_string(bytes, &pos, 257,name);
+                read_string(m, bytes, &pos, 257,name);
 
-                uint32_t external_kind = bytes[pos++];
+                uint32_t external_kind = read_LEB(bytes, &pos, 7);
                 uint32_t index = read_LEB(bytes, &pos, 32);
                 uint32_t eidx = m->context->exports->len;
+                ReturnIfEnd()
+                if((external_kind==PWART_KIND_FUNCTION && index>=m->functions->len) ||
+                    (external_kind==PWART_KIND_TABLE && index>=m->context->tables->len) ||
+                    (external_kind==PWART_KIND_MEMORY && index>=m->context->memories->len) ||
+                    (external_kind==PWART_KIND_GLOBAL && index>=m->globals->len)){
+                    return "Unknown export.";
+                }
                 {
                     Export *exp=dynarr_push_type(&m->context->exports,Export);
                     exp->external_kind=external_kind;
@@ -431,6 +480,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         case 8:
             wa_debug("Parsing Start(8) section (length: 0x%x)\n", slen);
             m->context->start_function = read_LEB(bytes, &pos, 32);
+            ReturnIfEnd()
+            if(m->context->start_function>=m->functions->len)return "Unknown function.";
             break;
         case 9:
             wa_debug("Parsing Element(9) section (length: 0x%x)\n", slen);
@@ -446,6 +497,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 if(flags>7)return "Illegal segment flags.";
                 if(!(flags&1)){
                     if(flags&2)index=read_LEB(bytes, &pos, 32);
+                    ReturnIfEnd()
                     // Run the init_expr to get offset
                     m->pc=pos;ReturnIfErr(waexpr_run_const(m,&offset));pos=m->pc;
                     if(index>=m->context->tables->len)return "Unknown table.";
@@ -454,6 +506,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 if(flags&3)pos++; //elem_kind or reference type, ignored.
 
                 uint32_t num_elem = read_LEB(bytes, &pos, 32);
+                ReturnIfEnd()
                 if(dtab!=NULL && (offset>dtab->size || num_elem>dtab->size-offset)){
                     return "elements segment does not fit.";
                 }
@@ -465,6 +518,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                         func=m->const_func;
                     }else{
                         uint32_t fidx=read_LEB(bytes, &pos, 32);
+                        ReturnIfEnd()
                         if(fidx>=m->functions->len)return "Unknown function.";
                         func=dynarr_get(m->functions,WasmFunction,fidx);
                     }
@@ -501,6 +555,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     default:
                     return "Illegal segment flags.";
                 }
+                ReturnIfEnd()
+                if(midx>=m->context->memories->len)return "Unknown memory.";
                 // Run the init_expr to get the offset
                 m->pc=pos;
                 ReturnIfErr(waexpr_run_const(m,&offset));
@@ -508,9 +564,16 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
 
                 // Copy the data to the memory offset
                 uint32_t size = read_LEB(bytes, &pos, 32);
+                ReturnIfEnd()
+                if(size>byte_count-pos)return "unexpected end of module.";
                 Memory *memory=*dynarr_get(m->context->memories,Memory *,midx);
                 wa_debug("  setting %d bytes of memory at %p + offset %d\n",
                     size, memory->bytes, offset);
+                // native memory, whose bytes is NULL, has no bounds
+                if(memory->bytes!=NULL && (offset>(uint64_t)memory->pages*PAGE_SIZE || 
+                    size>(uint64_t)memory->pages*PAGE_SIZE-offset)){
+                    return "data segment does not fit.";
+                }
                 memcpy(memory->bytes+offset, bytes+pos, size);
                 pos += size;
                 
@@ -520,9 +583,9 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
         case 10:
             wa_debug("Parsing Code(10) section (length: 0x%x)\n", slen);
             uint32_t body_count = read_LEB(bytes, &pos, 32);
-            //we must allocate space for function entries here, for code generator.
-            m->context->funcentries_count=m->import_count+body_count;
-            m->context->funcentries=wa_malloc(m->context->funcentries_count*sizeof(WasmFunctionEntry));
+            if(m->context->funcentries!=NULL)return "duplicate section.";
+            if(body_count!=m->functions->len-m->import_count)return "function and code section mismatch.";
+            ReturnIfErr(alloc_funcentries(m));
             for (uint32_t b=0; b<body_count; b++) {
                 wa_debug("generate code for function %d\n",b);
                 WasmFunction *function = dynarr_get(m->functions,WasmFunction,m->import_count+b);
@@ -530,6 +593,8 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 uint32_t payload_start = pos;
                 uint32_t local_count=0;
                 uint32_t local_type_count= read_LEB(bytes, &pos, 32);
+                ReturnIfEnd()
+                if(body_size>byte_count-payload_start)return "unexpected end of module.";
                 uint32_t save_pos, tidx, lidx, lecount;
 
                 // Local variable handling
@@ -538,8 +603,10 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 local_count = 0;
                 for (uint32_t l=0; l<local_type_count; l++) {
                     lecount = read_LEB(bytes, &pos, 32);
+                    if(lecount>MAX_LOCALS_COUNT-local_count)return "too many locals.";
                     local_count += lecount;
                     tidx =  read_LEB(bytes, &pos, 7);
+                    ReturnIfEnd()
                     (void)tidx; // TODO: use tidx?
                 }
                 function->locals_type = (uint8_t *)pool_alloc(&m->types_pool,local_count+1);
@@ -557,8 +624,6 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
                 pos=m->pc;
-                wa_assert(bytes[pos-1] == 0x0b,
-                       "Code section did not end with 0x0b\n");
             }
             break;
         default:
@@ -566,11 +631,17 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             pos += slen;
             break;
         }
+        ReturnIfEnd()
+
+    }
 
+    if(m->context->funcentries==NULL){
+        //no code section
+        if(m->functions->len!=m->import_count)return "function and code section mismatch.";
+        ReturnIfErr(alloc_funcentries(m));
     }
 
     //set functionentry
-    m->context->import_funcentries_count=m->import_count;
     for(int i=0;i<m->functions->len;i++){
         m->context->funcentries[i]=dynarr_get(m->functions,WasmFunction,i)->func_ptr;
     }
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index e7c4cb3..db37c83 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -156,8 +156,7 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
     opgen_GenRefFunc(m, fidx);
     break;
   case 0xfc: // misc prefix
-    opcode2=m->bytes[m->pc];
-    m->pc++;
+    opcode2=read_LEB(bytes, &m->pc, 32);
     ReturnIfErr(opgen_GenMiscOp_FC(m,opcode2));
     break;
   default:
diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index b9ee56b..fb43496 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -307,6 +307,11 @@ static inline size_t get_funcarr_offset(ModuleCompiler *m) {
 // function).
 static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
   StackValue *sv2,*sv;
+  if (m->sp >= OPERAND_STACK_COUNT - 2) {
+    // reported after current instruction, use the last entry as placeholder.
+    m->stack_overflow = 1;
+    m->sp = OPERAND_STACK_COUNT - 2;
+  }
   sv2 = &m->stack[++m->sp];
   sv2->jit_type = SVT_GENERAL;
   sv2->wasm_type=wasm_type;
@@ -320,7 +325,6 @@ static StackValue *stackvalue_Push(ModuleCompiler *m, int32_t wasm_type) {
       sv2->frame_offset=stackvalue_GetAlignedOffset(sv2,sv2->frame_offset,NULL);
     }
   }
-  wa_assert(m->sp<OPERAND_STACK_COUNT-1,"operand stack overflow");
   return sv2;
 }
 
diff --git a/pwart/util.c b/pwart/util.c
index a9801cc..ae3a290 100644
--- a/pwart/util.c
+++ b/pwart/util.c
@@ -67,7 +67,8 @@ static void wa_assert(int cond,char *failInfo){
 
 // type readers
 
-static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int sign) {
+// limit is the number of available bytes. If reach the limit, return 0 and set *pos to limit+1.
+static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t limit, uint32_t maxbits, int sign) {
     uint64_t result = 0;
     uint32_t shift = 0;
     uint32_t bcnt = 0;
@@ -75,9 +76,15 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     uint64_t byte;
 
     while (1) {
+        if (*pos >= limit) {
+            *pos = limit + 1;
+            return 0;
+        }
         byte = bytes[*pos];
         *pos += 1;
-        result |= ((byte & 0x7f)<<shift);
+        if (shift < 64) {
+            result |= ((byte & 0x7f)<<shift);
+        }
         shift += 7;
         if ((byte & 0x80) == 0) {
             break;
@@ -94,13 +101,9 @@ static uint64_t read_LEB_(uint8_t *bytes, uint32_t *pos, uint32_t maxbits, int s
     return result;
 }
 
-static uint64_t read_LEB(uint8_t *bytes, uint32_t *pos, uint32_t maxbits) {
-    return read_LEB_(bytes, pos, maxbits, 0);
-}
-
-static uint64_t read_LEB_signed(uint8_t *bytes, uint32_t *pos, uint32_t maxbits) {
-    return read_LEB_(bytes, pos, maxbits, 1);
-}
+// Read from the module of ModuleCompiler 'm', which must be visible here.
+#define read_LEB(bytes,pos,maxbits) read_LEB_(bytes,pos,m->byte_count,maxbits,0)
+#define read_LEB_signed(bytes,pos,maxbits) read_LEB_(bytes,pos,m->byte_count,maxbits,1)
 
 static uint32_t read_uint32(uint8_t *bytes, uint32_t *pos) {
     *pos += 4;
@@ -202,11 +205,15 @@ static void pool_init(struct pool *p,int chunk_size){
     p->chunk_size=chunk_size;
 }
 
-//alloc size must less than chunk_size
 static char *pool_alloc(struct pool *p,int size){
-    wa_assert(size<=p->chunk_size,"pool_alloc require size<chunk_size");
     char *r;
-    if(p->used+size<=p->chunk_size){
+    if(size>p->chunk_size){
+        // use a chunk of its own, no space left for next allocation.
+        r=wa_calloc(size);
+        *dynarr_push_type(&p->chunks,char *)=r;
+        p->cur=p->chunks->len-1;
+        p->used=p->chunk_size;
+    }else if(p->used+size<=p->chunk_size){
         r=*dynarr_get(p->chunks,char *,p->cur)+p->used;
         p->used+=size;
     }else{
diff --git a/pwart/wagen.c b/pwart/wagen.c
index ee55978..fe9f88d 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -11,7 +11,7 @@
 #include "opgen_misc.c"
 
 
-static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
+static char *wasm_SkipImmediates(ModuleCompiler *m, uint8_t *bytes, uint32_t *pos) {
   uint32_t count, opcode = bytes[*pos];
   *pos = *pos + 1;
   switch (opcode) {
@@ -50,7 +50,7 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
     break;
   case 0x1c: // select t
     count = read_LEB(bytes, pos, 32); // type count
-    for (uint32_t i = 0; i < count; i++) {
+    for (uint32_t i = 0; i < count && *pos < m->byte_count; i++) {
       read_LEB(bytes, pos, 32);
     }
     break;
@@ -82,15 +82,14 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
   // br_table
   case 0x0e:                          // br_table
     count = read_LEB(bytes, pos, 32); // target count
-    for (uint32_t i = 0; i < count; i++) {
+    for (uint32_t i = 0; i < count && *pos < m->byte_count; i++) {
       read_LEB(bytes, pos, 32);
     }
     read_LEB(bytes, pos, 32); // default target
     break;
   case 0xfc: //misc op.
   {
-    int opc2=bytes[*pos];
-    *pos = *pos + 1;
+    int opc2=read_LEB(bytes,pos,32);
     switch(opc2){
       case 0xa:
       case 0xe:
@@ -101,12 +100,23 @@ static void wasm_SkipImmediates(uint8_t *bytes, uint32_t *pos) {
       case 0x0f: case 0x10: case 0x11:
       read_LEB(bytes,pos,32); 
       break;
+      case 0x0: case 0x1: case 0x2: case 0x3: case 0x4: case 0x5: case 0x6: case 0x7:
+      break;
+      default:
+      return "unrecognized opcode";
     }
   }
     break;
-  default: // no immediates
+  // no immediates
+  case 0x00: case 0x01: case 0x05: case 0x0b: case 0x0f: case 0x1a: case 0x1b: case 0xd1:
+    break;
+  default:
+    if (opcode < 0x45 || opcode > 0xc4) {
+      return "unrecognized opcode";
+    }
     break;
   }
+  return NULL;
 }
 
 
@@ -261,11 +271,11 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
       break;
     default:
       m->pc--;
-      wasm_SkipImmediates(m->bytes, &m->pc);
+      ReturnIfErr(wasm_SkipImmediates(m, m->bytes, &m->pc));
       break;
     }
   }
-  if(m->bytes[m->pc - 1] != 0xb){return "Function not end with 0x0b, unsupported feature may used.";}
+  if(!eof || m->pc > m->byte_count){return "Function not end with 0x0b, unsupported feature may used.";}
   m->locals_need_zero=NULL;
   if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
     dynarr_init(&m->locals_need_zero,sizeof(int16_t));
@@ -304,7 +314,7 @@ static void pwart_SkipUnreachable(ModuleCompiler *m) {
     } else if (opcode == WASMOPC_end) {
       depth--;
     }
-    wasm_SkipImmediates(m->bytes, &m->pc);
+    wasm_SkipImmediates(m, m->bytes, &m->pc);
     #if DEBUG_BUILD
     m->insnCnt--;
     #endif
@@ -368,6 +378,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
     } else {
       ReturnIfErr(opgen_GenMiscOp(m, opcode));
     }
+    if (m->stack_overflow) return "operand stack overflow";
   }
 
   #if DEBUG_BUILD
@@ -388,6 +399,7 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
 
   // Empty stacks
   m->sp = -1;
+  m->stack_overflow = 0;
 
   m->function_type = dynarr_get(m->types, Type, func->tidx);
   m->function_locals_type = func->locals_type;
@@ -401,6 +413,7 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   code = (WasmFunctionEntry)sljit_generate_code(m->jitc,0,NULL);
   sljit_free_compiler(m->jitc);
   m->jitc=NULL;
+  if (code == NULL) return "failed to generate code, function may be too large.";
   dynarr_free(&m->locals);
   func->func_ptr = code;
   return NULL;
-- 
2.43.0


From 09eba0bc777f3159891ff712d9a90cb87246263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 22/74] fix: table access through table 0 works without the
 cached table entries

---
 pwart/opgen_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 629d9ed..bc0959b 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -93,7 +93,7 @@ static void opgen_GenBaseAddressRegForTable(ModuleCompiler *m,uint32_t tabidx){
   a = pwart_GetFreeReg(m, RT_BASE, 1);
   sljit_emit_op2(m->jitc, SLJIT_SHL, a, 0, sv->val.op, sv->val.opw, SLJIT_IMM,
                 sizeof(void *) == 4 ? 2 : 3);
-  if(tabidx==0){
+  if(tabidx==0 && m->table_entries_local>=0){
     sv2 = dynarr_get(m->locals, StackValue, m->table_entries_local);
     sljit_emit_op2(m->jitc, SLJIT_ADD, a, 0, a, 0, sv2->val.op, sv2->val.opw);
   }else{
-- 
2.43.0


From 163d0fd72b357f69367d0edc231b54310e0d4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 23/74] fix: arguments are placed contiguously when the stack
 is aligned

---
 pwart/opgen_utils.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index fb43496..af8e43e 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -362,6 +362,12 @@ static void stackvalue_EmitSwapTopTwoValue(ModuleCompiler *m) {
 }
 
 
+// if stack value is at the operand stack part of the frame.
+static int opgen_IsOnStack(ModuleCompiler *m, StackValue *sv) {
+  return sv->jit_type == SVT_GENERAL && sv->val.op == SLJIT_MEM1(SLJIT_S0) &&
+      sv->val.opw >= m->first_stackvalue_offset;
+}
+
 static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg,
                               sljit_sw offset,int callReturn) {
   StackValue *sv;
@@ -404,25 +410,24 @@ static char *pwart_EmitCallFunc2(ModuleCompiler *m, Type *type, sljit_s32 memreg
       }
       pwart_EmitSaveStack(m,sv+a);
     }
-  }else if((pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN) && ((sv->frame_offset&7)>0)){
-    //XXX: move stack value to align frame to 8 ,we should avoid this happen.
-    sv->frame_offset+=4;
-    if(len>0){
-      b=sv->frame_offset+stackvalue_GetSizeAndAlign(sv,NULL);
-      m->sp+=len;
-      for(a=1;a<len;a++){
-        sv++;
-        sv->frame_offset = stackvalue_GetAlignedOffset(sv,b,&b);
-      }
-      //re-save stackvalue from last to head, to avoid stack overwriting
-      sv=m->stack+m->sp;
-      for(a=0;a<len;a++){
-        pwart_EmitSaveStack(m,sv);
-        sv--;
-      }
-      //move sp back
-      m->sp-=len;
-      sv=m->stack+m->sp+1; // first argument
+  }else if(pwart_gcfg.stack_flags&PWART_STACK_FLAGS_AUTO_ALIGN){
+    // The frame must be aligned to 8 and the arguments must follow each other, but the slot of a stack value may not 
+    // be the lowest possible one, as the results of a call are placed at its frame. 
+    b=(sv->frame_offset+7)&~7;
+    if(len==0)sv->frame_offset=b;
+    for(a=0;a<len;a++){
+      sv[a].frame_offset=stackvalue_GetAlignedOffset(sv+a,b,&b);
+    }
+    // move the arguments already on stack, upward from last to head, then downward from head to last, 
+    // to avoid stack overwriting, and save the others at last.
+    for(a=len-1;a>=0;a--){
+      if(opgen_IsOnStack(m,sv+a) && sv[a].val.opw<sv[a].frame_offset)pwart_EmitSaveStack(m,sv+a);
+    }
+    for(a=0;a<len;a++){
+      if(opgen_IsOnStack(m,sv+a))pwart_EmitSaveStack(m,sv+a);
+    }
+    for(a=0;a<len;a++){
+      pwart_EmitSaveStack(m,sv+a);
     }
   }else{
     for(i=len;i>0;i--){
-- 
2.43.0


From e7efb978b20384b5b4462b97657621704bb74f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 24/74] fix: memory.size, memory.grow and memory.fill of 64bit
 memories use 64bit operands

---
 pwart/def.h       |  2 ++
 pwart/extfunc.c   | 41 ++++++++++++++++++++++++++---------------
 pwart/modparser.c |  6 ++++++
 pwart/opgen_mem.c | 16 +++++++++++++++-
 4 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 6cd597a..349d5f9 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -198,6 +198,8 @@ typedef struct ModuleCompiler {
 
     struct dynarr *ref_inits;      //elements and function globals to write when functions are generated, type RefInit
 
+    struct dynarr *memories_is64;  //if the memories have 64bit index, type uint8_t
+
     WasmFunction *const_func;      //function referred by the last const expr.
 
     struct pwart_symbol_resolver *import_resolver;
diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index d1ad6d2..743aa1f 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -292,32 +292,41 @@ static void insn_f64converti64u(double *fp){
 }
 // keep argument aligned, to avoid effect from PWART_STACK_FLAGS_AUTO_ALIGN.
 // (i32 delta, i32 memory_index,ref runtime_context)
-static void insn_memorygrow(void *fp){
-  void *sp=fp;
-  uint32_t delta = pwart_rstack_get_i32(&sp);
-  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
-  RuntimeContext *m=pwart_rstack_get_ref(&sp);
-  Memory *mem=*dynarr_get(m->memories,Memory *,index);
+// grow memory by delta pages, return the previous size in pages, or -1 if failed.
+static int64_t memory_Grow(Memory *mem,uint64_t delta){
   uint32_t prev_pages = mem->pages;
-  if ((uint64_t)delta + prev_pages > mem->maximum) {
-    sp=fp;
-    pwart_rstack_put_i32(&sp,-1);
-    return;
+  if (mem->maximum < prev_pages || delta > mem->maximum - prev_pages) {
+    return -1;
   }
   if(!mem->fixed && delta>0){
     uint8_t *bytes = wa_realloc(mem->bytes, ((size_t)prev_pages + delta) * PAGE_SIZE);
     if(bytes==NULL){
-      sp=fp;
-      pwart_rstack_put_i32(&sp,-1);
-      return;
+      return -1;
     }
     mem->bytes = bytes;
     memset(mem->bytes+(size_t)prev_pages*PAGE_SIZE,0,(size_t)delta*PAGE_SIZE);
   }
   mem->pages += delta;
+  return prev_pages;
+}
+static void insn_memorygrow(void *fp){
+  void *sp=fp;
+  uint32_t delta = pwart_rstack_get_i32(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  Memory *mem=*dynarr_get(m->memories,Memory *,index);
+  sp=fp;
+  pwart_rstack_put_i32(&sp,(int32_t)memory_Grow(mem,delta));
+}
+// memory.grow for memory with 64bit index
+static void insn_memorygrow64(void *fp){
+  void *sp=fp;
+  uint64_t delta = pwart_rstack_get_i64(&sp);
+  uint32_t index=pwart_rstack_get_i32(&sp); // memory index
+  RuntimeContext *m=pwart_rstack_get_ref(&sp);
+  Memory *mem=*dynarr_get(m->memories,Memory *,index);
   sp=fp;
-  pwart_rstack_put_i32(&sp,prev_pages);
-  return;
+  pwart_rstack_put_i64(&sp,memory_Grow(mem,delta));
 }
 //get pwart version
 static void insn_version(uint32_t *fp){
@@ -488,6 +497,8 @@ static Type func_type_i32_ret_f64 = {.params = types_i32, .results = types_f64};
 static Type func_type_i64_ret_f64 = {.params = types_i64, .results = types_f64};
 
 
+static uint8_t types_i64_i32_ref[] = {WVT_I64, WVT_I32, WVT_REF, 0};
+static Type func_type_i64_i32_ref_ret_i64 = {.params = types_i64_i32_ref, .results = types_i64};
 static Type func_type_i32_i32_ref_ret_i32 = {.params = types_i32_i32_ref, .results = types_i32};
 static Type func_type_ref_ref_i32_void={.params=types_ref_ref_i32,.results=types_void};
 static Type func_type_memoryfill={.params=types_ref_i32_i32_ref_i32,.results=types_void};
diff --git a/pwart/modparser.c b/pwart/modparser.c
index f40e9df..2e2f4bd 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -48,6 +48,8 @@ static void parse_table_type(ModuleCompiler *m, uint32_t *pos,Table *table) {
 
 static void parse_memory_type(ModuleCompiler *m, uint32_t *pos,Memory *mem) {
   uint32_t flags = read_LEB(m->bytes, pos, 32);
+  // called once for each memory, in order.
+  *dynarr_push_type(&m->memories_is64,uint8_t)=(flags & 0x4)!=0;
   uint32_t pages = read_LEB(m->bytes, pos, 32); // Initial size
   mem->initial = pages;
   mem->pages = pages;
@@ -118,6 +120,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     dynarr_init(&m->context->own_globals,sizeof(uint8_t));
     dynarr_init(&m->functions,sizeof(WasmFunction));
     dynarr_init(&m->ref_inits,sizeof(RefInit));
+    dynarr_init(&m->memories_is64,sizeof(uint8_t));
     m->context->resolver=m->import_resolver;
     m->context->start_function = 0xffffffff;
 
@@ -733,6 +736,9 @@ static char *free_module(ModuleCompiler *m){
     if(m->functions!=NULL){
         dynarr_free(&m->functions);
     }
+    if(m->memories_is64!=NULL){
+        dynarr_free(&m->memories_is64);
+    }
     if(m->ref_inits!=NULL){
         dynarr_free(&m->ref_inits);
     }
diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index bc0959b..db35a3e 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -144,15 +144,24 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  if(*dynarr_get(m->memories_is64,uint8_t,index)){
+    opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
+  }
 }
 static void opgen_GenMemoryGrow(ModuleCompiler *m,uint32_t index) {
+  int is64=m->stack[m->sp].wasm_type==WVT_I64;
   opgen_GenI32Const(m,index);
   opgen_GenRefConst(m,m->context);
+  if(is64){
+    pwart_EmitCallFunc(m, &func_type_i64_i32_ref_ret_i64, SLJIT_IMM,
+                     (sljit_sw)&insn_memorygrow64);
+    return;
+  }
   pwart_EmitCallFunc(m, &func_type_i32_i32_ref_ret_i32, SLJIT_IMM,
                      (sljit_sw)&insn_memorygrow);
 }
 
-static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, int offset) {
+static void opgen_GenI32Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=m->stack+m->sp;
   int a=pwart_GetFreeReg(m,RT_INTEGER,1);
   switch (opcode) {
@@ -451,6 +460,11 @@ static void opgen_GenMemoryFill(ModuleCompiler *m,int midx){
   sv = stackvalue_PushStackValueLike(m, sv2);
   sv2->jit_type=SVT_DUMMY;
 
+  if(sv->wasm_type==WVT_I64){
+    //XXX: we limit to use 32bit count now, as memory.copy.
+    opgen_GenNumOp(m,0xa7);//i32.wrap_i64
+  }
+
   opgen_GenRefNull(m,0);
   opgen_GenI32Const(m,0);
 
-- 
2.43.0


From 84dc891e8c322fae9766ec5efd8f55338dc014ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 25/74] fix: memory.size, table.size and ref.func load their
 value when executed

---
 pwart/opgen_mem.c  | 1 +
 pwart/opgen_misc.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index db35a3e..58275e4 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -144,6 +144,7 @@ static void opgen_GenCurrentMemory(ModuleCompiler *m,uint32_t index) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
   if(*dynarr_get(m->memories_is64,uint8_t,index)){
     opgen_GenNumOp(m,WASMOPC_i64_extend_i32_u);
   }
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index db37c83..4c0ee55 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -40,6 +40,7 @@ static void opgen_GenRefFunc(ModuleCompiler *m, int32_t fidx) {
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(a);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 
 static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
@@ -52,6 +53,7 @@ static void opgen_GenTableSize(ModuleCompiler *m,int tabidx){
   sv->jit_type = SVT_GENERAL;
   sv->val.op = SLJIT_MEM1(r);
   sv->val.opw = 0;
+  pwart_EmitStackValueLoadReg(m, sv);
 }
 
 static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
-- 
2.43.0


From 74c2a4034b0128da1b88b7293648fdaf4afd8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 26/74] fix: setting a local keeps pending reinterpreted copies
 of it

---
 pwart/opgen_mem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index 58275e4..d43546b 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -20,7 +20,7 @@ static void opgen_GenLocalSet(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM) || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
@@ -36,7 +36,7 @@ static void opgen_GenLocalTee(ModuleCompiler *m, uint32_t idx) {
   // check if local variable still on stack.
   for (int i = 0; i < m->sp; i++) {
     // XXX: If we use SLJIT_MEM(SLJIT_Sx), here need change.
-    if (stack[i].jit_type==SVT_GENERAL && stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
+    if (stack[i].jit_type==SVT_GENERAL && ((sv->val.op & SLJIT_MEM) || stackvalue_IsFloat(&stack[i]) == stackvalue_IsFloat(sv)) && stack[i].val.op == sv->val.op  && stack[i].val.opw == sv->val.opw ) {
       pwart_EmitSaveStack(m, &stack[i]);
     }
   }
-- 
2.43.0


From 4b1fb8107996a6fdebc99f5020ffe31be1c2d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 27/74] fix: float loads use the whole static offset

---
 pwart/opgen_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_mem.c b/pwart/opgen_mem.c
index d43546b..899be93 100644
--- a/pwart/opgen_mem.c
+++ b/pwart/opgen_mem.c
@@ -245,7 +245,7 @@ static void opgen_GenI64Load(ModuleCompiler *m, int32_t opcode, sljit_sw offset)
   }
 }
 
-static void opgen_GenFloatLoad(ModuleCompiler *m, int32_t opcode, uint32_t offset) {
+static void opgen_GenFloatLoad(ModuleCompiler *m, int32_t opcode, sljit_sw offset) {
   StackValue *sv=NULL;
   int a=m->stack[m->sp].val.op;
   m->sp--;
-- 
2.43.0


From 7dd15f137603d6fe21ac61bcb9b3e20adf3270dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 28/74] fix: all scratch float registers in use are saved
 before a call

---
 pwart/opgen_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index af8e43e..662f9f4 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -234,7 +234,9 @@ static char* pwart_EmitSaveScratchRegisterAll(ModuleCompiler *m,int upstack) {
   for (i = 0; i <= m->sp-upstack; i++) {
     if(m->stack[i].jit_type==SVT_GENERAL){
       usereg=SLJIT_GET_REG_PART(m->stack[i].val.op);
-      if(usereg!=0 && usereg< SLJIT_FIRST_SAVED_REG){
+      //float registers are all scratch registers, and only general registers are used as memory base.
+      if(usereg!=0 && (usereg< SLJIT_FIRST_SAVED_REG || 
+          (stackvalue_IsFloat(m->stack+i) && m->stack[i].val.op!=SLJIT_IMM && !(m->stack[i].val.op&SLJIT_MEM)))){
         pwart_EmitSaveStack(m,m->stack+i);
       }
     }else if(m->stack[i].jit_type==SVT_TWO_REG){
-- 
2.43.0


From ce0e8c44673639d5b7c11f27677cafcb916b5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 29/74] fix: a module compiler leaks nothing, whether or not it
 compiled, or failed

---
 pwart/modparser.c | 6 +++---
 pwart/wagen.c     | 9 +--------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 2e2f4bd..4922dcb 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -165,7 +165,6 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
             int count,count2;
             wa_debug("Parsing Type(1) section (length: 0x%x)\n", slen);
             count = read_LEB(bytes, &pos, 32);
-            m->types=NULL;
             dynarr_init(&m->types,sizeof(Type));
             for (uint32_t c=0; c<count; c++) {
                 Type *type = dynarr_push_type(&m->types,Type);
@@ -626,6 +625,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                 }
                 m->pc=pos;
                 ReturnIfErr(pwart_EmitFunction(m,function));
+                m->context->funcentries[m->import_count+b]=function->func_ptr;
                 pos=m->pc;
             }
             break;
@@ -710,7 +710,7 @@ static int free_runtimectx(RuntimeContext *rc){
     if(rc->funcentries!=NULL){
         //only free code generate by module self.
         for(i=rc->import_funcentries_count;i<rc->funcentries_count;i++){
-            if(rc->funcentries!=NULL)
+            if(rc->funcentries[i]!=NULL)
                 pwart_FreeFunction(rc->funcentries[i]);
         }
         wa_free(rc->funcentries);
@@ -724,7 +724,7 @@ static int free_runtimectx(RuntimeContext *rc){
 
 static char *free_module(ModuleCompiler *m){
     int i=0;
-    if(!m->compile_succeeded){
+    if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
     if(m->types!=NULL){
diff --git a/pwart/wagen.c b/pwart/wagen.c
index fe9f88d..24b1205 100644
--- a/pwart/wagen.c
+++ b/pwart/wagen.c
@@ -133,9 +133,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
   uint8_t opcode, eof=0;
   uint32_t len = 0;
   Block *blk = NULL;
-  m->locals = NULL;
   dynarr_init(&m->locals, sizeof(StackValue));
-  m->blocks=NULL;
   dynarr_init(&m->blocks,sizeof(Block));
   m->cached_midx=-1;
   int i;
@@ -276,7 +274,7 @@ static char *pwart_PrepareFunc(ModuleCompiler *m) {
     }
   }
   if(!eof || m->pc > m->byte_count){return "Function not end with 0x0b, unsupported feature may used.";}
-  m->locals_need_zero=NULL;
+  dynarr_free(&m->locals_need_zero);
   if(pwart_gcfg.misc_flags&PWART_MISC_FLAGS_LOCALS_ZERO_INIT){
     dynarr_init(&m->locals_need_zero,sizeof(int16_t));
     for(int i1=paramCnt;i1<m->locals->len;i1++){
@@ -340,9 +338,7 @@ static char *pwart_GenCode(ModuleCompiler *m) {
 
   pwart_EmitFuncEnter(m);
 
-  m->blocks = NULL;
   dynarr_init(&m->blocks, sizeof(Block));
-  m->br_table = NULL;
   dynarr_init(&m->br_table, sizeof(uint32_t));
 
   block = dynarr_push_type(&m->blocks, Block);
@@ -404,9 +400,6 @@ static char *pwart_EmitFunction(ModuleCompiler *m, WasmFunction *func) {
   m->function_type = dynarr_get(m->types, Type, func->tidx);
   m->function_locals_type = func->locals_type;
 
-  m->locals = NULL;
-  dynarr_init(&m->locals, sizeof(StackValue));
-
   ReturnIfErr(pwart_PrepareFunc(m));
   m->pc = savepos;
   ReturnIfErr(pwart_GenCode(m));
-- 
2.43.0


From cea88f2039550689e0af65e68924a39eda706cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 30/74] fix: a module compiler can compile another module

---
 pwart/modparser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 4922dcb..19abc6d 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -89,6 +89,8 @@ static char *alloc_funcentries(ModuleCompiler *m){
     return rc->funcentries!=NULL?NULL:"Failed to allocate function entries.";
 }
 
+static void reset_module(ModuleCompiler *m);
+
 // the readers move 'pos' behind the end of the module if they reach it.
 #define ReturnIfEnd() if(pos>byte_count){return "unexpected end of module.";}
 
@@ -96,6 +98,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
     uint8_t   vt;
     char err;
     uint32_t  pos = 0, word;
+    reset_module(m);
     m->compile_succeeded=0;
 
     // Allocate the module
@@ -722,11 +725,14 @@ static int free_runtimectx(RuntimeContext *rc){
     return 0;
 }
 
-static char *free_module(ModuleCompiler *m){
+// free everything of last compile, except the context compiled successfully, which is owned by user.
+static void reset_module(ModuleCompiler *m){
     int i=0;
     if(!m->compile_succeeded && m->context!=NULL){
         free_runtimectx(m->context);
     }
+    m->context=NULL;
+    m->import_count=0;
     if(m->types!=NULL){
         dynarr_free(&m->types);
     }
@@ -765,6 +771,10 @@ static char *free_module(ModuleCompiler *m){
         sljit_free_compiler(m->jitc);
         m->jitc=NULL;
     }
+}
+
+static char *free_module(ModuleCompiler *m){
+    reset_module(m);
     wa_free(m);
     return 0;
 }
-- 
2.43.0


From 18fd384e59fa39e295d248aa7953c226ef2acb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 31/74] fix: a namespace keeps the names of its modules, and
 frees them with its module list

---
 pwart/namespace.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pwart/namespace.c b/pwart/namespace.c
index 06c8389..b9ef223 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -75,6 +75,10 @@ extern char *pwart_namespace_delete(pwart_namespace ns){
                 break;
         }
     }
+    for(i=0;i<n->mods->len;i++){
+        wa_free((void *)dynarr_get(n->mods,struct pwart_named_module,i)->name);
+    }
+    dynarr_free(&n->mods);
     if(n->nsmeta!=NULL){
         wa_free(n->nsmeta);
     }
@@ -116,13 +120,19 @@ extern char *pwart_namespace_remove_module(pwart_namespace ns,const char *name){
 extern char *pwart_namespace_define_module(pwart_namespace ns,struct pwart_named_module *mod){
     Namespace *n=(Namespace *)ns;
     struct pwart_named_module *m;
+    char *name;
     m=pwart_namespace_find_module(ns,mod->name);
     if(m!=NULL){
         pwart_namespace_remove_module(ns,m->name);
+        name=(char *)m->name;
     }else{
+        // caller may free the name, or write to it.
+        name=wa_malloc(strlen(mod->name)+1);
+        strcpy(name,mod->name);
         m=dynarr_push_type(&n->mods,struct pwart_named_module);
     }
     memmove(m,mod,sizeof(struct pwart_named_module));
+    m->name=name;
     switch(m->type){
         case PWART_MODULE_TYPE_HOST_MODULE:
         m->val.host->namespace2=ns;
-- 
2.43.0


From 5048ce5ee5f409493bd25add193b7de4a35f7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 32/74] fix: a module which fails to load into a namespace is
 freed, and its error returned

---
 pwart/extfunc.c   | 2 +-
 pwart/namespace.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 743aa1f..bce214d 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -415,7 +415,7 @@ static void insn_load_module(void *fp){
   Namespace *ns=namespace_GetNamespaceFormResolver(m->resolver);
   char *err_msg=NULL;
   pwart_module_state stat=pwart_namespace_define_wasm_module((pwart_namespace)ns,name,wasm_bytes,length,&err_msg);
-  pwart_wasm_function stfn=pwart_get_start_function(stat);
+  pwart_wasm_function stfn=stat!=NULL?pwart_get_start_function(stat):NULL;
   if(stfn!=NULL){
     pwart_call_wasm_function(stfn,sp);
   }
diff --git a/pwart/namespace.c b/pwart/namespace.c
index b9ef223..1d68d8d 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -160,6 +160,7 @@ extern pwart_module_state *pwart_namespace_define_wasm_module(pwart_namespace ns
         state=pwart_get_module_state(m);
     }else{
         if(err_msg!=NULL)*err_msg=err;
+        pwart_free_module_compiler(m);
         return NULL;
     }
     pwart_free_module_compiler(m);
-- 
2.43.0


From e4f97d8d58cc5d9f084ca742269ede32bec8b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 33/74] fix: inspecting a module without table or memory
 reports none

---
 pwart/pwart.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwart/pwart.c b/pwart/pwart.c
index 917c341..9aa6566 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -104,6 +104,7 @@ extern pwart_module_state pwart_get_module_state(pwart_module_compiler mod){
 
 extern char *pwart_inspect_module_state(pwart_module_state c,struct pwart_inspect_result1 *result){
     RuntimeContext *rc=c;
+    memset(result,0,sizeof(struct pwart_inspect_result1));
     if(rc->tables->len>0){
         Table *tab=*dynarr_get(rc->tables,Table *,0);
         result->table_entries_count=tab->size;
-- 
2.43.0


From 00dc5e4425775f98db457914990b63b5d91ec151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 34/74] fix: fopen and fclose return 0 as error if succeeded

---
 pwart/extfunc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index bce214d..fb87520 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -745,6 +745,7 @@ static void insn_fopen(void *fp){
   _wargref(filename)
   _wargref(mode)
   sp=fp;
+  errno=0;
   FILE *f=fopen(filename,mode);
   pwart_rstack_put_ref(&sp,f);
   pwart_rstack_put_i32(&sp,errno);
@@ -778,6 +779,7 @@ static void insn_fclose(void *fp){
   void *sp=fp;
   _wargref(file)
   sp=fp;
+  errno=0;
   fclose(file);
   pwart_rstack_put_i32(&sp,errno);
 }
-- 
2.43.0


From 7534439adf82053af7197eee02410a7840f98888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 35/74] fix: the builtin symbols are initialized before any
 thread uses them

---
 pwart/def.h        |  2 +-
 pwart/opgen_misc.c |  2 --
 pwart/pwart.c      | 79 +++++++++++++++++++++-------------------------
 3 files changed, 37 insertions(+), 46 deletions(-)

diff --git a/pwart/def.h b/pwart/def.h
index 349d5f9..637335d 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -503,7 +503,7 @@ static char OPERATOR_INFO[][20] = {
 
 #endif
 
-static struct{
+static struct pwart_InlineFuncs{
   pwart_wasm_function get_self_runtime_context;
   pwart_wasm_function ref_from_index;
   pwart_wasm_function ref_from_i64;
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 4c0ee55..0e35561 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -171,8 +171,6 @@ static char *opgen_GenMiscOp(ModuleCompiler *m, int opcode) {
 
 //if fn is stub/inline function, generate native code and return 1, else return 0.
 static int pwart_CheckAndGenStubFunction(ModuleCompiler *m,WasmFunctionEntry fn){
-  int i1;
-  pwart_get_builtin_symbols(&i1);
   if(fn==pwart_InlineFuncList.get_self_runtime_context){
     opgen_GenRefConst(m,m->context);
     return 1;
diff --git a/pwart/pwart.c b/pwart/pwart.c
index 9aa6566..7228451 100644
--- a/pwart/pwart.c
+++ b/pwart/pwart.c
@@ -277,53 +277,46 @@ extern pwart_wasm_function pwart_get_start_function(pwart_module_state m){
     }
 }
 
-static struct dynarr *builtin_symbols=NULL;  //type pwart_named_symbol
 static struct pwart_wasm_memory native_memory={
     .bytes=NULL,.fixed=1,.initial=0x7fffffff,.maximum=0x7fffffff,.pages=0x7fffffff
 };
 
-#define _ADD_BUILTIN_FN(fname) sym=dynarr_push_type(&builtin_symbols,struct pwart_named_symbol); \
-sym->name=#fname; \
-sym->kind=PWART_KIND_FUNCTION;\
-sym->val.fn=pwart_wrap_host_function_c((void *)insn_##fname);
+// initialized statically, so any thread can use it.
+#define _BUILTIN_FN(fname) {.name=#fname,.kind=PWART_KIND_FUNCTION,.val={.fn=(pwart_wasm_function)&insn_##fname}},
+
+static struct pwart_named_symbol builtin_symbols[]={
+    _BUILTIN_FN(version)
+    _BUILTIN_FN(memory_alloc)
+    _BUILTIN_FN(memory_free)
+    _BUILTIN_FN(load_module)
+    _BUILTIN_FN(unload_module)
+    _BUILTIN_FN(import)
+    _BUILTIN_FN(get_self_runtime_context)
+    _BUILTIN_FN(native_index_size)
+    _BUILTIN_FN(ref_from_index)
+    _BUILTIN_FN(ref_copy_bytes)
+    _BUILTIN_FN(ref_string_length)
+    _BUILTIN_FN(ref_from_i64)
+    _BUILTIN_FN(i64_from_ref)
+    _BUILTIN_FN(host_definition)
+    _BUILTIN_FN(fread)
+    _BUILTIN_FN(fwrite)
+    _BUILTIN_FN(fopen)
+    _BUILTIN_FN(fclose)
+    _BUILTIN_FN(stdio)
+    {.name="native_memory",.kind=PWART_KIND_MEMORY,.val={.mem=&native_memory}}
+};
+
+#undef _BUILTIN_FN
+
+static struct pwart_InlineFuncs pwart_InlineFuncList={
+    .get_self_runtime_context=(pwart_wasm_function)&insn_get_self_runtime_context,
+    .ref_from_index=(pwart_wasm_function)&insn_ref_from_index,
+    .ref_from_i64=(pwart_wasm_function)&insn_ref_from_i64,
+    .i64_from_ref=(pwart_wasm_function)&insn_i64_from_ref
+};
 
 extern struct pwart_named_symbol *pwart_get_builtin_symbols(int *arr_size){
-    if(builtin_symbols==NULL){
-        struct pwart_named_symbol *sym;
-        dynarr_init(&builtin_symbols,sizeof(struct pwart_named_symbol));
-        _ADD_BUILTIN_FN(version)
-        _ADD_BUILTIN_FN(memory_alloc)
-        _ADD_BUILTIN_FN(memory_free)
-        _ADD_BUILTIN_FN(load_module)
-        _ADD_BUILTIN_FN(unload_module)
-        _ADD_BUILTIN_FN(import)
-        _ADD_BUILTIN_FN(get_self_runtime_context)
-        pwart_InlineFuncList.get_self_runtime_context=sym->val.fn;
-        _ADD_BUILTIN_FN(native_index_size)
-        _ADD_BUILTIN_FN(ref_from_index)
-        pwart_InlineFuncList.ref_from_index=sym->val.fn;
-        _ADD_BUILTIN_FN(ref_copy_bytes)
-        _ADD_BUILTIN_FN(ref_string_length)
-        _ADD_BUILTIN_FN(ref_from_i64)
-        pwart_InlineFuncList.ref_from_i64=sym->val.fn;
-        _ADD_BUILTIN_FN(i64_from_ref)
-        pwart_InlineFuncList.i64_from_ref=sym->val.fn;
-
-        _ADD_BUILTIN_FN(host_definition)
-
-        _ADD_BUILTIN_FN(fread)
-        _ADD_BUILTIN_FN(fwrite)
-        _ADD_BUILTIN_FN(fopen)
-        _ADD_BUILTIN_FN(fclose)
-        _ADD_BUILTIN_FN(stdio)
-        
-        sym=dynarr_push_type(&builtin_symbols,struct pwart_named_symbol);
-        sym->name="native_memory";
-        sym->kind=PWART_KIND_MEMORY;
-        sym->val.mem=&native_memory;
-    }
-    *arr_size=builtin_symbols->len;
-    return (struct pwart_named_symbol *)&builtin_symbols->data;
+    *arr_size=sizeof(builtin_symbols)/sizeof(builtin_symbols[0]);
+    return builtin_symbols;
 }
-
-#undef _ADD_BUILTIN_FN
\ No newline at end of file
-- 
2.43.0


From 479b3838f8ff77fcf8b6c14622bbe03226e9e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 36/74] fix: the entry of a libuv thread gets its argument on
 the stack of the thread

---
 pwart_syslib/libuv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 82901af..69ebffc 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -53,7 +53,7 @@ static void wasm__uv_wasmthreadentry(void *awt){
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-    pwart_call_wasm_function(wt->wasmentry,wt);
+    pwart_call_wasm_function(wt->wasmentry,wt->stack);
     pwart_free_stack(wt->stack);
     wa_free(wt);
 }
-- 
2.43.0


From 9ab76c2a73c2535e4a48a0b6c8806a3b9ef6816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 37/74] fix: uv_mutex_trylock returns its result

---
 pwart_syslib/libuv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 69ebffc..e25ac42 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -94,6 +94,7 @@ static void wasm__uv_mutex_trylock(void *fp){
     void *sp=fp;
     _wargref(mut)
     int err=uv_mutex_trylock(mut);
+    sp=fp;
     pwart_rstack_put_i32(&sp,err);
 }
 
@@ -138,6 +139,7 @@ static void wasm__uv_cond_timedwait(void *fp){
     _wargref(mut)
     _wargi64(timeout)
     int r=uv_cond_timedwait(cond,mut,timeout);
+    sp=fp;
     pwart_rstack_put_i32(&sp,r);
 }
 
-- 
2.43.0


From 0e8c85387ecdea927803b8cc82bda632967c8eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 38/74] fix: allocate the whole ffi closure

---
 pwart_syslib/libffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index a80c35c..86e6d7c 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -115,7 +115,7 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *sp=fp;
     void *code=NULL;
     sp=fp;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -182,7 +182,7 @@ static void wasm__ffix_new_c_callback(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
-    void *closure=ffi_closure_alloc(sizeof(FFI_CLOSURES),&code);
+    void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
-- 
2.43.0


From fbf097ef800f7cdb7418cd9a19e7dd26e962d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 39/74] fix: a ffi closure can be called many times, and frees
 its data with itself

---
 pwart_syslib/libffi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pwart_syslib/libffi.c b/pwart_syslib/libffi.c
index 86e6d7c..0de89ca 100644
--- a/pwart_syslib/libffi.c
+++ b/pwart_syslib/libffi.c
@@ -116,6 +116,7 @@ static void wasm__ffi_closure_alloc(void *fp){
     void *code=NULL;
     sp=fp;
     void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    if(closure!=NULL)((ffi_closure *)closure)->user_data=NULL;
     pwart_rstack_put_ref(&sp,closure);
     pwart_rstack_put_ref(&sp,code);
 }
@@ -123,12 +124,12 @@ static void wasm__ffi_closure_free(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 static void wasmcb__ffi_closurecb(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *fn2=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     pwart_rstack_put_ref(&sp,cif);
@@ -149,6 +150,8 @@ static void wasm__ffi_prep_closure_loc(void *fp){
     void **userdata2=wa_malloc(sizeof(void *)*2);
     userdata2[0]=fn;
     userdata2[1]=user_data;
+    wa_free(((ffi_closure *)closure)->user_data);
+    ((ffi_closure *)closure)->user_data=userdata2;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__ffi_closurecb,userdata2,codeloc);
     pwart_rstack_put_i32(&sp,stat);
 }
@@ -156,7 +159,6 @@ static void wasm__ffi_prep_closure_loc(void *fp){
 static void wasmcb__c2wasm_adapter(ffi_cif* cif,void *ret, void* args[],void **userdata2){
     void *wasmfn=userdata2[0];
     void *user_data=userdata2[1];
-    wa_free(userdata2);
     void *stackbase=pwart_allocate_stack(4096);
     void *sp=stackbase;
     for(int i=0;i<cif->nargs;i++){
@@ -183,6 +185,7 @@ static void wasm__ffix_new_c_callback(void *fp){
     userdata2[0]=fn;
     userdata2[1]=user_data;
     void *closure=ffi_closure_alloc(sizeof(ffi_closure),&code);
+    ((ffi_closure *)closure)->user_data=userdata2;
     ffi_status stat=ffi_prep_closure_loc(closure,cif,(void *)&wasmcb__c2wasm_adapter,userdata2,code);
     pwart_rstack_put_ref(&sp,closure); 
     pwart_rstack_put_ref(&sp,code); 
@@ -192,6 +195,7 @@ static void wasm__ffix_del_c_callback(void *fp){
     void *sp=fp;
     _wargref(closure)
     sp=fp;
+    wa_free(((ffi_closure *)closure)->user_data);
     ffi_closure_free(closure);
 }
 
-- 
2.43.0


From 42c75edbb44e116f9e1b0e10834ea46e398aa5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 40/74] fix: sock_recv and sock_send convert the io vectors of
 wasm

---
 pwart_syslib/libwasi.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 5d65337..147f020 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -402,8 +402,15 @@ static void wasm__sock_accept(void *fp) {
 static void wasm__sock_recv(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(ri_data) _wargi32(ri_data_len) _wargi32(ri_flags)
-      _wargi32(ro_datalen) _wargi32(ro_flags) uvwasi_errno_t err =
-          uvwasi_sock_recv(&uvwc, sock, uwmem->bytes + ri_data, ri_data_len,
+      _wargi32(ro_datalen) _wargi32(ro_flags)
+  uvwasi_iovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<ri_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + ri_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + ri_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_recv(&uvwc, sock, iovs2, ri_data_len,
                            ri_flags, uwmem->bytes + ro_datalen,
                            uwmem->bytes + ro_flags);
   sp = fp;
@@ -412,8 +419,15 @@ static void wasm__sock_recv(void *fp) {
 static void wasm__sock_send(void *fp) { 
    void *sp = fp;
   _wargi32(sock) _wargi32(si_data) _wargi32(si_data_len) _wargi32(si_flags)
-      _wargi32(so_datalen) uvwasi_errno_t err =
-          uvwasi_sock_send(&uvwc, sock, uwmem->bytes + si_data, si_data_len,
+      _wargi32(so_datalen)
+  uvwasi_ciovec_t *iovs2=sp;
+  uint32_t i;
+  for(i=0;i<si_data_len;i++){
+    iovs2[i].buf=uwmem->bytes+*(uint32_t *)(uwmem->bytes + si_data + 8*i);
+    iovs2[i].buf_len=*(uint32_t *)(uwmem->bytes + si_data + 8*i+4);
+  }
+  uvwasi_errno_t err =
+          uvwasi_sock_send(&uvwc, sock, iovs2, si_data_len,
                            si_flags, uwmem->bytes + so_datalen);
   sp = fp;
   pwart_rstack_put_i32(&sp, err);
-- 
2.43.0


From 190df1f2256ee34a9b4dd2a6bd20bf6aef3086f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 41/74] fix: the wasi module frees the environment and preopens
 it allocates

---
 pwart_syslib/libwasi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pwart_syslib/libwasi.c b/pwart_syslib/libwasi.c
index 147f020..cc563cd 100644
--- a/pwart_syslib/libwasi.c
+++ b/pwart_syslib/libwasi.c
@@ -69,6 +69,7 @@ static void wasm__environ_get(void *fp) {
     *buf='\0';
     buf+=1;
   }
+  uv_os_free_environ(penv,envcnt);
   sp = fp;
   pwart_rstack_put_i32(&sp, 0);
 }
@@ -82,6 +83,7 @@ static void wasm__environ_sizes_get(void *fp) {
   for(i=0;i<envcnt;i++){
     size+=strlen(penv[i].name)+strlen(penv[i].value)+2;
   } 
+  uv_os_free_environ(penv,envcnt);
   *(uint32_t *)(uwmem->bytes + environ_count)=envcnt;
   *(uint32_t *)(uwmem->bytes + environ_buf_size)=size;
   sp = fp;
@@ -481,6 +483,7 @@ extern char *pwart_wasi_module_init(){
 
   /* Initialize the sandbox. */
   err = uvwasi_init(&uvwc, &init_options);
+  wa_free(init_options.preopens);
   if(err)return "uvwasi_init failed.";
   uvwcinited=1;
   return NULL;
-- 
2.43.0


From d7e127d08c3a8d075fcb0eec9a6dd597919dba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 42/74] fix: pwart_syslib_unload removes the modules from the
 namespace, and needs no wasi module loaded

---
 pwart_syslib/pwart_syslib.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pwart_syslib/pwart_syslib.c b/pwart_syslib/pwart_syslib.c
index 5eda5eb..2432343 100644
--- a/pwart_syslib/pwart_syslib.c
+++ b/pwart_syslib/pwart_syslib.c
@@ -40,9 +40,19 @@ extern char *pwart_syslib_load(pwart_namespace ns){
     return NULL;
 }
 
+// the namespace must not refer to the module once it's deleted. wasi module may not loaded.
+static void unload_module(pwart_namespace ns,const char *name,char *(*delete_module)(struct pwart_host_module *)){
+    struct pwart_named_module *mod=pwart_namespace_find_module(ns,name);
+    if(mod!=NULL && mod->type==PWART_MODULE_TYPE_HOST_MODULE){
+        struct pwart_host_module *host=mod->val.host;
+        pwart_namespace_remove_module(ns,name);
+        delete_module(host);
+    }
+}
+
 extern char *pwart_syslib_unload(pwart_namespace ns){
-    pwart_libuv_module_delete(pwart_namespace_find_module(ns,"libuv")->val.host);
-    pwart_libffi_module_delete(pwart_namespace_find_module(ns,"libffi")->val.host);
-    pwart_wasi_module_delete(pwart_namespace_find_module(ns,"wasi_snapshot_preview1")->val.host);
+    unload_module(ns,"libuv",&pwart_libuv_module_delete);
+    unload_module(ns,"libffi",&pwart_libffi_module_delete);
+    unload_module(ns,"wasi_snapshot_preview1",&pwart_wasi_module_delete);
     return NULL;
 }
\ No newline at end of file
-- 
2.43.0


From 75755bdaeb70348ee5f6091fd235365fdb71f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 43/74] fix: store with a static offset of 2GB or more uses the
 whole offset

---
 pwart/opgen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/opgen_utils.c b/pwart/opgen_utils.c
index 662f9f4..ae02700 100644
--- a/pwart/opgen_utils.c
+++ b/pwart/opgen_utils.c
@@ -111,7 +111,7 @@ static StackValue *stackvalue_FindSvalueUseReg(ModuleCompiler *m, sljit_s32 r,
 }
 
 static char *pwart_EmitStoreStackValue(ModuleCompiler *m, StackValue *sv, int memreg,
-                                     int offset) {
+                                     sljit_sw offset) {
   if (sv->jit_type == SVT_GENERAL) {
     if(memreg==sv->val.op && offset==sv->val.opw)return 0;
     if (m->target_ptr_size == 64) {
-- 
2.43.0


From 951d2124922f6a87c8d1e7bc36b4eb19b9e76270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 44/74] fix: pwart_namespace_meta.this gives the namespace, not
 the first word of it

---
 pwart/def.h       | 1 +
 pwart/namespace.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index 637335d..d18ca13 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -249,6 +249,7 @@ typedef struct {
     struct dynarr *mods;   //modules in this namespace, type pwart_named_module.
     struct pwart_host_module *nsmeta; //meta info module of current namespace.
     void *nsmetasyms[1];
+    void *self; //value of the global pwart_namespace_meta.this
 } Namespace;
 
 
diff --git a/pwart/namespace.c b/pwart/namespace.c
index 1d68d8d..9fa9009 100644
--- a/pwart/namespace.c
+++ b/pwart/namespace.c
@@ -53,7 +53,8 @@ extern pwart_namespace pwart_namespace_new(){
     Namespace *ns=(Namespace *)wa_calloc(sizeof(Namespace));
     dynarr_init(&ns->mods,sizeof(struct pwart_named_module));
     ns->resolver.resolve=&namespace_SymbolResolve;
-    ns->nsmetasyms[0]=ns;
+    ns->self=ns;
+    ns->nsmetasyms[0]=&ns->self;
     ns->nsmeta=pwart_namespace_new_host_module2(nsmetaSymbolNames, &ns->nsmetasyms[0], 1);
     pwart_namespace_define_host_module(ns,"pwart_namespace_meta", ns->nsmeta);
     return ns;
-- 
2.43.0


From ab949c9a7d50b97378ecda848612e97e67c4ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 45/74] fix: a constant expression that reads an unknown global
 is reported

---
 pwart/extfunc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index fb87520..4f0c449 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -544,6 +544,9 @@ static char *waexpr_run_const(ModuleCompiler *m, uint64_t *result) {
       case 0x23: // global.get
       {
         uint32_t arg = read_LEB(m->bytes, &m->pc, 32);
+        if (arg >= m->globals->len) {
+          return "Unknown global.";
+        }
         StackValue *sv = dynarr_get(m->globals, StackValue, arg);
         if (sv->val.op == SLJIT_IMM) {
           return "Unsupport const expr"; // globals of current module, not available yet.
-- 
2.43.0


From cf00c946ef07c65c99812bcaa9e4b482ba471dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 46/74] fix: generating code with the split-mapping allocator
 reports exhausted memory instead of reading a null block

---
 sljit/sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitLir.c b/sljit/sljit_src/sljitLir.c
index 09d1ae4..6d543f4 100644
--- a/sljit/sljit_src/sljitLir.c
+++ b/sljit/sljit_src/sljitLir.c
@@ -752,7 +752,7 @@ static SLJIT_INLINE void* allocate_executable_memory(sljit_uw size, sljit_s32 op
 
 	if (SLJIT_LIKELY(!(options & SLJIT_GENERATE_CODE_BUFFER))) {
 		code = SLJIT_MALLOC_EXEC(size, exec_allocator_data);
-		*executable_offset = SLJIT_EXEC_OFFSET(code);
+		*executable_offset = code ? SLJIT_EXEC_OFFSET(code) : 0;
 		return code;
 	}
 
-- 
2.43.0


From 7d5d041551b18f7e9b4ab1fc986c64c0c7e220a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:58 +0000
Subject: [PATCH 47/74] fix: a global or element section that ends before its
 count is reported instead of being taken as empty

---
 pwart/modparser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pwart/modparser.c b/pwart/modparser.c
index 19abc6d..ee22d22 100644
--- a/pwart/modparser.c
+++ b/pwart/modparser.c
@@ -437,6 +437,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     sv->val.op=SLJIT_IMM|SLJIT_MEM;
                 }
             }
+            ReturnIfEnd()
             pos = start_pos+slen;
             break;
         case 7:
@@ -537,6 +538,7 @@ static char *load_module(ModuleCompiler *m,uint8_t *bytes, uint32_t byte_count)
                     }
                 }
             }
+            ReturnIfEnd()
             pos = start_pos+slen;
             break;
         // 9 and 11 are similar so keep them together, 10 is below 11
-- 
2.43.0


From 93ea0260dbb761900fdb89ab6d991e050d8807af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 48/74] fix: x86 binary operations whose destination register
 is part of the second source's address overwrote that address first

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 76e9a76..5e1e2d6 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2109,7 +2109,7 @@ static sljit_s32 emit_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst)) {
+	if (FAST_IS_REG(dst) && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
@@ -2182,7 +2182,7 @@ static sljit_s32 emit_non_cum_binary(struct sljit_compiler *compiler,
 	}
 
 	/* General version. */
-	if (FAST_IS_REG(dst) && dst != src2) {
+	if (FAST_IS_REG(dst) && dst != src2 && !ADDRESSING_DEPENDS_ON(src2, dst)) {
 		EMIT_MOV(compiler, dst, 0, src1, src1w);
 		if (src2 == SLJIT_IMM) {
 			BINARY_IMM(op_imm, op_mr, src2w, dst, 0);
-- 
2.43.0


From f5b6df5d7517edf6f348adf2ef6d1963f147a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 49/74] fix: x86 multiplication dropped its result when the
 destination register is part of the second source's address

---
 sljit/sljit_src/sljitNativeX86_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 5e1e2d6..9c27854 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2311,7 +2311,7 @@ static sljit_s32 emit_mul(struct sljit_compiler *compiler,
 		FAIL_IF(emit_groupf(compiler, IMUL_r_rm, dst_r, src2, src2w));
 	}
 
-	if (dst & SLJIT_MEM)
+	if (dst_r != dst)
 		EMIT_MOV(compiler, dst, dstw, TMP_REG1, 0);
 
 	return SLJIT_SUCCESS;
-- 
2.43.0


From a44620c7f0397d95004a5a44884a62dc23f6947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 50/74] fix: x86-64 shifts by an amount in memory at a large
 address lost the shift register

---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 9c27854..2f816af 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2615,14 +2615,18 @@ static sljit_s32 emit_shift(struct sljit_compiler *compiler,
 	EMIT_MOV(compiler, TMP_REG1, 0, src1, src1w);
 #if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
 	EMIT_MOV(compiler, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_PREF_SHIFT_REG, 0);
+	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 #else /* !SLJIT_CONFIG_X86_32 */
+	/* Loading src2 may use TMP_REG2 for addressing. */
+	EMIT_MOV(compiler, TMP_REG2, 0, src2, src2w);
 	mode32 = compiler->mode32;
 	compiler->mode32 = 0;
-	EMIT_MOV(compiler, TMP_REG2, 0, SLJIT_PREF_SHIFT_REG, 0);
+	inst = emit_x86_instruction(compiler, 1, SLJIT_PREF_SHIFT_REG, 0, TMP_REG2, 0);
+	FAIL_IF(!inst);
+	*inst = XCHG_r_rm;
 	compiler->mode32 = mode32;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-	EMIT_MOV(compiler, SLJIT_PREF_SHIFT_REG, 0, src2, src2w);
 	inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_PREF_SHIFT_REG, 0, TMP_REG1, 0);
 	FAIL_IF(!inst);
 	inst[1] |= mode;
-- 
2.43.0


From de0dc0680500891f1a8e2608f1522eab14c0df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 51/74] fix: x86 shift_into by a constant zero left the
 destination unset

---
 sljit/sljit_src/sljitNativeX86_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 2f816af..94080d4 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2865,8 +2865,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		src3w &= (op & SLJIT_32) ? 0x1f : 0x3f;
 #endif /* SLJIT_CONFIG_X86_32 */
 
-		if (src3w == 0)
-			return SLJIT_SUCCESS;
+		if (src3w == 0) {
+			CHECK_EXTRA_REGS(src1_reg, src1w, (void)0);
+			return emit_mov(compiler, dst_reg, dstw, src1_reg, src1w);
+		}
 	}
 
 	is_left = (GET_OPCODE(op) == SLJIT_SHL || GET_OPCODE(op) == SLJIT_MSHL);
-- 
2.43.0


From 5ea67dfabb45a4ba8ee61a73f4ae517377baf5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 52/74] fix: x86 shift_into whose destination register is part
 of the shift amount's address overwrote that address first

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index 94080d4..ef2236a 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2927,7 +2927,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		move_src1 = 0;
 #if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
 		if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
@@ -2951,7 +2951,7 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 				restore_sp4 = src1_reg;
 			}
 		} else if (dst_reg != src1_reg) {
-			if (dst_reg != src3) {
+			if (dst_reg != src3 && !ADDRESSING_DEPENDS_ON(src3, dst_reg)) {
 				EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 				src1_reg = dst_reg;
 				src1w = 0;
-- 
2.43.0


From 219273252e06035fe5626da75063b77be03ca93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 53/74] fix: x86 256 bit vector operations with an operand in
 memory of unknown alignment read only half of it

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index ef2236a..f930871 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4906,7 +4906,9 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_op2(struct sljit_compiler *co
 
 	if ((src2 & SLJIT_MEM) && SLJIT_SIMD_GET_ELEM2_SIZE(type) < reg_size) {
 		mov_op = ((type & SLJIT_SIMD_FLOAT) ? (MOVUPS_x_xm | (elem_size == 3 ? EX86_PREF_66 : 0)) : (MOVDQU_x_xm | EX86_PREF_F3)) | EX86_SSE2;
-		if (use_vex)
+		if (reg_size == 5)
+			mov_op |= VEX_256;
+		if (reg_size == 5 || use_vex)
 			FAIL_IF(emit_vex_instruction(compiler, mov_op, TMP_FREG, 0, src2, src2w));
 		else
 			FAIL_IF(emit_groupf(compiler, mov_op, TMP_FREG, src2, src2w));
-- 
2.43.0


From d0302f98ea61196c3bf1660d1c9458496a5ecf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 54/74] fix: x86 shift_into lost a source in the shift register
 when the destination holds the shift amount

---
 sljit/sljit_src/sljitNativeX86_common.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index f930871..f3373fe 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -2981,6 +2981,14 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_shift_into(struct sljit_compiler *
 		}
 
 		if (move_src1) {
+			if (src1_reg == SLJIT_PREF_SHIFT_REG && restore_ecx) {
+				/* The value is already moved away. */
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+				src1_reg = TMP_REG1;
+#else /* !SLJIT_CONFIG_X86_64 */
+				src1_reg = restore_ecx == 1 ? TMP_REG1 : SLJIT_MEM1(SLJIT_SP);
+#endif /* SLJIT_CONFIG_X86_64 */
+			}
 			EMIT_MOV(compiler, dst_reg, 0, src1_reg, src1w);
 			src1_reg = dst_reg;
 			src1w = 0;
-- 
2.43.0


From 84c63a0d30b521764f92edf8a7232007a11b2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 55/74] fix: x86-64 vector lane move of a 64 bit immediate
 loaded only its low half

---
 sljit/sljit_src/sljitNativeX86_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index f3373fe..b271a87 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4321,6 +4321,10 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_lane_mov(struct sljit_compile
 	}
 
 	if (srcdst == SLJIT_IMM) {
+#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
+		if (elem_size == 3)
+			compiler->mode32 = 0;
+#endif /* SLJIT_CONFIG_X86_64 */
 		EMIT_MOV(compiler, TMP_REG1, 0, SLJIT_IMM, srcdstw);
 		srcdst = TMP_REG1;
 		srcdstw = 0;
-- 
2.43.0


From 3f227e4e6a2ac495f2c18fb4b6330a2f2510181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 56/74] fix: argument check refused using the flag set by a
 rewritable op2cmpz

---
 sljit/sljit_src/sljitLir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/sljit_src/sljitLir.c b/sljit/sljit_src/sljitLir.c
index 6d543f4..3a0165d 100644
--- a/sljit/sljit_src/sljitLir.c
+++ b/sljit/sljit_src/sljitLir.c
@@ -2575,7 +2575,7 @@ static SLJIT_INLINE CHECK_RETURN_TYPE check_sljit_emit_op2cmpz(struct sljit_comp
 	FUNCTION_CHECK_DST(dst, dstw);
 	FUNCTION_CHECK_SRC(src1, src1w);
 	FUNCTION_CHECK_SRC(src2, src2w);
-	compiler->last_flags = GET_FLAG_TYPE(op) | (op & SLJIT_32);
+	compiler->last_flags = GET_FLAG_TYPE(op & ~SLJIT_REWRITABLE_JUMP) | (op & SLJIT_32);
 #endif /* SLJIT_ARGUMENT_CHECKS */
 #if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
 	if (SLJIT_UNLIKELY(!!compiler->verbose)) {
-- 
2.43.0


From ca8d29290ab5caefd966c6b6d66c2e0742a60501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 57/74] fix: x86 simd_sign of 16 bit elements modified the
 status flags

---
 sljit/sljit_src/sljitNativeX86_common.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sljit/sljit_src/sljitNativeX86_common.c b/sljit/sljit_src/sljitNativeX86_common.c
index b271a87..0bc7395 100644
--- a/sljit/sljit_src/sljitNativeX86_common.c
+++ b/sljit/sljit_src/sljitNativeX86_common.c
@@ -4754,7 +4754,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 	sljit_s32 use_vex = (cpu_feature_list & CPU_FEATURE_AVX) && (compiler->options & SLJIT_ENTER_USE_VEX);
 	sljit_s32 dst_r;
 	sljit_uw op;
-	sljit_u8 *inst;
 
 	CHECK_ERROR();
 	CHECK(check_sljit_emit_simd_sign(compiler, type, vreg, dst, dstw));
@@ -4777,10 +4776,16 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 
 		switch (elem_size) {
 		case 1:
-			if (use_vex)
+			/* The upper half is cleared by a vector move,
+			   because a shift would modify the status flags. */
+			if (use_vex) {
 				FAIL_IF(emit_vex_instruction(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2 | VEX_SSE2_OPV, TMP_FREG, vreg, vreg, 0));
-			else
-				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, vreg, 0));
+				FAIL_IF(emit_vex_instruction(compiler, MOVQ_x_xm | EX86_PREF_F3 | EX86_SSE2, TMP_FREG, 0, TMP_FREG, 0));
+			} else {
+				FAIL_IF(emit_groupf(compiler, MOVAPS_x_xm | EX86_SSE2, TMP_FREG, vreg, 0));
+				FAIL_IF(emit_groupf(compiler, PACKSSWB_x_xm | EX86_PREF_66 | EX86_SSE2, TMP_FREG, TMP_FREG, 0));
+				FAIL_IF(emit_groupf(compiler, MOVQ_x_xm | EX86_PREF_F3 | EX86_SSE2, TMP_FREG, TMP_FREG, 0));
+			}
 			vreg = TMP_FREG;
 			break;
 		case 2:
@@ -4800,12 +4805,6 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_s32 sljit_emit_simd_sign(struct sljit_compiler *c
 		compiler->mode32 = type & SLJIT_32;
 #endif /* SLJIT_CONFIG_X86_64 */
 
-		if (elem_size == 1) {
-			inst = emit_x86_instruction(compiler, 1 | EX86_SHIFT_INS, SLJIT_IMM, 8, dst_r, 0);
-			FAIL_IF(!inst);
-			inst[1] |= SHR;
-		}
-
 		if (dst_r == TMP_REG1)
 			return emit_mov(compiler, dst, dstw, TMP_REG1, 0);
 
-- 
2.43.0


From 149a25c515560cf869711ef3b6ea12d1c48b4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 58/74] fix: a deserialized compiler in a debug build had lost
 its float and vector register counts

---
 sljit/sljit_src/sljitSerialize.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sljit/sljit_src/sljitSerialize.c b/sljit/sljit_src/sljitSerialize.c
index 042cc18..b77b90b 100644
--- a/sljit/sljit_src/sljitSerialize.c
+++ b/sljit/sljit_src/sljitSerialize.c
@@ -97,6 +97,10 @@ struct sljit_serialized_debug_info {
 	sljit_sw last_flags;
 	sljit_s32 last_return;
 	sljit_s32 logical_local_size;
+	sljit_s32 real_fscratches;
+	sljit_s32 real_fsaveds;
+	sljit_s32 vscratches;
+	sljit_s32 vsaveds;
 };
 
 struct sljit_serialized_label {
@@ -309,6 +313,15 @@ SLJIT_API_FUNC_ATTRIBUTE sljit_uw* sljit_serialize_compiler(struct sljit_compile
 		serialized_debug_info->last_flags = compiler->last_flags;
 		serialized_debug_info->last_return = compiler->last_return;
 		serialized_debug_info->logical_local_size = compiler->logical_local_size;
+#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+		serialized_debug_info->real_fscratches = compiler->fscratches;
+		serialized_debug_info->real_fsaveds = compiler->fsaveds;
+#else /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
+		serialized_debug_info->real_fscratches = compiler->real_fscratches;
+		serialized_debug_info->real_fsaveds = compiler->real_fsaveds;
+#endif /* SLJIT_SEPARATE_VECTOR_REGISTERS */
+		serialized_debug_info->vscratches = compiler->vscratches;
+		serialized_debug_info->vsaveds = compiler->vsaveds;
 		serialized_compiler->cpu_type |= SLJIT_SERIALIZE_DEBUG;
 #if (defined SLJIT_DEBUG && SLJIT_DEBUG)
 		ptr += sizeof(struct sljit_serialized_debug_info);
@@ -573,6 +586,12 @@ SLJIT_API_FUNC_ATTRIBUTE struct sljit_compiler *sljit_deserialize_compiler(sljit
 	compiler->last_flags = (sljit_s32)serialized_debug_info->last_flags;
 	compiler->last_return = serialized_debug_info->last_return;
 	compiler->logical_local_size = serialized_debug_info->logical_local_size;
+#if !(defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
+	compiler->real_fscratches = serialized_debug_info->real_fscratches;
+	compiler->real_fsaveds = serialized_debug_info->real_fsaveds;
+#endif /* !SLJIT_SEPARATE_VECTOR_REGISTERS */
+	compiler->vscratches = serialized_debug_info->vscratches;
+	compiler->vsaveds = serialized_debug_info->vsaveds;
 #endif /* SLJIT_ARGUMENT_CHECKS || SLJIT_DEBUG */
 
 	return compiler;
-- 
2.43.0


From e6383c606b559fdc5a4855dbeb00e27efb0cc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 59/74] fix: regex: the length argument is an int

---
 sljit/regex_src/regexJIT.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 3f95469..66ce4fe 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1971,7 +1971,8 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 	/* Copy arguments to their place. */
 	EMIT_OP1(SLJIT_MOV, R_REGEX_MATCH, 0, SLJIT_S0, 0);
 	EMIT_OP1(SLJIT_MOV, R_STRING, 0, SLJIT_S1, 0);
-	EMIT_OP2(SLJIT_ADD, R_LENGTH, 0, SLJIT_S2, 0, SLJIT_IMM, 1);
+	EMIT_OP1(SLJIT_MOV_S32, R_LENGTH, 0, SLJIT_S2, 0);
+	EMIT_OP2(SLJIT_ADD, R_LENGTH, 0, R_LENGTH, 0, SLJIT_IMM, 1);
 
 	/* Init global registers. */
 	EMIT_OP1(SLJIT_MOV, R_CURR_STATE, 0, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, current));
-- 
2.43.0


From d1eee209172cadb4e82b40ba9062dd37389e7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 60/74] fix: regex: ^...$ is not finished while further
 characters may follow

---
 sljit/regex_src/regexJIT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 66ce4fe..40797ae 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2170,6 +2170,11 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 			EMIT_CMP(jump, SLJIT_NOT_EQUAL, R_NEXT_HEAD, 0, SLJIT_IMM, 0);
 			sljit_set_label(jump, start_label);
 		}
+		else if (compiler_common.flags & REGEX_MATCH_END) {
+			/* The string matches as it is now, but any further character changes that. */
+			EMIT_CMP(jump, SLJIT_NOT_EQUAL, SLJIT_MEM1(R_CURR_STATE), TERM_REL_OFFSET_OF(0, 1), SLJIT_IMM, -1);
+			sljit_set_label(jump, start_label);
+		}
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(R_REGEX_MATCH), SLJIT_OFFSETOF(struct regex_match, fast_quit), SLJIT_IMM, 1);
 	}
 
-- 
2.43.0


From 12d34a0e590a119ffbe9c240845e899f2ee73283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 61/74] fix: regex: compare characters as unsigned values

---
 sljit/regex_src/regexJIT.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 40797ae..38afebc 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -401,6 +401,13 @@ struct compiler_common {
 	struct sljit_jump **range_jump_list;
 };
 
+/* Characters are compared as unsigned values by the generated code. */
+#ifdef REGEX_USE_8BIT_CHARS
+#define CHAR_VALUE(c)	((int)(unsigned char)(c))
+#else
+#define CHAR_VALUE(c)	((int)(sljit_u16)(c))
+#endif
+
 static const regex_char_t* decode_number(const regex_char_t *regex_string, int length, int *result)
 {
 	int value = 0;
@@ -666,7 +673,7 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 {
 	struct stack* stack = &compiler_common->stack;
 	const regex_char_t *base_from = regex_string;
-	regex_char_t left_char, right_char, tmp_char;
+	int left_char, right_char, tmp_char;
 
 	length--;
 	regex_string++;
@@ -708,13 +715,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			break;
 
 		if (*regex_string != '\\')
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		else {
 			regex_string++;
 			length--;
 			if (length == 0)
 				return -2;
-			left_char = *regex_string;
+			left_char = CHAR_VALUE(*regex_string);
 		}
 		regex_string++;
 		length--;
@@ -725,13 +732,13 @@ static int parse_char_range(const regex_char_t *regex_string, int length, struct
 			length--;
 
 			if (*regex_string != '\\')
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			else {
 				regex_string++;
 				length--;
 				if (length == 0)
 					return -2;
-				right_char = *regex_string;
+				right_char = CHAR_VALUE(*regex_string);
 			}
 			regex_string++;
 			length--;
@@ -801,7 +808,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 			regex_string++;
 			if (length == 0)
 				return REGEX_INVALID_REGEX;
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
@@ -901,7 +908,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				compiler_common->flags |= REGEX_MATCH_END;
 				break;
 			}
-			if (stack_push(stack, type_char, *regex_string))
+			if (stack_push(stack, type_char, CHAR_VALUE(*regex_string)))
 				return REGEX_MEMORY_ERROR;
 			begin = 0;
 			compiler_common->dfa_size++;
-- 
2.43.0


From 5ad9e63171532c07f94a694e78f72f15029ad067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 62/74] fix: regex: regex_reset_match clears the end state

---
 sljit/regex_src/regexJIT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 38afebc..37ca61a 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2429,6 +2429,8 @@ void regex_reset_match(struct regex_match *match)
 			current_ptr[ind] = -1;
 		} while (current != 0);
 	}
+	/* The end state is never a member of the chain. */
+	match->current[1] = -1;
 	match->head = machine->u.call_init(match->current, match);
 }
 
-- 
2.43.0


From cd7ef1899c4c13182ee0e4c80cf2883fabf0ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 63/74] fix: regex: non greedy $ with an empty match needs its
 states

---
 sljit/regex_src/regexJIT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 37ca61a..51996da 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2264,7 +2264,7 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 
 		EMIT_OP1(SLJIT_MOV, SLJIT_MEM1(SLJIT_S1), SLJIT_OFFSETOF(struct regex_match, index), SLJIT_IMM, !(compiler_common.flags & REGEX_FAKE_MATCH_BEGIN) ? 1 : 2);
 
-		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || empty_match_id == -1) {
+		if (!(compiler_common.flags & REGEX_MATCH_NON_GREEDY) || (compiler_common.flags & REGEX_MATCH_END) || empty_match_id == -1) {
 			/* The else is a really rare event, so we still generate an empty function instead of a runtime pointer check. */
 			SLJIT_ASSERT(R_CURR_STATE == SLJIT_S0);
 			if (!(compiler_common.flags & REGEX_MATCH_BEGIN)) {
-- 
2.43.0


From b67074da6c4e580bfa1b17bb4d0061b4ee51c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 64/74] fix: regex: new-line searches belong to all
 alternatives

---
 sljit/regex_src/regexJIT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 51996da..38fff0d 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -801,6 +801,10 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 		/* Begin intentionally kept as 1. */
 	}
 
+	/* The new-line searches belong to all alternatives. */
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_open_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	while (length > 0) {
 		switch (*regex_string) {
 		case '\\' :
@@ -921,6 +925,9 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 	if (depth != 0)
 		return REGEX_INVALID_REGEX;
 
+	if ((compiler_common->flags & REGEX_NEWLINE) && stack_push(stack, type_close_br, 0))
+		return REGEX_MEMORY_ERROR;
+
 	if ((compiler_common->flags & (REGEX_MATCH_END | REGEX_NEWLINE)) == (REGEX_MATCH_END | REGEX_NEWLINE)) {
 		/* Replace REGEX_MATCH_END flag to REGEX_FAKE_MATCH_END */
 		compiler_common->flags &= ~REGEX_MATCH_END;
-- 
2.43.0


From 71d96b71c00043f2c4adac44658e986cd2725cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 65/74] fix: regex: get_result compares the match ending at the
 end of the string

---
 sljit/regex_src/regexJIT.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 38fff0d..fc2e7f8 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -2463,12 +2463,16 @@ int regex_get_result(struct regex_match *match, int *end, int *id)
 
 	if (flags & REGEX_FAKE_MATCH_END) {
 		SLJIT_ASSERT(!(flags & (REGEX_MATCH_BEGIN | REGEX_MATCH_END)));
-		if (match->best_begin != -1)
-			return (int)match->best_begin;
-
+		/* The end of the string is also accepted, but the priority order is the same as in compile_end_check. */
 		no_states = match->machine->no_states;
 		if (match->current[no_states + 1] == -1)
-			return -1;
+			return (int)match->best_begin;
+		if (match->best_begin != -1) {
+			if (match->best_begin < match->current[no_states + 2])
+				return (int)match->best_begin;
+			if (match->best_begin == match->current[no_states + 2] && (flags & REGEX_MATCH_NON_GREEDY))
+				return (int)match->best_begin;
+		}
 		if (flags & REGEX_ID_CHECK)
 			*id = (int)match->current[no_states + 3];
 		if (!(flags & REGEX_FAKE_MATCH_BEGIN))
-- 
2.43.0


From 67d6088554f24a279fda0d3ca44ac854c5bd6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 66/74] fix: regex: no fast forward when an empty match is
 possible at the end

---
 sljit/regex_src/regexJIT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index fc2e7f8..92a27b0 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -1961,6 +1961,9 @@ struct regex_machine* regex_compile(const regex_char_t *regex_string, int length
 				SLJIT_ASSERT(compiler_common.dfa_transitions[ind].type != type_end);
 				if (compiler_common.dfa_transitions[ind].type == type_rng_start && compiler_common.dfa_transitions[ind].value)
 					suggest_fast_forward = 0;
+				/* An empty match is possible at the end of the string. */
+				if (compiler_common.dfa_transitions[ind].type == type_newline && compiler_common.dfa_transitions[ind].value)
+					suggest_fast_forward = 0;
 			}
 			compiler_common.search_states[ind].value = -1;
 		}
-- 
2.43.0


From e782740364da17ee98c5e4003fe95e49f5612377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 67/74] fix: regex: iterate reports allocation failures as -1

---
 sljit/regex_src/regexJIT.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index 92a27b0..abc09db 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -486,9 +486,9 @@ static int iterate(struct stack *stack, int min, int max)
 		stack_clone(&it, stack);
 		/* and put an empty bracket expression instead of it. */
 		if (stack_push(stack, type_open_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		if (stack_push(stack, type_close_br, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 		return len;
 	}
 
@@ -522,7 +522,7 @@ static int iterate(struct stack *stack, int min, int max)
 				if (stack_push_copy(stack, count, count))
 					return -1;
 				if (stack_push(stack, type_qestion_mark, 0))
-					return REGEX_MEMORY_ERROR;
+					return -1;
 				count++;
 				max--;
 			}
@@ -532,7 +532,7 @@ static int iterate(struct stack *stack, int min, int max)
 			max--;
 			count++;
 			if (stack_push(stack, type_qestion_mark, 0))
-				return REGEX_MEMORY_ERROR;
+				return -1;
 		}
 
 		while (max > 0) {
@@ -553,12 +553,12 @@ static int iterate(struct stack *stack, int min, int max)
 		}
 
 		if (stack_push(stack, type_plus_sign, 0))
-			return REGEX_MEMORY_ERROR;
+			return -1;
 	}
 
 	/* Close the opened bracket. */
 	if (stack_push(stack, type_close_br, 0))
-		return REGEX_MEMORY_ERROR;
+		return -1;
 
 	return len;
 }
-- 
2.43.0


From 3fe7729012080627a61463113bd745bf67e54750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 68/74] fix: regex: a literal { is a character

---
 sljit/regex_src/regexJIT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sljit/regex_src/regexJIT.c b/sljit/regex_src/regexJIT.c
index abc09db..5d01cb7 100644
--- a/sljit/regex_src/regexJIT.c
+++ b/sljit/regex_src/regexJIT.c
@@ -888,6 +888,7 @@ static int parse(const regex_char_t *regex_string, int length, struct compiler_c
 				SLJIT_ASSERT(tmp == -2);
 				if (stack_push(stack, type_char, '{'))
 					return REGEX_MEMORY_ERROR;
+				begin = 0;
 				compiler_common->dfa_size++;
 			}
 			break;
-- 
2.43.0


From ff883619bd8bf47478e8813aa2370a37ed186256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 69/74] fix: libuv: a thread that can not be created gives a
 null reference

---
 pwart_syslib/libuv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index e25ac42..86d579e 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -64,7 +64,10 @@ static void wasm__uv_thread_create(void *fp){
     struct libuv_wasmthread *info=wa_malloc(sizeof(struct libuv_wasmthread));
     info->wasmentry=entry;
     info->arg=arg;
-    uv_thread_create(&info->uvt,wasm__uv_wasmthreadentry,info);
+    if(uv_thread_create(&info->uvt,wasm__uv_wasmthreadentry,info)!=0){
+        wa_free(info);
+        info=NULL;
+    }
     sp=fp;
     pwart_rstack_put_ref(&sp,info);
 }
-- 
2.43.0


From 29f6af9b8065c8d284df9861801d1a6c9335d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 70/74] fix: libuv: free the resources of ended threads

---
 pwart_syslib/libuv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwart_syslib/libuv.c b/pwart_syslib/libuv.c
index 86d579e..cd7b206 100644
--- a/pwart_syslib/libuv.c
+++ b/pwart_syslib/libuv.c
@@ -50,6 +50,12 @@ struct libuv_wasmthread{
 };
 static void wasm__uv_wasmthreadentry(void *awt){
     struct libuv_wasmthread *wt=awt;
+    /* The handle can not be joined by the wasm program, so let the system free the thread once it ends. */
+    #ifdef _WIN32
+    CloseHandle(wt->uvt);
+    #else
+    pthread_detach(pthread_self());
+    #endif
     wt->stack=pwart_allocate_stack(64*1024);
     void *sp=wt->stack;
     pwart_rstack_put_i64(&sp,wt->arg);
-- 
2.43.0


From d892496016a68bb2e6d52c1ea7e30280c881b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 71/74] fix: wasiexec: report a file that can not be opened

---
 pwart_syslib/wasiexec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwart_syslib/wasiexec.c b/pwart_syslib/wasiexec.c
index 07fd6fb..0c3de8b 100644
--- a/pwart_syslib/wasiexec.c
+++ b/pwart_syslib/wasiexec.c
@@ -18,6 +18,10 @@ int main(int argc,char **argv){
         int returncode;
 
         f = fopen(modpath, "rb");
+        if(f==NULL){
+            printf("can not open %s\n",modpath);
+            return 1;
+        }
 
         fseek(f,0,SEEK_END);
         filesize=ftell(f);
-- 
2.43.0


From 792c34666cbafd446b7ca0dc09fad01e08a4f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 72/74] fix: memory and table indices of the bulk instructions
 are unsigned

---
 pwart/opgen_misc.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 0e35561..7c4af1e 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -100,24 +100,24 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     opgen_GenNumOp(m,0xb1);
     break; 
     case 0x0a: //memory.copy
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
-    b=read_LEB_signed(m->bytes,&m->pc,32); //source memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
+    b=read_LEB(m->bytes,&m->pc,32); //source memory index
     opgen_GenMemoryCopy(m,a,b);
     break;
     case 0x0b: //memory.fill
-    a=read_LEB_signed(m->bytes,&m->pc,32); //destination memory index
+    a=read_LEB(m->bytes,&m->pc,32); //destination memory index
     opgen_GenMemoryFill(m,a);
     break;
     case 0x0e: //table.copy
     {
-      int32_t dtab=read_LEB_signed(m->bytes,&m->pc,32); //destination table index
-      int32_t stab=read_LEB_signed(m->bytes,&m->pc,32); //source table index
+      int32_t dtab=read_LEB(m->bytes,&m->pc,32); //destination table index
+      int32_t stab=read_LEB(m->bytes,&m->pc,32); //source table index
       opgen_GenTableCopy(m,dtab,stab);
     }
     break;
     case 0x0f: //table.grow
     //table are not allowed to grow
-    read_LEB_signed(m->bytes,&m->pc,32); //table index
+    read_LEB(m->bytes,&m->pc,32); //table index
     m->sp-=2;
     sv=stackvalue_Push(m,WVT_I32);
     sv->val.op=SLJIT_IMM;
@@ -125,13 +125,13 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
     break;
     case 0x10: //table.size
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableSize(m,tabidx);
     }
     break;
     case 0x11:  //table.fill
     {
-      uint32_t tabidx=read_LEB_signed(m->bytes,&m->pc,32);
+      uint32_t tabidx=read_LEB(m->bytes,&m->pc,32);
       opgen_GenTableFill(m,tabidx);
     }
     break;
-- 
2.43.0


From 53fcc9e38d993ac7b8280354808fd1e6321b3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 73/74] fix: the index of the cached memory does not fit 16
 bits

---
 pwart/def.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwart/def.h b/pwart/def.h
index d18ca13..2739bc7 100644
--- a/pwart/def.h
+++ b/pwart/def.h
@@ -229,7 +229,7 @@ typedef struct ModuleCompiler {
     int16_t mem_base_local;   // index of local variable which store memory 0 base.
     int16_t table_entries_local;  // index of local variable which store the table 0 base.
     int16_t first_stackvalue_offset;
-    int16_t cached_midx;     //the index of memory we cache memory base to register.
+    int32_t cached_midx;     //the index of memory we cache memory base to register.
     struct dynarr *locals_need_zero;  //the array of index of locals we need zero init, type int16_t
     uint32_t registers_status[SLJIT_NUMBER_OF_SCRATCH_REGISTERS]; // register status [Rx-R0]
     uint32_t float_registers_status[SLJIT_NUMBER_OF_SCRATCH_FLOAT_REGISTERS];
-- 
2.43.0


From 25d4c83b940414de0276798185104c7a701fb084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 74/74] fix: the saturating truncations saturate, NaN gives 0

---
 pwart/extfunc.c    | 37 +++++++++++++++++++++++++++++++++++++
 pwart/opgen_misc.c | 25 ++++++++++++++++---------
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/pwart/extfunc.c b/pwart/extfunc.c
index 4f0c449..c213823 100644
--- a/pwart/extfunc.c
+++ b/pwart/extfunc.c
@@ -269,6 +269,43 @@ static void insn_i64truncf64u(uint64_t *fp){
   *fp = (uint64_t)(*(double *)fp);
 }
 
+// saturating truncation, NaN gives 0
+#define FLOAT_TRUNC_SAT(type, v, lowest, limit, min, max) ((v) != (v) ? 0 : \
+  (v) <= (lowest) ? (min) : (v) >= (limit) ? (max) : (type)(v))
+
+static void insn_i32truncsatf32s(int32_t *fp){
+  float v = *(float *)fp;
+  *fp = FLOAT_TRUNC_SAT(int32_t, v, -2147483648.0f, 2147483648.0f, INT32_MIN, INT32_MAX);
+}
+static void insn_i32truncsatf32u(uint32_t *fp){
+  float v = *(float *)fp;
+  *fp = FLOAT_TRUNC_SAT(uint32_t, v, 0.0f, 4294967296.0f, 0, UINT32_MAX);
+}
+static void insn_i32truncsatf64s(int32_t *fp){
+  double v = *(double *)fp;
+  *fp = FLOAT_TRUNC_SAT(int32_t, v, -2147483648.0, 2147483648.0, INT32_MIN, INT32_MAX);
+}
+static void insn_i32truncsatf64u(uint32_t *fp){
+  double v = *(double *)fp;
+  *fp = FLOAT_TRUNC_SAT(uint32_t, v, 0.0, 4294967296.0, 0, UINT32_MAX);
+}
+static void insn_i64truncsatf32s(int64_t *fp){
+  float v = *(float *)fp;
+  *fp = FLOAT_TRUNC_SAT(int64_t, v, -9223372036854775808.0f, 9223372036854775808.0f, INT64_MIN, INT64_MAX);
+}
+static void insn_i64truncsatf32u(uint64_t *fp){
+  float v = *(float *)fp;
+  *fp = FLOAT_TRUNC_SAT(uint64_t, v, 0.0f, 18446744073709551616.0f, 0, UINT64_MAX);
+}
+static void insn_i64truncsatf64s(int64_t *fp){
+  double v = *(double *)fp;
+  *fp = FLOAT_TRUNC_SAT(int64_t, v, -9223372036854775808.0, 9223372036854775808.0, INT64_MIN, INT64_MAX);
+}
+static void insn_i64truncsatf64u(uint64_t *fp){
+  double v = *(double *)fp;
+  *fp = FLOAT_TRUNC_SAT(uint64_t, v, 0.0, 18446744073709551616.0, 0, UINT64_MAX);
+}
+
 static void insn_f32converti32u(float *fp){
   *fp = (float)(*(uint32_t *)fp);
 }
diff --git a/pwart/opgen_misc.c b/pwart/opgen_misc.c
index 7c4af1e..3d564a8 100644
--- a/pwart/opgen_misc.c
+++ b/pwart/opgen_misc.c
@@ -74,30 +74,37 @@ static char *opgen_GenMiscOp_FC(ModuleCompiler *m,int opcode){
   #endif
   switch(opcode){
     //Non-trapping Float-to-int Conversions
-    //the behavior when convert is overflow is depend on sljit implementation.
     case 0x00: //i32.trunc_sat_f32_s
-    opgen_GenNumOp(m,0xa8);
+    pwart_EmitCallFunc(m, &func_type_f32_ret_i32, SLJIT_IMM,
+                       (sljit_sw)&insn_i32truncsatf32s);
     break;
     case 0x01: //i32.trunc_sat_f32_u
-    opgen_GenNumOp(m,0xa9);
+    pwart_EmitCallFunc(m, &func_type_f32_ret_i32, SLJIT_IMM,
+                       (sljit_sw)&insn_i32truncsatf32u);
     break;
     case 0x02: //i32.trunc_sat_f64_s
-    opgen_GenNumOp(m,0xaa);
+    pwart_EmitCallFunc(m, &func_type_f64_ret_i32, SLJIT_IMM,
+                       (sljit_sw)&insn_i32truncsatf64s);
     break;
     case 0x03: //i32.trunc_sat_f64_u
-    opgen_GenNumOp(m,0xab);
+    pwart_EmitCallFunc(m, &func_type_f64_ret_i32, SLJIT_IMM,
+                       (sljit_sw)&insn_i32truncsatf64u);
     break; 
     case 0x04: //i64.trunc_sat_f32_s
-    opgen_GenNumOp(m,0xae);
+    pwart_EmitCallFunc(m, &func_type_f32_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_i64truncsatf32s);
     break;
     case 0x05: //i64.trunc_sat_f32_u
-    opgen_GenNumOp(m,0xaf);
+    pwart_EmitCallFunc(m, &func_type_f32_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_i64truncsatf32u);
     break;
     case 0x06: //i64.trunc_sat_f64_s
-    opgen_GenNumOp(m,0xb0);
+    pwart_EmitCallFunc(m, &func_type_f64_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_i64truncsatf64s);
     break;
     case 0x07: //i64.trunc_sat_f64_u
-    opgen_GenNumOp(m,0xb1);
+    pwart_EmitCallFunc(m, &func_type_f64_ret_i64, SLJIT_IMM,
+                       (sljit_sw)&insn_i64truncsatf64u);
     break; 
     case 0x0a: //memory.copy
     a=read_LEB(m->bytes,&m->pc,32); //destination memory index
-- 
2.43.0

