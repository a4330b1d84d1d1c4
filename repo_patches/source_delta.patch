From d8f4bc6d33042f4fbfc20c6cced8f95a60b029b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 01/54] fix: i64.div_u traps when the quotient is 2^63 or more

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..78d9b63 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2307,7 +2307,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From 84effa97c188ce077a01727b352c9c5a6d56f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 02/54] fix: float min/max ignore the sign of zero and return
 signalling NaNs

---
 pywasm/arith.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ce54dee..d097275 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -194,20 +194,20 @@ class F64:
         return c
 
     def min(self, a: float, b: float) -> float:
-        c = min(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        # The addition turns a signalling nan into a quiet one.
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        # Zeros of different signs compare equal, but -0 is the smaller one.
+        if a == b:
+            return a if math.copysign(1, a) < 0 else b
+        return min(a, b)
 
     def max(self, a: float, b: float) -> float:
-        c = max(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
-        return c
+        if math.isnan(a) or math.isnan(b):
+            return a + b
+        if a == b:
+            return b if math.copysign(1, a) < 0 else a
+        return max(a, b)
 
 
 i8 = I(1)
-- 
2.43.0


From 3430a7080407a73c0633755cb7838eaceb959d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 03/54] fix: ceil/floor/trunc/nearest lose the sign of zero and
 return signalling NaNs

---
 pywasm/arith.py | 20 ++++++++++++++++++++
 pywasm/core.py  | 32 ++++++++++++++++----------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index d097275..fe04fa2 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -1,6 +1,7 @@
 import ctypes
 import math
 import struct
+import typing
 
 
 class I:
@@ -193,6 +194,25 @@ class F64:
                 c = a / b
         return c
 
+    def ceil(self, a: float) -> float:
+        return self.round(a, math.ceil)
+
+    def floor(self, a: float) -> float:
+        return self.round(a, math.floor)
+
+    def trunc(self, a: float) -> float:
+        return self.round(a, math.trunc)
+
+    def nearest(self, a: float) -> float:
+        return self.round(a, round)
+
+    def round(self, a: float, f: typing.Callable) -> float:
+        # Python rounds floats to integers, which have no signed zero. The addition turns a signalling nan into a quiet
+        # one and leaves infinities alone.
+        if math.isnan(a) or math.isinf(a):
+            return a + a
+        return math.copysign(float(f(a)), a)
+
     def min(self, a: float, b: float) -> float:
         # The addition turns a signalling nan into a quiet one.
         if math.isnan(a) or math.isnan(b):
diff --git a/pywasm/core.py b/pywasm/core.py
index 78d9b63..7bb6be8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2371,22 +2371,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_ceil:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_floor:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_trunc:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_nearest:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_sqrt:
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3368,22 +3368,22 @@ class Machine:
                     self.stack.value.append(e)
                 case pywasm.opcode.f32x4_ceil:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_floor:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_trunc:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_nearest:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_shl:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From 1390b34ee8d0e53952a5d63eca727416e992a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 04/54] fix: f32 copysign and f32x4 abs/neg/pmin/pmax change
 the payload of signalling NaNs

---
 pywasm/core.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 7bb6be8..0aa6001 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2428,9 +2428,10 @@ class Machine:
                     d = ValInst.from_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32_copysign:
-                    b = self.stack.value.pop().into_f32()
-                    a = self.stack.value.pop().into_f32()
-                    c = ValInst.from_f32(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f32(), a.data.copy())
+                    c.data[3] = (c.data[3] & 0x7f) | (b.data[3] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_abs:
                     a = self.stack.value.pop()
@@ -2501,9 +2502,10 @@ class Machine:
                     d = ValInst.from_f64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f64_copysign:
-                    b = self.stack.value.pop().into_f64()
-                    a = self.stack.value.pop().into_f64()
-                    c = ValInst.from_f64(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f64(), a.data.copy())
+                    c.data[7] = (c.data[7] & 0x7f) | (b.data[7] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.i32_wrap_i64:
                     a = self.stack.value.pop().into_i64()
@@ -3936,14 +3938,14 @@ class Machine:
                     d = ValInst.from_v128_u64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_abs:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [abs(e) for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e & 0x7fffffff for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_neg:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [-e for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e ^ 0x80000000 for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_sqrt:
                     a = self.stack.value.pop().into_v128_f32()
@@ -3987,16 +3989,16 @@ class Machine:
                     d = ValInst.from_v128_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmin:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [min(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = [y < x for x, y in zip(a.into_v128_f32(), b.into_v128_f32())]
+                    d = ValInst.from_v128_u32([y if e else x for x, y, e in zip(a.into_v128_u32(), b.into_v128_u32(), c)])
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmax:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [max(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = [y > x for x, y in zip(a.into_v128_f32(), b.into_v128_f32())]
+                    d = ValInst.from_v128_u32([y if e else x for x, y, e in zip(a.into_v128_u32(), b.into_v128_u32(), c)])
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_abs:
                     a = self.stack.value.pop().into_v128_f64()
-- 
2.43.0


From 9bcb230f3d42e92e235c5734b044224fcdcd93a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 05/54] fix: f32.convert_i64 rounds twice

---
 pywasm/arith.py | 7 +++++++
 pywasm/core.py  | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index fe04fa2..62dc7e9 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -159,6 +159,13 @@ class F32:
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
 
+    def from_int(self, n: int) -> float:
+        # Converting to a 64-bit float first would round twice. Keep 32 bits, and fold the others into the lowest one.
+        a = abs(n)
+        s = max(0, a.bit_length() - 32)
+        a = ((a >> s) | (a & ((1 << s) - 1) != 0)) << s
+        return self.fit(math.copysign(a, n))
+
     def div(self, a: float, b: float) -> float:
         return self.fit(f64.div(a, b))
 
diff --git a/pywasm/core.py b/pywasm/core.py
index 0aa6001..189a708 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2577,11 +2577,11 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_s:
                     a = self.stack.value.pop().into_i64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_u:
                     a = self.stack.value.pop().into_u64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.from_int(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_demote_f64:
                     a = self.stack.value.pop().into_f64()
-- 
2.43.0


From 7d5b6cf516f204cf1374f37af25bf0fafc8382f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 06/54] fix: a branch to the outermost label of a called
 function keeps its frame

---
 pywasm/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 189a708..acf780a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1709,7 +1709,7 @@ class Machine:
         for e in func.code.locals:
             locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
         self.stack.frame.append(Frame(func.module, locals, len(func.type.rets), 0, 0))
-        self.stack.label.append(Label(len(func.type.rets), 1, 0, 3, func.code.expr.data, 0))
+        self.stack.label.append(Label(len(func.type.rets), 2, 0, 3, func.code.expr.data, 0))
         self.evaluate()
         rets = [self.stack.value.pop() for _ in range(len(func.type.rets))][::-1]
         for a, b in zip(func.type.rets, rets):
@@ -1732,6 +1732,9 @@ class Machine:
                 label.index = 0
             case 0x01:
                 self.stack.label.pop()
+        # Branching to the outermost label of a function leaves the function.
+        if label.carry & 2:
+            self.stack.frame.pop()
         self.stack.value = self.stack.value[:label.value]
         self.stack.value.extend(rets)
 
-- 
2.43.0


From b03b0359310aa3a985f1eec2412fdacaf95dc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 07/54] fix: a trap leaves its frames, labels and values behind
 and breaks every later call

---
 pywasm/core.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index acf780a..cc80e95 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1541,6 +1541,15 @@ class Stack:
         self.label: typing.List[Label] = []
         self.frame: typing.List[Frame] = []
 
+    def depth(self) -> typing.Tuple[int, int, int]:
+        return len(self.value), len(self.label), len(self.frame)
+
+    def unwind(self, depth: typing.Tuple[int, int, int]) -> None:
+        # Drop everything an aborted computation has left on the stack.
+        del self.value[depth[0]:]
+        del self.label[depth[1]:]
+        del self.frame[depth[2]:]
+
 
 class Machine:
     # Execution behavior is defined in terms of an abstract machine that models the program state. It includes a stack,
@@ -1602,6 +1611,13 @@ class Machine:
         return inst
 
     def instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
+        depth = self.stack.depth()
+        try:
+            return self.instance_unsafe(module, extern)
+        finally:
+            self.stack.unwind(depth)
+
+    def instance_unsafe(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1699,6 +1715,13 @@ class Machine:
         return newmod
 
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+        depth = self.stack.depth()
+        try:
+            return self.invocate_unsafe(addr, args)
+        finally:
+            self.stack.unwind(depth)
+
+    def invocate_unsafe(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
         assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
-- 
2.43.0


From 315664b003985ef39ec8bf5869795dd75ff61dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 08/54] fix: host functions cannot invoke exports or
 instantiate modules

---
 pywasm/core.py | 69 +++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index cc80e95..5a3fb23 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1618,6 +1618,7 @@ class Machine:
             self.stack.unwind(depth)
 
     def instance_unsafe(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
+        base = self.stack.depth()
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1642,10 +1643,10 @@ class Machine:
         for i, e in enumerate(module.glob):
             pywasm.log.debugln('init global', e)
             self.stack.label.append(Label(1, 1, 0, 1, e.init.data, 0))
-            self.evaluate()
-            assert len(self.stack.frame) == 1
-            assert len(self.stack.label) == 0
-            assert len(self.stack.value) == 1
+            self.evaluate(base[1])
+            assert len(self.stack.frame) == base[2] + 1
+            assert len(self.stack.label) == base[1]
+            assert len(self.stack.value) == base[0] + 1
             rets = self.stack.value.pop()
             globin.append(rets)
         for i, e in enumerate(module.elem):
@@ -1653,10 +1654,10 @@ class Machine:
             l: typing.List[ValInst] = []
             for f in e.init:
                 self.stack.label.append(Label(1, 1, 0, 1, f.data, 0))
-                self.evaluate()
-                assert len(self.stack.frame) == 1
-                assert len(self.stack.label) == 0
-                assert len(self.stack.value) == 1
+                self.evaluate(base[1])
+                assert len(self.stack.frame) == base[2] + 1
+                assert len(self.stack.label) == base[1]
+                assert len(self.stack.value) == base[0] + 1
                 rets = self.stack.value.pop()
                 l.append(rets)
             elemin.append(l)
@@ -1674,20 +1675,20 @@ class Machine:
             expr.append(Inst(pywasm.opcode.table_init, [i, e.tidx]))
             expr.append(Inst(pywasm.opcode.elem_drop, [i]))
             self.stack.label.append(Label(1, 1, 0, 1, expr, 0))
-            self.evaluate()
-            assert len(self.stack.frame) == 1
-            assert len(self.stack.label) == 0
-            assert len(self.stack.value) == 0
+            self.evaluate(base[1])
+            assert len(self.stack.frame) == base[2] + 1
+            assert len(self.stack.label) == base[1]
+            assert len(self.stack.value) == base[0]
         for i, e in enumerate(module.elem):
             if e.kind & 0x03 != 0x03:
                 continue
             expr = []
             expr.append(Inst(pywasm.opcode.elem_drop, [i]))
             self.stack.label.append(Label(1, 1, 0, 1, expr, 0))
-            self.evaluate()
-            assert len(self.stack.frame) == 1
-            assert len(self.stack.label) == 0
-            assert len(self.stack.value) == 0
+            self.evaluate(base[1])
+            assert len(self.stack.frame) == base[2] + 1
+            assert len(self.stack.label) == base[1]
+            assert len(self.stack.value) == base[0]
         for i, e in enumerate(module.data):
             pywasm.log.debugln('init data', e)
             if e.kind & 0x01 != 0x00:
@@ -1699,18 +1700,18 @@ class Machine:
             expr.append(Inst(pywasm.opcode.memory_init, [i]))
             expr.append(Inst(pywasm.opcode.data_drop, [i]))
             self.stack.label.append(Label(1, 1, 0, 1, expr, 0))
-            self.evaluate()
-            assert len(self.stack.frame) == 1
-            assert len(self.stack.label) == 0
-            assert len(self.stack.value) == 0
+            self.evaluate(base[1])
+            assert len(self.stack.frame) == base[2] + 1
+            assert len(self.stack.label) == base[1]
+            assert len(self.stack.value) == base[0]
         if module.star >= 0:
             expr = []
             expr.append(Inst(pywasm.opcode.call, [module.star]))
             self.stack.label.append(Label(1, 1, 0, 1, expr, 0))
-            self.evaluate()
-            assert len(self.stack.frame) == 1
-            assert len(self.stack.label) == 0
-            assert len(self.stack.value) == 0
+            self.evaluate(base[1])
+            assert len(self.stack.frame) == base[2] + 1
+            assert len(self.stack.label) == base[1]
+            assert len(self.stack.value) == base[0]
         self.stack.frame.pop()
         return newmod
 
@@ -1722,25 +1723,21 @@ class Machine:
             self.stack.unwind(depth)
 
     def invocate_unsafe(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+        base = self.stack.depth()
         func = self.store.func[addr]
         assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
         pywasm.log.debugln('invocate', addr, args)
-        locals = LocalsInst(args)
-        for e in func.code.locals:
-            locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
-        self.stack.frame.append(Frame(func.module, locals, len(func.type.rets), 0, 0))
-        self.stack.label.append(Label(len(func.type.rets), 2, 0, 3, func.code.expr.data, 0))
-        self.evaluate()
+        self.stack.value.extend(args)
+        self.evaluate_call(addr)
+        self.evaluate(base[1])
         rets = [self.stack.value.pop() for _ in range(len(func.type.rets))][::-1]
         for a, b in zip(func.type.rets, rets):
             assert a == b.type
         self.stack.frame.pop()
-        assert len(self.stack.frame) == 0
-        assert len(self.stack.label) == 0
-        assert len(self.stack.value) == 0
+        assert self.stack.depth() == base
         return rets
 
     def evaluate_br(self, l: int) -> None:
@@ -1818,9 +1815,11 @@ class Machine:
         assert addr + size <= len(mems.data)
         mems.data[addr:addr+size] = data[:size]
 
-    def evaluate(self) -> None:
+    def evaluate(self, base: int) -> None:
+        # Evaluate until the label stack is back to the given depth. Everything below belongs to outer computations, which
+        # are waiting for a host function that invoked this one.
         for _ in range(1 << 32):
-            if not self.stack.label:
+            if len(self.stack.label) <= base:
                 break
             label = self.stack.label[-1]
             frame = self.stack.frame[-1]
-- 
2.43.0


From c14667360127153386476f85f04efd39c008cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 09/54] fix: an exported host function cannot be invoked

---
 pywasm/core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 5a3fb23..c8a472f 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1725,7 +1725,6 @@ class Machine:
     def invocate_unsafe(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         base = self.stack.depth()
         func = self.store.func[addr]
-        assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
-- 
2.43.0


From 4ed6bd1b3aec5c6934c3751f3a91c00db766f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 10/54] fix: invoking an export which is not a function runs an
 unrelated function

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c8a472f..9143df3 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4195,7 +4195,9 @@ class Runtime:
     ) -> typing.List[int | float | bytearray]:
         # Once a module has been instantiated, any exported function can be invoked externally via its function address
         # in the store and an appropriate list of argument values.
-        addr = [e for e in module.exps if e.name == func][0].data.data
+        inst = [e for e in module.exps if e.name == func][0].data
+        assert inst.kind == 0x00
+        addr = inst.data
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-- 
2.43.0


From a16f8bf50b53913546d7ba1397d1ea77b61d9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 11/54] fix: wrong numbers of arguments or host function
 results corrupt the stack

---
 pywasm/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 9143df3..8d6d5c0 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1725,6 +1725,7 @@ class Machine:
     def invocate_unsafe(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         base = self.stack.depth()
         func = self.store.func[addr]
+        assert len(func.type.args) == len(args)
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
@@ -1794,6 +1795,7 @@ class Machine:
                 ))
             case 0x01:
                 rets = func.hostcode(self, [e.into_all() for e in args])
+                assert len(rets) == nret
                 rets = [ValInst.from_all(a, b) for a, b in zip(func.type.rets, rets)]
                 self.stack.value.extend(rets)
             case _:
-- 
2.43.0


From 605b4df5dcc1255be5221b524789c4bc5d929fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 12/54] fix: null references cannot be passed to or returned
 from functions

---
 pywasm/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 8d6d5c0..2e993d9 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -205,7 +205,7 @@ class ValInst:
         return cls(type, bytearray(struct.pack('<i', n)) + bytearray([0x01]) + bytearray(cls.blen - 5))
 
     @classmethod
-    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray]) -> typing.Self:
+    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray, None]) -> typing.Self:
         match type.data:
             case 0x7f:
                 return cls.from_i32(n)
@@ -218,9 +218,9 @@ class ValInst:
             case 0x7b:
                 return cls.from_v128(n)
             case 0x70:
-                return cls.from_ref(type, n)
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case 0x6f:
-                return cls.from_ref(type, n)
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case _:
                 assert 0
 
@@ -279,7 +279,7 @@ class ValInst:
         assert self.data[4] == 0x01
         return self.into_i32()
 
-    def into_all(self) -> typing.Union[int, float, bytearray]:
+    def into_all(self) -> typing.Union[int, float, bytearray, None]:
         match self.type.data:
             case 0x7f:
                 return self.into_i32()
@@ -292,9 +292,9 @@ class ValInst:
             case 0x7b:
                 return self.into_v128()
             case 0x70:
-                return self.into_ref()
+                return None if self.data[4] == 0x00 else self.into_ref()
             case 0x6f:
-                return self.into_ref()
+                return None if self.data[4] == 0x00 else self.into_ref()
             case _:
                 assert 0
 
-- 
2.43.0


From 122d36a0565766395a08098f4b1cb829381ceddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 13/54] fix: a declared maximum of 0 is taken for no maximum

---
 pywasm/core.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 2e993d9..2addbf2 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -815,26 +815,32 @@ class FuncDesc:
 
 
 class Limits:
-    # Limits are encoded with a preceding flag indicating whether a maximum is present.
+    # Limits are encoded with a preceding flag indicating whether a maximum is present. A maximum of 0 given without
+    # this flag means that there is no maximum.
 
-    def __init__(self, n: int, m: int) -> typing.Self:
+    def __init__(self, n: int, m: int, flag: bool | None = None) -> typing.Self:
         self.n = n
         self.m = m
+        self.flag = m != 0 if flag is None else flag
 
     def __repr__(self) -> str:
-        m = 'inf' if self.m == 0 else repr(self.m)
+        m = repr(self.m) if self.flag else 'inf'
         return f'[{self.n}, {m}]'
 
+    def fits(self, n: int) -> bool:
+        # Whether a size of n stays within the maximum.
+        return not self.flag or n <= self.m
+
     def suit(self, value: typing.Self) -> bool:
         c1 = self.n >= value.n
-        c2 = value.m == 0
-        c3 = self.m != 0 and value.m != 0 and self.m <= value.m
+        c2 = not value.flag
+        c3 = self.flag and value.flag and self.m <= value.m
         return c1 and (c2 or c3)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-        flag = ord(r.read(1))
-        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00)
+        flag = ord(r.read(1)) != 0
+        return cls(pywasm.leb128.u.decode_reader(r)[0], pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00, flag)
 
 
 class MemType:
@@ -894,8 +900,7 @@ class MemInst:
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
-        if self.type.limits.m:
-            assert self.size + n <= self.type.limits.m
+        assert self.type.limits.fits(self.size + n)
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
         self.size += n
@@ -923,7 +928,7 @@ class MemInst:
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
 
 
 class TableType:
@@ -962,14 +967,13 @@ class TableInst:
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
     def grow(self, n: int, v: ValInst) -> None:
-        if self.type.limits.m:
-            assert self.size + n <= self.type.limits.m
+        assert self.type.limits.fits(self.size + n)
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
         self.size += n
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
 
 
 class GlobalType:
@@ -2018,7 +2022,7 @@ class Machine:
                     rets = -1
                     # Limit memory size to 64m.
                     cnda = size + incr <= 1024
-                    cndb = mems.type.limits.m == 0 or size + incr <= mems.type.limits.m
+                    cndb = mems.type.limits.fits(size + incr)
                     if cnda and cndb:
                         rets = size
                         mems.grow(incr)
@@ -2802,7 +2806,7 @@ class Machine:
                     init = self.stack.value.pop()
                     rets = -1
                     cnda = size + incr <= 1024
-                    cndb = tabl.type.limits.m == 0 or size + incr <= tabl.type.limits.m
+                    cndb = tabl.type.limits.fits(size + incr)
                     if cnda and cndb:
                         rets = size
                         tabl.grow(incr, init)
-- 
2.43.0


From 9816de2b088a43263674587b53bc2c415630d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 14/54] fix: instances of the same module share their data
 segments

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 2addbf2..90b7375 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1598,7 +1598,7 @@ class Machine:
             addr = self.store.allocate_elem(e.type, elemin[i])
             inst.elem.append(addr)
         for i, e in enumerate(module.data):
-            addr = self.store.allocate_data(e.init)
+            addr = self.store.allocate_data(e.init.copy())
             inst.data.append(addr)
         for _, e in enumerate(module.exps):
             expi = ExportInst(e.name, Extern(e.kind, 0))
-- 
2.43.0


From b93ec72a4cd82feda5b399553c1edf384791daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 15/54] fix: integers which are too long or too large for their
 type are decoded

---
 pywasm/core.py   |  8 +++++---
 pywasm/leb128.py | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 90b7375..1c5d9b6 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -330,7 +330,9 @@ class Bype:
         if n in [0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f]:
             return cls(0x01, n)
         r.seek(-1, 1)
-        return cls(0x02, pywasm.leb128.i.decode_reader(r)[0])
+        n = pywasm.leb128.i.decode_reader(r, 33)[0]
+        assert n >= 0
+        return cls(0x02, n)
 
 
 class Inst:
@@ -525,9 +527,9 @@ class Inst:
             case pywasm.opcode.memory_grow:
                 o.args.append(ord(r.read(1)))
             case pywasm.opcode.i32_const:
-                o.args.append(pywasm.leb128.i.decode_reader(r)[0])
+                o.args.append(pywasm.leb128.i.decode_reader(r, 32)[0])
             case pywasm.opcode.i64_const:
-                o.args.append(pywasm.leb128.i.decode_reader(r)[0])
+                o.args.append(pywasm.leb128.i.decode_reader(r, 64)[0])
             case pywasm.opcode.f32_const:
                 # Python misinterpret 0x7fa00000 as 0x7fe00000, when encapsulate as built-in float type.
                 # See: https://stackoverflow.com/questions/47961537/webassembly-f32-const-nan0x200000-means-0x7fa00000-or-0x7fe00000
diff --git a/pywasm/leb128.py b/pywasm/leb128.py
index 1476b58..a48fd31 100644
--- a/pywasm/leb128.py
+++ b/pywasm/leb128.py
@@ -24,16 +24,20 @@ class _U:
         return r
 
     @staticmethod
-    def decode_reader(r: typing.BinaryIO) -> typing.Tuple[int, int]:
+    def decode_reader(r: typing.BinaryIO, n: int = 32) -> typing.Tuple[int, int]:
         # Decode the unsigned leb128 encoded from a reader, it will return two values, the actual number and the number
         # of bytes read.
+        # The integer has at most n bits, and so at most ceil(n / 7) bytes.
         a = bytearray()
         while True:
             b = ord(r.read(1))
             a.append(b)
             if (b & 0x80) == 0:
                 break
-        return _U.decode(a), len(a)
+            assert len(a) * 7 < n
+        v = _U.decode(a)
+        assert v < 1 << n
+        return v, len(a)
 
 
 class _I:
@@ -60,16 +64,20 @@ class _I:
         return r
 
     @staticmethod
-    def decode_reader(r: typing.BinaryIO) -> typing.Tuple[int, int]:
+    def decode_reader(r: typing.BinaryIO, n: int = 64) -> typing.Tuple[int, int]:
         # Decode the signed leb128 encoded from a reader, it will return two values, the actual number and the number
         # of bytes read.
+        # The integer has at most n bits, and so at most ceil(n / 7) bytes.
         a = bytearray()
         while True:
             b = ord(r.read(1))
             a.append(b)
             if (b & 0x80) == 0:
                 break
-        return _I.decode(a), len(a)
+            assert len(a) * 7 < n
+        v = _I.decode(a)
+        assert -(1 << n - 1) <= v < 1 << n - 1
+        return v, len(a)
 
 
 u = _U()
-- 
2.43.0


From 60b35e2b39737528c7101edd6b4f649d5281f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 16/54] fix: names, data segments and constants which are cut
 short are decoded

---
 pywasm/core.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 1c5d9b6..e8271a3 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -9,6 +9,13 @@ import struct
 import typing
 
 
+def read_exact(r: typing.BinaryIO, n: int) -> bytes:
+    # Read exactly n bytes.
+    data = r.read(n)
+    assert len(data) == n
+    return data
+
+
 class ValType:
     # Value types are encoded by a single byte.
 
@@ -613,7 +620,7 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 assert o.args[0] < 5
             case pywasm.opcode.v128_const:
-                o.args.append(bytearray(r.read(16)))
+                o.args.append(bytearray(read_exact(r, 16)))
             case pywasm.opcode.i8x16_shuffle:
                 for _ in range(16):
                     o.args.append(pywasm.leb128.u.decode_reader(r)[0])
@@ -1035,7 +1042,7 @@ class Custom:
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         n = pywasm.leb128.u.decode_reader(r)[0]
-        return cls(r.read(n).decode(), bytearray(r.read(-1)))
+        return cls(read_exact(r, n).decode(), bytearray(r.read(-1)))
 
 
 class Import:
@@ -1065,9 +1072,9 @@ class Import:
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         n = pywasm.leb128.u.decode_reader(r)[0]
-        module = r.read(n).decode()
+        module = read_exact(r, n).decode()
         n = pywasm.leb128.u.decode_reader(r)[0]
-        name = r.read(n).decode()
+        name = read_exact(r, n).decode()
         type = ord(r.read(1))
         desc = {
             0x00: lambda r: pywasm.leb128.u.decode_reader(r)[0],
@@ -1121,7 +1128,7 @@ class ExportDesc:
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-        name = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0])).decode()
+        name = read_exact(r, pywasm.leb128.u.decode_reader(r)[0]).decode()
         kind = ord(r.read(1))
         desc = pywasm.leb128.u.decode_reader(r)[0]
         return cls(name, kind, desc)
@@ -1255,15 +1262,15 @@ class DataDesc:
             case 0x00:
                 midx = 0
                 offset = Expr.from_reader(r)
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                init = bytearray(read_exact(r, pywasm.leb128.u.decode_reader(r)[0]))
             case 0x01:
                 midx = 0
                 offset = Expr([])
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                init = bytearray(read_exact(r, pywasm.leb128.u.decode_reader(r)[0]))
             case 0x02:
                 midx = pywasm.leb128.u.decode_reader(r)[0]
                 offset = Expr.from_reader(r)
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                init = bytearray(read_exact(r, pywasm.leb128.u.decode_reader(r)[0]))
         return cls(kind, midx, offset, init)
 
 
@@ -1383,7 +1390,7 @@ class ModuleDesc:
                 case 0x0a:
                     for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
+                        desc = FuncDesc.from_reader_code(io.BytesIO(read_exact(section_reader, size)))
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
-- 
2.43.0


From 0e6303bd52b4b69c31a44f9ae5e7312b3acfe28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 17/54] fix: undefined limit flags, reference types, value
 types and reserved bytes are decoded

---
 pywasm/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index e8271a3..59d07fa 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -421,7 +421,7 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.select_type:
-                o.args.append([pywasm.leb128.u.decode_reader(r)[0] for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
+                o.args.append([ValType.from_reader(r).data for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
             case pywasm.opcode.local_get:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.local_set:
@@ -531,8 +531,10 @@ class Inst:
                 assert o.args[0] < 3
             case pywasm.opcode.memory_size:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.memory_grow:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] == 0x00
             case pywasm.opcode.i32_const:
                 o.args.append(pywasm.leb128.i.decode_reader(r, 32)[0])
             case pywasm.opcode.i64_const:
@@ -545,6 +547,7 @@ class Inst:
                 o.args.append(struct.unpack('<q', r.read(8))[0])
             case pywasm.opcode.ref_null:
                 o.args.append(ord(r.read(1)))
+                assert o.args[0] in [0x70, 0x6f]
             case pywasm.opcode.ref_func:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.memory_init:
@@ -848,7 +851,9 @@ class Limits:
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
-        flag = ord(r.read(1)) != 0
+        flag = ord(r.read(1))
+        assert flag in [0x00, 0x01]
+        flag = flag != 0
         return cls(pywasm.leb128.u.decode_reader(r)[0], pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00, flag)
 
 
@@ -1154,6 +1159,7 @@ class ElemDesc:
     def __init__(self, kind: int, type: ValType, tidx: int, offset: Expr, init: typing.List[Expr]) -> typing.Self:
         assert kind >= 0x00
         assert kind <= 0x07
+        assert type in [ValType.ref_func(), ValType.ref_extern()]
         self.kind = kind
         self.type = type
         self.tidx = tidx
-- 
2.43.0


From 4de95081c8060cba68ee1e1b88006e6f3513c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 18/54] fix: an else which does not belong to an if is decoded

---
 pywasm/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 59d07fa..fa4b885 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -386,6 +386,7 @@ class Inst:
                     i = Inst.from_reader(r)
                     if i.opcode == pywasm.opcode.end:
                         break
+                    assert i.opcode != pywasm.opcode.else_fi
                     o.args[1].append(i)
             case pywasm.opcode.loop:
                 o.args.append(Bype.from_reader(r))
@@ -394,6 +395,7 @@ class Inst:
                     i = Inst.from_reader(r)
                     if i.opcode == pywasm.opcode.end:
                         break
+                    assert i.opcode != pywasm.opcode.else_fi
                     o.args[1].append(i)
             case pywasm.opcode.if_then:
                 o.args.append(Bype.from_reader(r))
@@ -405,6 +407,7 @@ class Inst:
                     if i.opcode == pywasm.opcode.end:
                         break
                     if i.opcode == pywasm.opcode.else_fi:
+                        assert argidx == 1
                         argidx = 2
                         continue
                     o.args[argidx].append(i)
@@ -741,6 +744,7 @@ class Expr:
             i = Inst.from_reader(r)
             if i.opcode == pywasm.opcode.end:
                 break
+            assert i.opcode != pywasm.opcode.else_fi
             s.append(i)
         return cls(s)
 
-- 
2.43.0


From 2e1afdc432e4f3e5d98eda3cc9fc876998a0e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 19/54] fix: modules with more than 32 sections are cut short

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index fa4b885..1ff9956 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1339,7 +1339,7 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
-- 
2.43.0


From a5ea40510d21e12401873ece14a78ed09ba80489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 20/54] fix: unknown, repeated, misplaced and oversized
 sections are decoded

---
 pywasm/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 1ff9956..23bfa73 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1339,14 +1339,17 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
+        # Sections other than custom sections occur at most once and in this order.
+        section_todo = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0c, 0x0a, 0x0b]
         while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
             section_id = ord(section_id_byte)
+            if section_id != 0x00:
+                section_todo = section_todo[section_todo.index(section_id) + 1:]
             n = pywasm.leb128.u.decode_reader(r)[0]
-            section_data = bytearray(r.read(n))
-            assert len(section_data) == n
+            section_data = bytearray(read_exact(r, n))
             section_reader = io.BytesIO(section_data)
 
             match section_id:
@@ -1413,6 +1416,8 @@ class ModuleDesc:
                 case 0x0c:
                     n = pywasm.leb128.u.decode_reader(section_reader)[0]
                     pywasm.log.debugln('section data count', n)
+            # The contents of a section have exactly the size given.
+            assert section_reader.read(1) == b''
 
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
-- 
2.43.0


From f0cd02414f46f0bd6d11949f8d4e84b0f7d83645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 21/54] fix: functions and data segments which disagree with
 the code and data count are decoded

---
 pywasm/core.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 23bfa73..d8bc25e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -737,6 +737,20 @@ class Expr:
         for e in self.data:
             e.into_disasm(indent)
 
+    def have(self, opcode: typing.List[int]) -> bool:
+        # Whether one of the opcodes occurs in the expression.
+        todo = self.data[:]
+        while todo:
+            inst = todo.pop()
+            if inst.opcode in opcode:
+                return True
+            if inst.opcode in [pywasm.opcode.block, pywasm.opcode.loop]:
+                todo.extend(inst.args[1])
+            if inst.opcode == pywasm.opcode.if_then:
+                todo.extend(inst.args[1])
+                todo.extend(inst.args[2])
+        return False
+
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         s = []
@@ -827,7 +841,9 @@ class FuncDesc:
 
     @classmethod
     def from_reader_code(cls, r: typing.BinaryIO) -> typing.Self:
-        return cls(0, [LocalsDesc.from_reader(r) for _ in range(pywasm.leb128.u.decode_reader(r)[0])], Expr.from_reader(r))
+        locals = [LocalsDesc.from_reader(r) for _ in range(pywasm.leb128.u.decode_reader(r)[0])]
+        assert sum(e.n for e in locals) < 1 << 32
+        return cls(0, locals, Expr.from_reader(r))
 
 
 class Limits:
@@ -1336,6 +1352,8 @@ class ModuleDesc:
         elem: typing.List[ElemDesc] = []
         data: typing.List[DataDesc] = []
         star: int = -1
+        code: int = 0
+        datc: int = -1
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
@@ -1401,9 +1419,12 @@ class ModuleDesc:
                         elem.append(desc)
                         pywasm.log.debugln('section elem', desc)
                 case 0x0a:
-                    for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
+                    code = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    for i in range(code):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(read_exact(section_reader, size)))
+                        func_reader = io.BytesIO(read_exact(section_reader, size))
+                        desc = FuncDesc.from_reader_code(func_reader)
+                        assert func_reader.read(1) == b''
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
@@ -1414,11 +1435,19 @@ class ModuleDesc:
                         data.append(desc)
                         pywasm.log.debugln('section data', desc)
                 case 0x0c:
-                    n = pywasm.leb128.u.decode_reader(section_reader)[0]
-                    pywasm.log.debugln('section data count', n)
+                    datc = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    pywasm.log.debugln('section data count', datc)
             # The contents of a section have exactly the size given.
             assert section_reader.read(1) == b''
 
+        # Every function has a body, and the data count, if present, is the number of data segments. It must be present
+        # for instructions to refer to data segments.
+        assert code == len(func)
+        if datc != -1:
+            assert datc == len(data)
+        else:
+            assert not any(e.expr.have([pywasm.opcode.memory_init, pywasm.opcode.data_drop]) for e in func)
+
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
 
-- 
2.43.0


From 6d6459d1ceffa40f6df3166409b274b5f99412a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 22/54] fix: memory accesses by host functions past the end of
 a memory truncate or extend it

---
 pywasm/core.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d8bc25e..9ec426c 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -913,25 +913,26 @@ class MemInst:
         self.grow(type.limits.n)
 
     def get_i32(self, addr: int) -> int:
-        return struct.unpack('<i', self.data[addr:addr+4])[0]
+        return struct.unpack('<i', self.get(addr, 4))[0]
 
     def get_i64(self, addr: int) -> int:
-        return struct.unpack('<q', self.data[addr:addr+8])[0]
+        return struct.unpack('<q', self.get(addr, 8))[0]
 
     def get_u8(self, addr: int) -> int:
-        return self.data[addr]
+        return self.get(addr, 1)[0]
 
     def get_u16(self, addr: int) -> int:
-        return struct.unpack('<H', self.data[addr:addr+2])[0]
+        return struct.unpack('<H', self.get(addr, 2))[0]
 
     def get_u32(self, addr: int) -> int:
-        return struct.unpack('<I', self.data[addr:addr+4])[0]
+        return struct.unpack('<I', self.get(addr, 4))[0]
 
     def get_u64(self, addr: int) -> int:
-        return struct.unpack('<Q', self.data[addr:addr+8])[0]
+        return struct.unpack('<Q', self.get(addr, 8))[0]
 
     def get(self, addr: int, size: int) -> bytearray:
-        return self.data[addr:addr+size].copy()
+        assert 0 <= addr <= addr + size <= len(self.data)
+        return self.data[addr:addr+size]
 
     def grow(self, n: int) -> None:
         assert self.type.limits.fits(self.size + n)
@@ -940,26 +941,27 @@ class MemInst:
         self.size += n
 
     def put_i32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<i', data)
+        self.put(addr, bytearray(struct.pack('<i', data)))
 
     def put_i64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<q', data)
+        self.put(addr, bytearray(struct.pack('<q', data)))
 
     def put_u8(self, addr: int, data: int) -> None:
-        self.data[addr] = data
+        self.put(addr, bytearray([data]))
 
     def put_u16(self, addr: int, data: int) -> None:
-        self.data[addr:addr+2] = struct.pack('<H', data)
+        self.put(addr, bytearray(struct.pack('<H', data)))
 
     def put_u32(self, addr: int, data: int) -> None:
-        self.data[addr:addr+4] = struct.pack('<I', data)
+        self.put(addr, bytearray(struct.pack('<I', data)))
 
     def put_u64(self, addr: int, data: int) -> None:
-        self.data[addr:addr+8] = struct.pack('<Q', data)
+        self.put(addr, bytearray(struct.pack('<Q', data)))
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
-        self.data[addr:addr+len(data)] = data.copy()
+        assert 0 <= addr <= addr + len(data) <= len(self.data)
+        self.data[addr:addr+len(data)] = data
 
     def suit(self, l: Limits) -> bool:
         return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
-- 
2.43.0


From 52fbe2333b479c9dd91291ba6398ac1ee150e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 23/54] fix: host failures in wasi calls end the guest instead
 of being reported

---
 pywasm/wasi.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..be68b45 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,5 @@
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -554,7 +555,7 @@ class Preview1:
         runtime.imports['wasi_snapshot_preview1'] = {}
         for e in vec:
             funkype = pywasm.core.FuncType(e[1], e[2])
-            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, e[3])
+            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, self.help_call(e[3]))
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
@@ -973,6 +974,28 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
+    def help_call(self, func: typing.Callable) -> typing.Callable:
+        # A failure of the host is reported to the guest as an error number instead of ending the program.
+        def call(m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
+            try:
+                return func(m, args)
+            except OSError as e:
+                return [self.help_errno(e)]
+            except MemoryError:
+                return [self.ERRNO_NOMEM]
+            except OverflowError:
+                return [self.ERRNO_INVAL]
+            except ValueError:
+                # Names which are not utf-8 or contain null bytes.
+                return [self.ERRNO_ILSEQ]
+        return call
+
+    def help_errno(self, e: OSError) -> int:
+        for k, v in vars(Preview1).items():
+            if k.startswith('ERRNO_') and e.errno == getattr(errno, 'E' + k[6:], -1):
+                return v
+        return self.ERRNO_IO
+
     def help_escp(self, root: str, name: str) -> bool:
         return not os.path.normpath(os.path.join(root, name)).startswith(root)
 
-- 
2.43.0


From 901571607d6cd41235b121d6cc31bd22600deedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 24/54] fix: fd_filestat_get reports whatever file has the name
 of the open one now

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index be68b45..80270cc 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -694,7 +694,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.stat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
-- 
2.43.0


From 2926568902dc9677d6f6e146756c732fbe008a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 25/54] fix: fd_filestat_set_times does not set the
 modification time to now

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 80270cc..f4c24f8 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -738,7 +738,7 @@ class Preview1:
         if args[3] & self.FSTFLAGS_MTIM:
             mtim = args[2]
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 8b6682ce547952487d5d85451b301bc0a20d273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 26/54] fix: fd_fdstat_set_flags cannot change the nonblock
 flag

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f4c24f8..ee1db4a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -655,7 +655,7 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-- 
2.43.0


From 825de6a9191cb5f5148a7eacc9f0dcfda3e1d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 27/54] fix: a failing fd_seek moves the offset

---
 pywasm/wasi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ee1db4a..7a4aadb 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -909,12 +909,11 @@ class Preview1:
         assert self.WHENCE_SET == os.SEEK_SET
         assert self.WHENCE_CUR == os.SEEK_CUR
         assert self.WHENCE_END == os.SEEK_END
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        ocur = os.lseek(file.host_fd, 0, args[2])
         # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
-            return [self.ERRNO_INVAL]
         offs = os.lseek(file.host_fd, args[1], args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 4373806bb37690989dc7f0888b2e9f6302a32248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 28/54] fix: fd_allocate writes short, takes negative ranges
 and holds the range in host memory

---
 pywasm/wasi.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7a4aadb..b77d83f 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -608,13 +608,12 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_ALLOCATE):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        size = args[1] + args[2] - os.stat(file.host_fd).st_size
-        if size <= 0:
-            return [self.ERRNO_SUCCESS]
-        offs = os.lseek(file.host_fd, 0, os.SEEK_CUR)
-        os.lseek(file.host_fd, 0, os.SEEK_END)
-        os.write(file.host_fd, bytearray(size))
-        os.lseek(file.host_fd, offs, os.SEEK_SET)
+        if args[1] < 0 or args[2] <= 0:
+            return [self.ERRNO_INVAL]
+        if args[1] + args[2] >= 1 << 63:
+            return [self.ERRNO_FBIG]
+        if args[1] + args[2] > os.stat(file.host_fd).st_size:
+            os.ftruncate(file.host_fd, args[1] + args[2])
         return [self.ERRNO_SUCCESS]
 
     def fd_close(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 1cf7ffdd96db1ebb2adfa9715a4e1b6bff00a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 29/54] fix: args and environ which are not ascii are measured
 in characters

---
 pywasm/wasi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b77d83f..8d5070a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -489,7 +489,7 @@ class Preview1:
             mems.put_u32(argv, argv_buf)
             argv += 4
             mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            argv_buf += len(e.encode())
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -498,7 +498,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -579,7 +579,7 @@ class Preview1:
             mems.put_u32(environ, environ_buf)
             environ += 4
             mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            environ_buf += len(e.encode())
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -588,7 +588,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 87aa624f694aecd49fdd847d1b6d03cb89442aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 30/54] fix: standard streams and renumbered files are
 described as preopened directories

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 8d5070a..91de140 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -770,7 +770,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not 0 < self.fd[args[0]].wasm_fd - 2 <= len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -782,7 +782,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not 0 < self.fd[args[0]].wasm_fd - 2 <= len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-- 
2.43.0


From 9b0cd885f4fc6c8b9ce51b0fa4afea4c2c1f1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 31/54] fix: path_readlink measures names in characters and
 writes past its buffer

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 91de140..560d9e6 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1277,11 +1277,11 @@ class Preview1:
         if self.help_escp(file.wasm_name, name):
             return [self.ERRNO_PERM]
         try:
-            data = os.readlink(name, dir_fd=file.host_fd)
+            data = os.fsencode(os.readlink(name, dir_fd=file.host_fd))
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 5565e6eda7a05926c86c71b42db0e29457fa71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 32/54] fix: renumbered descriptors and character devices are
 closed wrongly or never

---
 pywasm/wasi.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 560d9e6..370481e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -621,10 +621,8 @@ class Preview1:
         if self.help_badf(args[0]):
             return [self.ERRNO_BADF]
         file = self.fd[args[0]]
-        if file.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-            os.close(file.host_fd)
-            file.host_status = self.FILE_STATUS_CLOSED
         file.wasm_status = self.FILE_STATUS_CLOSED
+        self.help_shut(file)
         return [self.ERRNO_SUCCESS]
 
     def fd_datasync(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -877,10 +875,11 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
-        if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-            os.close(dest.host_fd)
+        self.help_shut(dest)
         dest.host_fd = stem.host_fd
         dest.host_flag = stem.host_flag
         dest.host_name = stem.host_name
@@ -1021,7 +1020,13 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
+
+    def help_shut(self, file: File) -> None:
+        # The standard streams belong to the embedder, whatever number the guest has given them.
+        if file.wasm_fd > self.FD_STDERR and file.host_status != self.FILE_STATUS_CLOSED:
+            file.host_status = self.FILE_STATUS_CLOSED
+            os.close(file.host_fd)
 
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
@@ -1057,12 +1062,8 @@ class Preview1:
             for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
                 if e.pipe:
                     e.pipe.seek(0)
-            for e in self.fd[self.FD_STDERR + 1:]:
-                if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
-                    continue
-                if e.host_status != self.FILE_STATUS_CLOSED:
-                    os.close(e.host_fd)
-                    e.host_status = self.FILE_STATUS_CLOSED
+            for e in self.fd:
+                self.help_shut(e)
 
     def path_create_directory(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Create a directory.
-- 
2.43.0


From 041d4cdbba1f8b6c749a07cfac07cb10b19a0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 33/54] fix: fd_readdir follows links, measures names in
 characters and describes entries by path

---
 pywasm/wasi.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 370481e..76a8c70 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -8,6 +8,7 @@ import random
 import select
 import socket
 import stat
+import struct
 import sys
 import time
 import typing
@@ -853,23 +854,21 @@ class Preview1:
         dirent = args[1]
         buflen = args[2]
         bufend = dirent + buflen
-        cookie = args[3]
+        cookie = args[3] & 0xffffffffffffffff
         result = ['.', '..', *sorted(os.listdir(file.host_fd))]
         for name in result[cookie:]:
-            if dirent + 24 > bufend:
-                break
-            info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
-            mems.put_u64(dirent, cookie + 1)
-            mems.put_u64(dirent + 8, info.st_ino)
-            mems.put_u32(dirent + 16, len(name))
-            mems.put_u8(dirent + 20, self.help_wasm_type(info))
-            dirent += 24
-            if dirent + len(name) > bufend:
-                break
-            mems.put(dirent, bytearray(name.encode()))
-            dirent += len(name)
+            # What is above a directory may be out of reach.
+            info = os.stat('.' if name == '..' else name, dir_fd=file.host_fd, follow_symlinks=False)
             cookie += 1
-        mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
+            data = os.fsencode(name)
+            data = struct.pack('<QQIBxxx', cookie, info.st_ino, len(data), self.help_wasm_type(info)) + data
+            # The last entry is cut short at the end of the buffer.
+            data = data[:bufend - dirent]
+            mems.put(dirent, bytearray(data))
+            dirent += len(data)
+            if dirent == bufend:
+                break
+        mems.put_u32(args[4], dirent - args[1])
         return [self.ERRNO_SUCCESS]
 
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 5b92ced027a91995cd54ab3162939b451412f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 34/54] fix: descriptors stay open for the guest after main has
 closed them

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 76a8c70..9741f00 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1025,6 +1025,7 @@ class Preview1:
         # The standard streams belong to the embedder, whatever number the guest has given them.
         if file.wasm_fd > self.FD_STDERR and file.host_status != self.FILE_STATUS_CLOSED:
             file.host_status = self.FILE_STATUS_CLOSED
+            file.wasm_status = self.FILE_STATUS_CLOSED
             os.close(file.host_fd)
 
     def help_sock(self, fd: int) -> bool:
-- 
2.43.0


From 964a7c9b8239b32d0f6fbda841519339e131cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 35/54] fix: calls given buffers outside the memory still read,
 write and seek files

---
 pywasm/wasi.py | 88 +++++++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 9741f00..ae1c6d8 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -750,21 +750,14 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        offs = args[3]
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = os.pread(file.host_fd, elem_len, offs)
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            offs += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[4], offs - args[3])
+        iovs = self.help_iovs(mems, args[1], args[2])
+        mems.get(args[4], 4)
+        data = os.pread(file.host_fd, sum([e[1] for e in iovs]), args[3])
+        size = len(data)
+        for elem_ptr, elem_len in iovs:
+            mems.put(elem_ptr, bytearray(data[:elem_len]))
+            data = data[elem_len:]
+        mems.put_u32(args[4], size)
         return [self.ERRNO_SUCCESS]
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -800,15 +793,10 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
         data = bytearray()
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            elem = mems.get(elem_ptr, elem_len)
-            iovs_ptr += 8
-            data.extend(elem)
+        for elem_ptr, elem_len in self.help_iovs(mems, args[1], args[2]):
+            data.extend(mems.get(elem_ptr, elem_len))
+        mems.get(args[4], 4)
         size = os.pwrite(file.host_fd, data, args[3])
         mems.put_u32(args[4], size)
         return [self.ERRNO_SUCCESS]
@@ -823,23 +811,17 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        size = 0
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = [
-                lambda: os.read(file.host_fd, elem_len),
-                lambda: file.pipe.read(elem_len),
-            ][self.help_pipe(args[0])]()
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            size += len(data)
-            if len(data) < elem_len:
-                break
+        iovs = self.help_iovs(mems, args[1], args[2])
+        mems.get(args[3], 4)
+        # One read, a second one could wait for bytes which never come.
+        data = [
+            lambda: os.read(file.host_fd, sum([e[1] for e in iovs])),
+            lambda: file.pipe.read(sum([e[1] for e in iovs])),
+        ][self.help_pipe(args[0])]()
+        size = len(data)
+        for elem_ptr, elem_len in iovs:
+            mems.put(elem_ptr, bytearray(data[:elem_len]))
+            data = data[elem_len:]
         mems.put_u32(args[3], size)
         return [self.ERRNO_SUCCESS]
 
@@ -851,6 +833,8 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
+        mems.get(args[1], args[2])
+        mems.get(args[4], 4)
         dirent = args[1]
         buflen = args[2]
         bufend = dirent + buflen
@@ -910,6 +894,7 @@ class Preview1:
             return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
+        mems.get(args[3], 8)
         # Seek before byte 0 is an error though.
         offs = os.lseek(file.host_fd, args[1], args[2])
         mems.put_u64(args[3], offs)
@@ -951,15 +936,10 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
         data = bytearray()
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            elem = mems.get(elem_ptr, elem_len)
-            iovs_ptr += 8
-            data.extend(elem)
+        for elem_ptr, elem_len in self.help_iovs(mems, args[1], args[2]):
+            data.extend(mems.get(elem_ptr, elem_len))
+        mems.get(args[3], 4)
         size = [
             lambda: os.write(file.host_fd, data),
             lambda: file.pipe.write(data),
@@ -1015,6 +995,17 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_iovs(self, mems: pywasm.core.MemInst, addr: int, size: int) -> typing.List[typing.Tuple[int, int]]:
+        # The buffers given to a call. Nothing may happen unless all of them lie within the memory.
+        iovs = []
+        for _ in range(size & 0xffffffff):
+            elem_ptr = mems.get_u32(addr)
+            elem_len = mems.get_u32(addr + 4)
+            assert elem_ptr + elem_len <= len(mems.data)
+            iovs.append((elem_ptr, elem_len))
+            addr += 8
+        return iovs
+
     def help_perm(self, fd: int, perm: int) -> bool:
         return self.fd[fd].wasm_rights_base & perm == 0
 
@@ -1481,6 +1472,7 @@ class Preview1:
     def random_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        mems.get(args[0], args[1])
         mems.put(args[0], bytearray(random.randbytes(args[1])))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 1ab86d323fb5fb74f284229661ebbe7fcb1124c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 36/54] fix: random_get is predictable

---
 pywasm/wasi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ae1c6d8..2628333 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -4,7 +4,6 @@ import fcntl
 import os
 import platform
 import pywasm.core
-import random
 import select
 import socket
 import stat
@@ -1473,7 +1472,7 @@ class Preview1:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.get(args[0], args[1])
-        mems.put(args[0], bytearray(random.randbytes(args[1])))
+        mems.put(args[0], bytearray(os.urandom(args[1])))
         return [self.ERRNO_SUCCESS]
 
     def sched_yield(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 455bbde4a8aabb900caeb826a6b22a7128532ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 37/54] fix: unknown clocks tell the time 0

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 2628333..d7dc61a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -559,12 +559,16 @@ class Preview1:
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
+        if not self.CLOCKID_REALTIME <= args[0] <= self.CLOCKID_THREAD_CPUTIME_ID:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[1], 1)
         return [self.ERRNO_SUCCESS]
 
     def clock_time_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the time value of a clock.
+        if not self.CLOCKID_REALTIME <= args[0] <= self.CLOCKID_THREAD_CPUTIME_ID:
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[2], self.help_time(args[0]))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From ce80f6b6e9b2e79eba207610aabaa6adea2b0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 38/54] fix: poll_oneoff reads subscriptions wrongly, returns
 without events and wakes up at the wrong time

---
 pywasm/wasi.py | 93 +++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d7dc61a..89d98d4 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1390,6 +1390,11 @@ class Preview1:
         nsub = args[2]
         nout = args[3]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        if nsub == 0:
+            return [self.ERRNO_INVAL]
+        mems.get(subs, nsub * 48)
+        mems.get(outs, nsub * 32)
+        mems.get(nout, 4)
         csub = []
         rsub = []
         wsub = []
@@ -1400,13 +1405,17 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
                     nval = mems.get_u64(addr + 24)
-                    flag = mems.get_u32(addr + 40)
+                    flag = mems.get_u16(addr + 40)
+                    if ckid in [self.CLOCKID_PROCESS_CPUTIME_ID, self.CLOCKID_THREAD_CPUTIME_ID]:
+                        # The cpu time does not pass while waiting.
+                        return [self.ERRNO_NOTSUP]
+                    if ckid not in [self.CLOCKID_REALTIME, self.CLOCKID_MONOTONIC]:
+                        return [self.ERRNO_INVAL]
                     ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
                     ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
-                    csub.append([userdata, ckid, delt, ends])
+                    csub.append([userdata, ckid, ends])
                 case self.EVENTTYPE_FD_READ:
                     file = mems.get_u32(addr + 16)
                     if self.help_badf(file):
@@ -1421,41 +1430,49 @@ class Preview1:
                     if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
                         return [self.ERRNO_NOTCAPABLE]
                     wsub.append([userdata, file])
-        # Calculate minimum timeout.
-        delt = 8
-        if csub:
-            delt = min([e[2] for e in csub]) / 1000000000.0
-        ryes, wyes, _ = select.select(
-            [self.fd[fd].host_fd for _, fd in rsub],
-            [self.fd[fd].host_fd for _, fd in wsub],
-            [],
-            delt,
-        )
+                case _:
+                    return [self.ERRNO_INVAL]
+        # Captured streams are always ready.
+        pyes = [fd for _, fd in rsub + wsub if self.help_pipe(fd)]
         neve = 0
-        for e in csub:
-            if self.help_time(e[1]) < e[3]:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_CLOCK)
-            outs += 32
-            neve += 1
-        for e in rsub:
-            if self.fd[e[1]].host_fd not in ryes:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_FD_READ)
-            outs += 32
-            neve += 1
-        for e in wsub:
-            if self.fd[e[1]].host_fd not in wyes:
-                continue
-            mems.put_u64(outs, e[0])
-            mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-            mems.put_u8(outs + 10, self.EVENTTYPE_FD_WRITE)
-            outs += 32
-            neve += 1
+        while neve == 0:
+            # Calculate minimum timeout.
+            delt = 3600 if not pyes else 0
+            for e in csub:
+                delt = min(delt, max(0, e[2] - self.help_time(e[1])) / 1000000000.0)
+            ryes, wyes, _ = select.select(
+                [self.fd[fd].host_fd for _, fd in rsub if fd not in pyes],
+                [self.fd[fd].host_fd for _, fd in wsub if fd not in pyes],
+                [],
+                delt,
+            )
+            for e in csub:
+                if self.help_time(e[1]) < e[2]:
+                    continue
+                mems.put(outs, bytearray(32))
+                mems.put_u64(outs, e[0])
+                mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
+                mems.put_u8(outs + 10, self.EVENTTYPE_CLOCK)
+                outs += 32
+                neve += 1
+            for e in rsub:
+                if e[1] not in pyes and self.fd[e[1]].host_fd not in ryes:
+                    continue
+                mems.put(outs, bytearray(32))
+                mems.put_u64(outs, e[0])
+                mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
+                mems.put_u8(outs + 10, self.EVENTTYPE_FD_READ)
+                outs += 32
+                neve += 1
+            for e in wsub:
+                if e[1] not in pyes and self.fd[e[1]].host_fd not in wyes:
+                    continue
+                mems.put(outs, bytearray(32))
+                mems.put_u64(outs, e[0])
+                mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
+                mems.put_u8(outs + 10, self.EVENTTYPE_FD_WRITE)
+                outs += 32
+                neve += 1
         mems.put_u32(nout, neve)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From d13aeb7d050a4b43739dd4a24df16213fdd585ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 39/54] fix: sock_accept fails, and otherwise closes the
 connection and changes the listening socket

---
 pywasm/wasi.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 89d98d4..5ca70ab 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1515,14 +1515,18 @@ class Preview1:
             self.FILETYPE_SOCKET_STREAM: socket.SOCK_STREAM,
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
+        if args[1] & ~self.FDFLAGS_NONBLOCK:
+            return [self.ERRNO_INVAL]
+        mems.get(args[2], 4)
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if args[1] & self.FDFLAGS_NONBLOCK:
-            sock.setblocking(False)
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        if args[1] & self.FDFLAGS_NONBLOCK:
+            conn.setblocking(False)
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=os.O_RDWR | os.O_NONBLOCK if args[1] & self.FDFLAGS_NONBLOCK else os.O_RDWR,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
-- 
2.43.0


From 8cd3e75205038353ab8058ef0ba753c5d7d55eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 40/54] fix: sock_recv reports short reads as truncated and
 writes past its flags, sock_recv and sock_send accept buffers outside the
 memory

---
 pywasm/wasi.py | 45 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 5ca70ab..aad3a07 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1556,8 +1556,6 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        iovs_ptr = args[1]
-        iovs_len = args[2]
         ro_flags = 0
         ri_flags = 0
         if args[3] & self.RIFLAGS_RECV_PEEK:
@@ -1565,36 +1563,25 @@ class Preview1:
         if args[3] & self.RIFLAGS_RECV_WAITALL and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
             # Only meaningful for stream sockets.
             ri_flags |= socket.MSG_WAITALL
-        size_all = 0
-        for _ in range(iovs_len):
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            size_all += elem_len
-            iovs_ptr += 8
-        try:
-            data = sock.recv(size_all, ri_flags)
-        except BrokenPipeError:
-            return [self.ERRNO_PIPE]
+        iovs = self.help_iovs(mems, args[1], args[2])
+        mems.get(args[4], 4)
+        mems.get(args[5], 2)
+        size_all = sum([e[1] for e in iovs])
+        data, _, flag, _ = sock.recvmsg(size_all, 0, ri_flags)
         data_len = len(data)
-        # If no data received, check for connection closure.
-        if data_len == 0 and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
-            ro_flags |= self.EVENTRWFLAGS_FD_READWRITE_HANGUP
         # Distribute data across iovec buffers.
-        iovs_ptr = args[1]
         offs = 0
-        for _ in range(iovs_len):
+        for elem_ptr, elem_len in iovs:
             if offs >= data_len:
                 break
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
             size = min(elem_len, data_len - offs)
             if size > 0:
                 mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                 offs += size
-            iovs_ptr += 8
-        if data_len < size_all:
+        if flag & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
-        mems.put_u32(args[5], ro_flags)
+        mems.put_u16(args[5], ro_flags)
         return [self.ERRNO_SUCCESS]
 
     def sock_send(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1612,19 +1599,11 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        iovs_ptr = args[1]
-        iovs_len = args[2]
         data = bytearray()
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            elem = mems.get(elem_ptr, elem_len)
-            data.extend(elem)
-            iovs_ptr += 8
-        try:
-            size = sock.send(data)
-        except BrokenPipeError:
-            return [self.ERRNO_PIPE]
+        for elem_ptr, elem_len in self.help_iovs(mems, args[1], args[2]):
+            data.extend(mems.get(elem_ptr, elem_len))
+        mems.get(args[4], 4)
+        size = sock.send(data)
         mems.put_u32(args[4], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 264e06d80ecc0a41962a572b9b99754b5abfadac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 41/54] fix: symbolic links and absolute names lead out of
 preopened directories, and . and / cannot be preopened

---
 pywasm/wasi.py | 212 +++++++++++++++++++++----------------------------
 1 file changed, 89 insertions(+), 123 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index aad3a07..73dbe5c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,3 +1,4 @@
+import contextlib
 import dataclasses
 import errno
 import fcntl
@@ -975,8 +976,51 @@ class Preview1:
                 return v
         return self.ERRNO_IO
 
-    def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
+    @contextlib.contextmanager
+    def help_path(self, file: File, name: str, foll: int) -> typing.Iterator[typing.Tuple[int, str]]:
+        # Find the directory which holds the file a name stands for, and the name of the file in it. The name is walked
+        # part by part, so that neither an absolute name, nor '..', nor a symbolic link leads out of the directory it
+        # starts from. The file itself may be a symbolic link: it is followed on request, and when a slash comes after
+        # it. A negative foll is for names which are made or removed, these are never followed.
+        todo = name.split('/')
+        path = [os.dup(file.host_fd)]
+        link = 0
+        try:
+            if name == '':
+                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
+            if todo[0] == '':
+                raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), name)
+            while True:
+                part = todo.pop(0)
+                dest = None
+                if part == '..':
+                    if len(path) == 1:
+                        raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), name)
+                    os.close(path.pop())
+                    part = '.'
+                elif part not in ['', '.'] and (any(todo) or foll > 0 or todo and foll == 0):
+                    try:
+                        dest = os.readlink(part, dir_fd=path[-1])
+                    except OSError as e:
+                        if e.errno not in [errno.EINVAL, errno.ENOENT]:
+                            raise e
+                if dest:
+                    link += 1
+                    if link > 40:
+                        raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), name)
+                    if dest.startswith('/'):
+                        raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), name)
+                    todo = dest.split('/') + todo
+                    continue
+                if not any(todo):
+                    yield path[-1], part + '/' if todo else part
+                    return
+                if part not in ['', '.']:
+                    flag = os.O_DIRECTORY | os.O_NOFOLLOW | getattr(os, 'O_PATH', os.O_RDONLY)
+                    path.append(os.open(part, flag, dir_fd=path[-1]))
+        finally:
+            for e in path:
+                os.close(e)
 
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
@@ -1068,12 +1112,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        try:
-            os.mkdir(name, dir_fd=file.host_fd)
-        except FileExistsError:
-            return [self.ERRNO_EXIST]
+        with self.help_path(file, name, -1) as (host_fd, name):
+            os.mkdir(name, dir_fd=host_fd)
         return [self.ERRNO_SUCCESS]
 
     def path_filestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1086,12 +1126,8 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        try:
-            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
+        with self.help_path(file, name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW) as (host_fd, name):
+            info = os.stat(name, dir_fd=host_fd, follow_symlinks=False)
         mems.put_u64(args[4], 1)
         mems.put_u64(args[4] + 8, info.st_ino)
         mems.put_u8(args[4] + 16, self.help_wasm_type(info))
@@ -1116,23 +1152,19 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
-        atim = info.st_atime_ns
-        if args[6] & self.FSTFLAGS_ATIM:
-            atim = args[4]
-        if args[6] & self.FSTFLAGS_ATIM_NOW:
-            atim = time.time_ns()
-        mtim = info.st_mtime_ns
-        if args[6] & self.FSTFLAGS_MTIM:
-            mtim = args[5]
-        if args[6] & self.FSTFLAGS_MTIM_NOW:
-            mtim = time.time_ns()
-        try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
+        with self.help_path(file, name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW) as (host_fd, name):
+            info = os.stat(name, dir_fd=host_fd, follow_symlinks=False)
+            atim = info.st_atime_ns
+            if args[6] & self.FSTFLAGS_ATIM:
+                atim = args[4]
+            if args[6] & self.FSTFLAGS_ATIM_NOW:
+                atim = time.time_ns()
+            mtim = info.st_mtime_ns
+            if args[6] & self.FSTFLAGS_MTIM:
+                mtim = args[5]
+            if args[6] & self.FSTFLAGS_MTIM_NOW:
+                mtim = time.time_ns()
+            os.utime(name, ns=(atim, mtim), dir_fd=host_fd, follow_symlinks=False)
         return [self.ERRNO_SUCCESS]
 
     def path_link(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1148,19 +1180,12 @@ class Preview1:
         dest = self.fd[args[4]]
         stem_name = mems.get(args[2], args[3]).decode()
         dest_name = mems.get(args[5], args[6]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
-        try:
-            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)
-        except FileExistsError:
-            return [self.ERRNO_EXIST]
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
-        except PermissionError:
-            return [self.ERRNO_PERM]
+        with (
+            self.help_path(stem, stem_name, foll) as (stem_fd, stem_name),
+            self.help_path(dest, dest_name, -1) as (dest_fd, dest_name),
+        ):
+            os.link(stem_name, dest_name, src_dir_fd=stem_fd, dst_dir_fd=dest_fd, follow_symlinks=False)
         return [self.ERRNO_SUCCESS]
 
     def path_open(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1176,11 +1201,10 @@ class Preview1:
         host_name = os.path.normpath(os.path.join(file.host_name, name))
         if '\0' in name:
             return [self.ERRNO_ILSEQ]
-        if self.help_escp(file.host_name, name):
-            return [self.ERRNO_PERM]
-        flag = 0
-        if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
-            flag |= os.O_NOFOLLOW
+        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        if args[4] & self.OFLAGS_CREAT and args[4] & self.OFLAGS_EXCL:
+            foll = -1
+        flag = os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
         if args[4] & self.OFLAGS_DIRECTORY:
@@ -1200,22 +1224,8 @@ class Preview1:
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
         wasm_fd = len(self.fd)
-        try:
-            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)
-        except FileExistsError:
-            return [self.ERRNO_EXIST]
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
-        except IsADirectoryError:
-            return [self.ERRNO_ISDIR]
-        except NotADirectoryError:
-            return [self.ERRNO_NOTDIR]
-        except OSError as e:
-            if platform.system().lower() == 'darwin' and e.errno == 62:
-                return [self.ERRNO_LOOP]
-            if platform.system().lower() == 'linux' and e.errno == 40:
-                return [self.ERRNO_LOOP]
-            raise e
+        with self.help_path(file, name, foll) as (host_fd, name):
+            host_fd = os.open(name, flag, 0o644, dir_fd=host_fd)
         rights_base = args[5]
         rights_root = args[6]
         # Drectory does not have the seek right.
@@ -1269,12 +1279,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        try:
-            data = os.fsencode(os.readlink(name, dir_fd=file.host_fd))
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
+        with self.help_path(file, name, 0) as (host_fd, name):
+            data = os.fsencode(os.readlink(name, dir_fd=host_fd))
         size = min(len(data), args[4])
         mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
@@ -1289,18 +1295,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        try:
-            os.rmdir(name, dir_fd=file.host_fd)
-        except NotADirectoryError:
-            return [self.ERRNO_NOTDIR]
-        except OSError as e:
-            if platform.system().lower() == 'darwin' and e.errno == 66:
-                return [self.ERRNO_NOTEMPTY]
-            if platform.system().lower() == 'linux' and e.errno == 39:
-                return [self.ERRNO_NOTEMPTY]
-            raise e
+        with self.help_path(file, name, -1) as (host_fd, name):
+            os.rmdir(name, dir_fd=host_fd)
         return [self.ERRNO_SUCCESS]
 
     def path_rename(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1316,26 +1312,11 @@ class Preview1:
         dest = self.fd[args[3]]
         stem_name = mems.get(args[1], args[2]).decode()
         dest_name = mems.get(args[4], args[5]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
-        try:
-            os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)
-        except FileExistsError:
-            return [self.ERRNO_EXIST]
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
-        except IsADirectoryError:
-            return [self.ERRNO_ISDIR]
-        except NotADirectoryError:
-            return [self.ERRNO_NOTDIR]
-        except OSError as e:
-            if platform.system().lower() == 'darwin' and e.errno == 66:
-                return [self.ERRNO_NOTEMPTY]
-            if platform.system().lower() == 'linux' and e.errno == 39:
-                return [self.ERRNO_NOTEMPTY]
-            raise e
+        with (
+            self.help_path(stem, stem_name, -1) as (stem_fd, stem_name),
+            self.help_path(dest, dest_name, -1) as (dest_fd, dest_name),
+        ):
+            os.rename(stem_name, dest_name, src_dir_fd=stem_fd, dst_dir_fd=dest_fd)
         return [self.ERRNO_SUCCESS]
 
     def path_symlink(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1348,18 +1329,11 @@ class Preview1:
         file = self.fd[args[2]]
         stem = mems.get(args[0], args[1]).decode()
         dest = mems.get(args[3], args[4]).decode()
-        if self.help_escp(file.wasm_name, stem):
-            return [self.ERRNO_PERM]
-        if self.help_escp(file.wasm_name, dest):
+        # The link may not lead out, it is relative to the directory it is in.
+        if os.path.normpath(os.path.join(os.path.dirname(dest), stem)).split('/')[0] in ['', '..']:
             return [self.ERRNO_PERM]
-        try:
-            os.symlink(stem, dest, dir_fd=file.host_fd)
-        except FileExistsError:
-            return [self.ERRNO_EXIST]
-        except FileNotFoundError:
-            return [self.ERRNO_NOENT]
-        except NotADirectoryError:
-            return [self.ERRNO_NOTDIR]
+        with self.help_path(file, dest, -1) as (host_fd, dest):
+            os.symlink(stem, dest, dir_fd=host_fd)
         return [self.ERRNO_SUCCESS]
 
     def path_unlink_file(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1371,16 +1345,8 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        try:
-            os.unlink(name, dir_fd=file.host_fd)
-        except IsADirectoryError:
-            return [self.ERRNO_ISDIR]
-        except NotADirectoryError:
-            return [self.ERRNO_NOTDIR]
-        except PermissionError:
-            return [self.ERRNO_PERM]
+        with self.help_path(file, name, -1) as (host_fd, name):
+            os.unlink(name, dir_fd=host_fd)
         return [self.ERRNO_SUCCESS]
 
     def poll_oneoff(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 47490f66c9e8c9d6023aec4c8b78a2ee2e47b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 42/54] fix: path_open creates and opens files for a result
 outside the memory

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 73dbe5c..09523ee 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1201,6 +1201,7 @@ class Preview1:
         host_name = os.path.normpath(os.path.join(file.host_name, name))
         if '\0' in name:
             return [self.ERRNO_ILSEQ]
+        mems.get(args[8], 4)
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
         if args[4] & self.OFLAGS_CREAT and args[4] & self.OFLAGS_EXCL:
             foll = -1
-- 
2.43.0


From 121a2d88ffef838088ce2fee4231e7a78d7590d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 43/54] fix: files opened in a directory get rights the
 directory does not have

---
 pywasm/wasi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 09523ee..c8640a0 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1208,6 +1208,8 @@ class Preview1:
         flag = os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
+            if file.wasm_rights_base & self.RIGHTS_PATH_CREATE_FILE == 0:
+                return [self.ERRNO_NOTCAPABLE]
         if args[4] & self.OFLAGS_DIRECTORY:
             flag |= os.O_DIRECTORY
         if args[4] & self.OFLAGS_EXCL:
@@ -1216,19 +1218,20 @@ class Preview1:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                 return [self.ERRNO_PERM]
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
+        # The rights of the directory are the most a file opened in it can get.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
             flag |= os.O_RDONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
             flag |= os.O_WRONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
         wasm_fd = len(self.fd)
         with self.help_path(file, name, foll) as (host_fd, name):
             host_fd = os.open(name, flag, 0o644, dir_fd=host_fd)
-        rights_base = args[5]
-        rights_root = args[6]
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From 9b2615b10083ad4be731b1c9315326b4d59d0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 44/54] fix: files are not opened with the nonblock and sync
 flags they report

---
 pywasm/wasi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index c8640a0..a788645 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1229,6 +1229,14 @@ class Preview1:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
+        if args[7] & self.FDFLAGS_DSYNC:
+            flag |= os.O_DSYNC
+        if args[7] & self.FDFLAGS_NONBLOCK:
+            flag |= os.O_NONBLOCK
+        if args[7] & (self.FDFLAGS_RSYNC | self.FDFLAGS_SYNC):
+            flag |= os.O_SYNC
+        if args[7] & 0xffe0:
+            return [self.ERRNO_INVAL]
         wasm_fd = len(self.fd)
         with self.help_path(file, name, foll) as (host_fd, name):
             host_fd = os.open(name, flag, 0o644, dir_fd=host_fd)
-- 
2.43.0


From 59f72464de0d41e84859958cdc8d084e5ab9b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 45/54] fix: fd_pread and fd_pwrite do not need the seek right

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a788645..93ad9b3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -750,7 +750,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         if self.help_idir(args[0]):
             return [self.ERRNO_ISDIR]
-        if self.help_perm(args[0], self.RIGHTS_FD_READ):
+        if self.help_perm(args[0], self.RIGHTS_FD_READ) or self.help_perm(args[0], self.RIGHTS_FD_SEEK):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -793,7 +793,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         if self.help_idir(args[0]):
             return [self.ERRNO_ISDIR]
-        if self.help_perm(args[0], self.RIGHTS_FD_WRITE):
+        if self.help_perm(args[0], self.RIGHTS_FD_WRITE) or self.help_perm(args[0], self.RIGHTS_FD_SEEK):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-- 
2.43.0


From 35fcbab4bbd6b9ec0621556cc7bebe46e93785e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 46/54] fix: times before 1970 end the guest

---
 pywasm/wasi.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 93ad9b3..f53da86 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -702,9 +702,9 @@ class Preview1:
         mems.put_u8(args[1] + 16, file.wasm_type)
         mems.put_u64(args[1] + 24, info.st_nlink)
         mems.put_u64(args[1] + 32, info.st_size)
-        mems.put_u64(args[1] + 40, info.st_atime_ns)
-        mems.put_u64(args[1] + 48, info.st_mtime_ns)
-        mems.put_u64(args[1] + 56, info.st_ctime_ns)
+        mems.put_u64(args[1] + 40, max(0, info.st_atime_ns))
+        mems.put_u64(args[1] + 48, max(0, info.st_mtime_ns))
+        mems.put_u64(args[1] + 56, max(0, info.st_ctime_ns))
         return [self.ERRNO_SUCCESS]
 
     def fd_filestat_set_size(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -733,12 +733,12 @@ class Preview1:
         info = os.stat(file.host_fd)
         atim = info.st_atime_ns
         if args[3] & self.FSTFLAGS_ATIM:
-            atim = args[1]
+            atim = args[1] & 0xffffffffffffffff
         if args[3] & self.FSTFLAGS_ATIM_NOW:
             atim = time.time_ns()
         mtim = info.st_mtime_ns
         if args[3] & self.FSTFLAGS_MTIM:
-            mtim = args[2]
+            mtim = args[2] & 0xffffffffffffffff
         if args[3] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
@@ -1133,9 +1133,9 @@ class Preview1:
         mems.put_u8(args[4] + 16, self.help_wasm_type(info))
         mems.put_u64(args[4] + 24, info.st_nlink)
         mems.put_u64(args[4] + 32, info.st_size)
-        mems.put_u64(args[4] + 40, info.st_atime_ns)
-        mems.put_u64(args[4] + 48, info.st_mtime_ns)
-        mems.put_u64(args[4] + 56, info.st_ctime_ns)
+        mems.put_u64(args[4] + 40, max(0, info.st_atime_ns))
+        mems.put_u64(args[4] + 48, max(0, info.st_mtime_ns))
+        mems.put_u64(args[4] + 56, max(0, info.st_ctime_ns))
         return [self.ERRNO_SUCCESS]
 
     def path_filestat_set_times(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1156,12 +1156,12 @@ class Preview1:
             info = os.stat(name, dir_fd=host_fd, follow_symlinks=False)
             atim = info.st_atime_ns
             if args[6] & self.FSTFLAGS_ATIM:
-                atim = args[4]
+                atim = args[4] & 0xffffffffffffffff
             if args[6] & self.FSTFLAGS_ATIM_NOW:
                 atim = time.time_ns()
             mtim = info.st_mtime_ns
             if args[6] & self.FSTFLAGS_MTIM:
-                mtim = args[5]
+                mtim = args[5] & 0xffffffffffffffff
             if args[6] & self.FSTFLAGS_MTIM_NOW:
                 mtim = time.time_ns()
             os.utime(name, ns=(atim, mtim), dir_fd=host_fd, follow_symlinks=False)
-- 
2.43.0


From fba4dbef63b011d90c3c9c9e854e220225fca971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 47/54] fix: files opened in an opened directory cannot seek

---
 pywasm/wasi.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f53da86..9878881 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1244,7 +1244,6 @@ class Preview1:
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
             rights_base &= ~void
-            rights_root &= ~void
         # Files shouldn't have rights for path_* syscalls even if manually given.
         if os.path.isfile(host_fd):
             void = sum([
-- 
2.43.0


From f58d3831c23e282235702b439b8a3f4599066a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 48/54] fix: poll_oneoff fails for descriptors the host numbers
 above 1023

---
 pywasm/wasi.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 9878881..b46d7b7 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1417,12 +1417,21 @@ class Preview1:
             delt = 3600 if not pyes else 0
             for e in csub:
                 delt = min(delt, max(0, e[2] - self.help_time(e[1])) / 1000000000.0)
-            ryes, wyes, _ = select.select(
-                [self.fd[fd].host_fd for _, fd in rsub if fd not in pyes],
-                [self.fd[fd].host_fd for _, fd in wsub if fd not in pyes],
-                [],
-                delt,
-            )
+            # Unlike select, poll takes descriptors of any number.
+            mask = {}
+            for _, fd in rsub:
+                mask[self.fd[fd].host_fd] = mask.get(self.fd[fd].host_fd, 0) | select.POLLIN
+            for _, fd in wsub:
+                mask[self.fd[fd].host_fd] = mask.get(self.fd[fd].host_fd, 0) | select.POLLOUT
+            for fd in pyes:
+                mask.pop(self.fd[fd].host_fd, None)
+            poll = select.poll()
+            for k, v in mask.items():
+                poll.register(k, v)
+            void = select.POLLERR | select.POLLHUP | select.POLLNVAL
+            yes = poll.poll(delt * 1000)
+            ryes = [k for k, v in yes if v & (select.POLLIN | void)]
+            wyes = [k for k, v in yes if v & (select.POLLOUT | void)]
             for e in csub:
                 if self.help_time(e[1]) < e[2]:
                     continue
-- 
2.43.0


From 82df303c6b884d26daaca9d086143729d1d16329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 49/54] fix: a failing fd_fdstat_set_flags changes the flags
 reported

---
 pywasm/wasi.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b46d7b7..83b0a1f 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -661,17 +661,15 @@ class Preview1:
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-        file.host_flag &= ~os.O_APPEND
-        file.host_flag &= ~os.O_NONBLOCK
-        file.wasm_flag &= ~self.FDFLAGS_APPEND
-        file.wasm_flag &= ~self.FDFLAGS_NONBLOCK
+        host_flag = file.host_flag & ~os.O_APPEND & ~os.O_NONBLOCK
+        wasm_flag = file.wasm_flag & ~fyes | args[1] & fyes
         if args[1] & self.FDFLAGS_APPEND:
-            file.host_flag |= os.O_APPEND
-            file.wasm_flag |= self.FDFLAGS_APPEND
+            host_flag |= os.O_APPEND
         if args[1] & self.FDFLAGS_NONBLOCK:
-            file.host_flag |= os.O_NONBLOCK
-            file.wasm_flag |= self.FDFLAGS_NONBLOCK
-        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, file.host_flag)
+            host_flag |= os.O_NONBLOCK
+        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, host_flag)
+        file.host_flag = host_flag
+        file.wasm_flag = wasm_flag
         return [self.ERRNO_SUCCESS]
 
     def fd_fdstat_set_rights(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 23276a0549c47726fd21ca96e8669e6f6cffd287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 50/54] fix: path_open leaves a host descriptor open when the
 file cannot be examined

---
 pywasm/wasi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 83b0a1f..7a90d9c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1233,11 +1233,16 @@ class Preview1:
             flag |= os.O_NONBLOCK
         if args[7] & (self.FDFLAGS_RSYNC | self.FDFLAGS_SYNC):
             flag |= os.O_SYNC
-        if args[7] & 0xffe0:
+        if args[7] & ~0x1f:
             return [self.ERRNO_INVAL]
         wasm_fd = len(self.fd)
         with self.help_path(file, name, foll) as (host_fd, name):
             host_fd = os.open(name, flag, 0o644, dir_fd=host_fd)
+        try:
+            wasm_type = self.help_wasm_type(os.fstat(host_fd))
+        except OSError:
+            os.close(host_fd)
+            raise
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
@@ -1274,7 +1279,7 @@ class Preview1:
             wasm_rights_base=rights_base,
             wasm_rights_root=rights_root,
             wasm_status=self.FILE_STATUS_OPENED,
-            wasm_type=self.help_wasm_type(os.fstat(host_fd)),
+            wasm_type=wasm_type,
         ))
         mems.put_u32(args[8], wasm_fd)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 3bcb685ba6b8ddafe49f8259adf8c9e16fdaf556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 51/54] fix: lane immediates are single bytes, not LEB128
 integers

---
 pywasm/core.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 9ec426c..49e6944 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -629,90 +629,90 @@ class Inst:
                 o.args.append(bytearray(read_exact(r, 16)))
             case pywasm.opcode.i8x16_shuffle:
                 for _ in range(16):
-                    o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                    o.args.append(ord(r.read(1)))
                 for e in o.args:
                     assert e < 32
             case pywasm.opcode.i8x16_extract_lane_s:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 16
             case pywasm.opcode.i8x16_extract_lane_u:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 16
             case pywasm.opcode.i8x16_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 16
             case pywasm.opcode.i16x8_extract_lane_s:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 8
             case pywasm.opcode.i16x8_extract_lane_u:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 8
             case pywasm.opcode.i16x8_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 8
             case pywasm.opcode.i32x4_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.i32x4_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.i64x2_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.i64x2_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.f32x4_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.f32x4_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 4
             case pywasm.opcode.f64x2_extract_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.f64x2_replace_lane:
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[0] < 2
             case pywasm.opcode.v128_load8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 16
             case pywasm.opcode.v128_load16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 8
             case pywasm.opcode.v128_load32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 4
             case pywasm.opcode.v128_load64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 2
             case pywasm.opcode.v128_store8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 16
             case pywasm.opcode.v128_store16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 8
             case pywasm.opcode.v128_store32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 4
             case pywasm.opcode.v128_store64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                o.args.append(ord(r.read(1)))
                 assert o.args[2] < 2
             case pywasm.opcode.v128_load32_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
-- 
2.43.0


From 885a2b40491809aa2228e838b4c45b1ac0a46c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 52/54] fix: check the alignment of SIMD lane and
 zero-extending accesses

---
 pywasm/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 49e6944..9facf17 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -676,50 +676,60 @@ class Inst:
                 assert o.args[0] < 2
             case pywasm.opcode.v128_load8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 1
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 16
             case pywasm.opcode.v128_load16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 2
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 8
             case pywasm.opcode.v128_load32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 4
             case pywasm.opcode.v128_load64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 2
             case pywasm.opcode.v128_store8_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 1
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 16
             case pywasm.opcode.v128_store16_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 2
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 8
             case pywasm.opcode.v128_store32_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 4
             case pywasm.opcode.v128_store64_lane:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(ord(r.read(1)))
                 assert o.args[2] < 2
             case pywasm.opcode.v128_load32_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 3
             case pywasm.opcode.v128_load64_zero:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
+                assert o.args[0] < 4
         return o
 
 
-- 
2.43.0


From c864a9300e03c9fb777ebf97ba429bb3243eaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 53/54] fix: never follow a link swapped in for a wasi name
 which ends in a slash

---
 pywasm/wasi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7a90d9c..fbfdea3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -989,6 +989,9 @@ class Preview1:
             if todo[0] == '':
                 raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), name)
             while True:
+                if foll >= 0 and todo[-1] == '':
+                    # The host would follow a link for the slash, open the directory here instead.
+                    todo[-1] = '.'
                 part = todo.pop(0)
                 dest = None
                 if part == '..':
-- 
2.43.0


From 42a6d521d44d63c6d6ff3078ae01d680d0f617c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 54/54] fix: a wasi program ended in a host function wipes the
 stack of the computation that called it

---
 pywasm/wasi.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index fbfdea3..9c35e12 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1089,9 +1089,6 @@ class Preview1:
         try:
             runtime.invocate(module, '_start', [])
         except Exception as e:
-            runtime.machine.stack.frame.clear()
-            runtime.machine.stack.label.clear()
-            runtime.machine.stack.value.clear()
             if len(e.args) >= 1 and e.args[0] == SystemExit:
                 return e.args[1]
             raise e
-- 
2.43.0

