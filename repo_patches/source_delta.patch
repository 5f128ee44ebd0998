From d48de300e79e90ad63b31186c9ca384289ed44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 01/61] fix: generate compilable code for nameless constant
 fields

---
 generator/target/commonjs/commonjs.go | 2 ++
 generator/target/csharp/csharp.go     | 2 ++
 generator/target/esm/esm.go           | 2 ++
 generator/target/java/java.go         | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..c37ac4a 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1468,9 +1468,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
     this.{{ $fieldName }} = {{ $constValue }};
+    {{- end }}
 {{- end -}}
 `
 
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..7d716ee 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -833,9 +833,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := ToPascalCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
         public const {{ $tyStr }} {{ $fieldName }} = ({{ $tyStr }}){{ $constValue }};
+    {{- end }}
 {{- end -}}
 `
 
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..c038629 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1306,8 +1306,10 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
     this.{{ $fieldName }} = {{ $constValue }};
+    {{- end }}
 {{- end -}}
 `
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..18d4f8a 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -785,9 +785,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
     private final {{ $tyStr }} {{ $fieldName }} = ({{ $tyStr }}){{ $constValue }};
+    {{- end }}
 {{- end -}}
 `
 
-- 
2.43.0


From 6a696c6ecae9f97fae89328c541fda0acdbf864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 02/61] fix: place the last bits of a field that ends inside a
 byte

---
 generator/target/c/c.go               | 4 ++--
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/cpp/cpp.go           | 4 ++--
 generator/target/csharp/csharp.go     | 4 ++--
 generator/target/esm/esm_encode.go    | 2 +-
 generator/target/java/java.go         | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..5ef8039 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2208,8 +2208,8 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index c37ac4a..6d345b2 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2531,8 +2531,8 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..f84ac7b 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2353,8 +2353,8 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 7d716ee..b2e4baa 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2048,8 +2048,8 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..dd1aec9 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -667,7 +667,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := j - begin
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 18d4f8a..b01ec8b 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2015,8 +2015,8 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From e15037296c9a6c9e05967cdceed696b1186966da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 03/61] fix: shift whole chunks when Python decodes an
 unaligned field

---
 generator/target/python/python.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..f874733 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2408,7 +2408,7 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			parts = append(parts, part)
 			consumed += partSize
 		}
-		exprStr := strings.Join(parts, " | ")
+		exprStr := "(" + strings.Join(parts, " | ") + ")"
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 5f21041b88694f560050fab965319da52ac78768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 04/61] fix: make C++ encode_size callable from other
 translation units

---
 generator/target/cpp/cpp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index f84ac7b..d4251a4 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1489,7 +1489,6 @@ var encoderDeclTemplate = `
 {{- $structName := .StructDef.StructName -}}
         // EncodeSizeDecl: encode_size
         // Returns an estimation of the encoded size in bytes.
-        {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
         uint64_t encode_size() const;
         // EncoderDecl: encode
 {{- if not .GenOptions.CompatibleMode }}
@@ -1602,7 +1601,7 @@ var encoderTemplate = `
 {{- $structName := .StructDef.StructName -}}
     // EncodeSize: {{ $structName }}::encode_size
     // Returns an estimation of the encoded size in bytes.
-    {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
+    {{ if and .GenOptions.SingleFile (not .StructDef.StructDynamic) -}}constexpr {{ end -}}
     uint64_t {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}encode_size() const {
         {{- if .StructDef.StructDynamic }}
         uint64_t size = {{ calc .StructDef.StructBitSize "/" 8 }};
-- 
2.43.0


From 24620fae2e2c51a97887a8e05f7ee1281cf3e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 05/61] fix: place the last bits of looped array elements that
 end inside a byte

---
 generator/target/c/c.go               | 3 +--
 generator/target/commonjs/commonjs.go | 6 ++----
 generator/target/cpp/cpp.go           | 3 +--
 generator/target/csharp/csharp.go     | 3 +--
 generator/target/esm/esm.go           | 6 ++----
 generator/target/java/java.go         | 3 +--
 6 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 5ef8039..c109b41 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 6d345b2..f430fa0 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index d4251a4..21ec6ad 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b2e4baa..a1e0ab8 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(j - begin);
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index c038629..8880d13 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b01ec8b..c2abed7 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(j - begin);
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
-- 
2.43.0


From 9b64eba4fbc0d8677aec83d39cc1a56209023b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 06/61] fix: looped array encoding replaces old bits of shared
 bytes

---
 generator/target/c/c.go               | 2 +-
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/cpp/cpp.go           | 2 +-
 generator/target/csharp/csharp.go     | 2 +-
 generator/target/esm/esm.go           | 4 ++--
 generator/target/java/java.go         | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index c109b41..8bcdf3c 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -256,7 +256,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         if (data_mask == 0xFF) {
             data[i / 8] = (uint8_t)part;
         } else {
-            data[i / 8] |= (uint8_t)part;
+            data[i / 8] = (uint8_t)((data[i / 8] & ~data_mask) | part);
         }
         i = (i + 8) & ~(int64_t)7;
     }
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index f430fa0..1c1ab62 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -560,7 +560,7 @@ var fileTemplate = `
             if (dataMask === 0xFF) {
                 data[(i / 8) | 0] = part;
             } else {
-                data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
+                data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
             }
             i = (i + 8) & ~7;
         }
@@ -916,7 +916,7 @@ var fileTemplate = `
             if (dataMask === 0xFF) {
                 data[(i / 8) | 0] = part;
             } else {
-                data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
+                data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
             }
             i = (i + 8) & ~7;
         }
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 21ec6ad..c249c05 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -257,7 +257,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         if (data_mask == 0xFF) {
             data[i / 8] = (uint8_t)part;
         } else {
-            data[i / 8] |= (uint8_t)part;
+            data[i / 8] = (uint8_t)((data[i / 8] & ~data_mask) | part);
         }
         i = (i + 8) & ~(int64_t)7;
     }
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index a1e0ab8..c83d64b 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -539,7 +539,7 @@ var structTemplate = `
                 if (dataMask == 0xFF) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
-                    data[(int)(i / 8)] |= (byte)part;
+                    data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ~dataMask) | part);
                 }
                 i = (i + 8) & ~(long)7;
             }
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 8880d13..1a85bde 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -519,7 +519,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         if (dataMask === 0xFF) {
             data[(i / 8) | 0] = part;
         } else {
-            data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
+            data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
         }
         i = (i + 8) & ~7;
     }
@@ -841,7 +841,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         if (dataMask === 0xFF) {
             data[(i / 8) | 0] = part;
         } else {
-            data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
+            data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
         }
         i = (i + 8) & ~7;
     }
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c2abed7..ac2ee3f 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -477,7 +477,7 @@ var structTemplate = `
             if (dataMask == 0xFF) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
-                data[(int)(i / 8)] |= (byte)part;
+                data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ~dataMask) | part);
             }
             i = (i + 8) & ~7L;
         }
-- 
2.43.0


From e91533d6d60a99b9bbdd6321ebf2a831f2125446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 07/61] fix: emit the helpers ES module arrays of floats and
 strings need

---
 generator/target/esm/esm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 1a85bde..b768053 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1095,6 +1095,10 @@ func (g ESModuleGenerator) GenerateArrayDefaultValue(array *definition.Array) (s
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
+	// records which runtime helpers the element type needs
+	if _, err := g.GenerateType(array.ElementType); err != nil {
+		return "", err
+	}
 	return "[]", nil
 }
 
-- 
2.43.0


From 7b82f17a3bf852169a282b92710ba1c866ad1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 08/61] fix: Java array loops honour the start offset

---
 generator/target/java/java.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index ac2ee3f..1df8b92 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1684,6 +1684,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -1702,7 +1703,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
@@ -2721,6 +2722,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
+			bitBaseExpr = g.generateCastExpr(&definition.Int64, "start") + " * 8 + (" + bitBaseExpr + ")"
 
 			// Each branch picks one self-contained loop template.
 			common := map[string]any{
@@ -2739,7 +2741,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 					offsetExpr = "offset + " + offsetExpr
 				}
 				_ = elemTyT
-				common["DataExpr"] = "data, " + offsetExpr
+				common["DataExpr"] = "data, start + " + offsetExpr
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
 			case *definition.BasicType:
 				g.GenState.UseBitHelpers = true
-- 
2.43.0


From 69cce621ea262e0117b9c0e8bbed53c54a624895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 09/61] fix: write and check constant fields by their wire bits

---
 generator/gen/gen_util.go             | 79 +++++++++++++++++++++++++++
 generator/target/c/c.go               | 36 +++++++-----
 generator/target/commonjs/commonjs.go | 36 +++++++-----
 generator/target/cpp/cpp.go           | 36 +++++++-----
 generator/target/csharp/csharp.go     | 29 +++++-----
 generator/target/esm/esm_decode.go    | 22 +++++++-
 generator/target/esm/esm_encode.go    | 14 +----
 generator/target/golang/golang.go     | 29 +++++-----
 generator/target/java/java.go         | 29 +++++-----
 generator/target/python/python.go     | 29 +++++-----
 10 files changed, 228 insertions(+), 111 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..f5d2e2c 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,9 @@
 package gen
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +18,79 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantFieldBits returns the bits that a constant field occupies on the
+// wire: the constant converted to the type of the field (the IEEE 754 bits of a
+// floating point constant), cut to the size of the field.
+func ConstantFieldBits(field *definition.ConstantField) (uint64, error) {
+	var bits uint64
+	switch value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID).(type) {
+	case bool:
+		if value {
+			bits = 1
+		}
+	case uint8:
+		bits = uint64(value)
+	case uint16:
+		bits = uint64(value)
+	case uint32:
+		bits = uint64(value)
+	case uint64:
+		bits = value
+	case int8:
+		bits = uint64(value)
+	case int16:
+		bits = uint64(value)
+	case int32:
+		bits = uint64(value)
+	case int64:
+		bits = uint64(value)
+	case float32:
+		bits = uint64(math.Float32bits(value))
+	case float64:
+		bits = math.Float64bits(value)
+	default:
+		return 0, fmt.Errorf("internal error: constant %v has no value of type %s", field.FieldConstant, field.FieldType)
+	}
+	if size := field.GetFieldBitSize(); size < 64 {
+		bits &= uint64(1)<<size - 1
+	}
+	return bits, nil
+}
+
+// ConstantFieldData returns the bytes of a constant field in the order in which
+// they are written. The most significant byte of a big endian field whose size
+// is not a multiple of 8 comes first and the remaining bits come last.
+func ConstantFieldData(field *definition.ConstantField) ([]byte, error) {
+	bits, err := ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	size := field.GetFieldBitSize()
+	data := make([]byte, (size+7)/8)
+	for i := range data {
+		shift := int64(i) * 8
+		if MatchOption(field.FieldOptions, "order", "big") {
+			shift = max(0, size-8*int64(i+1))
+		}
+		data[i] = byte(bits >> shift)
+	}
+	return data, nil
+}
+
+// ConstantFieldLiteral returns the bits of a constant field as an unsigned
+// literal, in the base in which the constant was written.
+func ConstantFieldLiteral(field *definition.ConstantField) (*definition.IntLiteral, error) {
+	bits, err := ConstantFieldBits(field)
+	if err != nil {
+		return nil, err
+	}
+	base := definition.IntBaseDec
+	switch literal := field.FieldConstant.(type) {
+	case *definition.IntLiteral:
+		base = literal.Base
+	case *definition.FloatLiteral:
+		base = definition.IntBaseHex
+	}
+	return MakeIntLit(bits, base), nil
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 8bcdf3c..8e92835 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1745,19 +1743,11 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2668,6 +2658,23 @@ func (g CGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g CGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	literalStr, err := g.literalGen().GenerateLiteral(literal)
+	if err != nil {
+		return "", err
+	}
+	if literal.IntValue < 0 {
+		literalStr += "ULL" // does not fit in a signed integer
+	}
+	return literalStr, nil
+}
+
 func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
@@ -2676,6 +2683,7 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := definition.GetBasicType(typeSizeMapUint[tySize*8])
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2688,14 +2696,14 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 1c1ab62..bc8564a 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -2019,19 +2017,11 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -3041,10 +3031,28 @@ func (g CommonJSGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g CommonJSGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	literalStr := gen.FormatIntLiteral(literal, g.GenCtx.GenOptions)
+	if field.GetFieldBitSize() > 32 {
+		literalStr += "n" // the decoded bits are a BigInt
+	}
+	return literalStr, nil
+}
+
 func (g CommonJSGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
+	tempTy := &definition.Uint32
+	if field.GetFieldBitSize() > 32 {
+		tempTy = &definition.Uint64
+	}
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeNormalFieldTempVarDeclData := map[string]any{
 		"TempName": tempName,
@@ -3055,14 +3063,14 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index c249c05..42fd134 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1884,19 +1882,11 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2918,6 +2908,23 @@ func (g CppGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g CppGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	literalStr, err := g.literalGen().GenerateLiteral(literal)
+	if err != nil {
+		return "", err
+	}
+	if literal.IntValue < 0 {
+		literalStr += "ULL" // does not fit in a signed integer
+	}
+	return literalStr, nil
+}
+
 func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
@@ -2926,6 +2933,7 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := definition.GetBasicType(typeSizeMapUint[tySize*8])
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2938,14 +2946,14 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index c83d64b..2aa5056 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1507,19 +1505,11 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2725,6 +2715,16 @@ func (g CSharpGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g CSharpGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	return g.literalGen().GenerateLiteral(literal)
+}
+
 func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
@@ -2733,6 +2733,7 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := definition.GetBasicType(typeSizeMapUint[tySize*8])
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2745,14 +2746,14 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..c300f49 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -435,17 +435,35 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, map[string]any{"FieldName": name})
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g ESModuleGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	literalStr := gen.FormatIntLiteral(literal, g.GenCtx.GenOptions)
+	if field.GetFieldBitSize() > 32 {
+		literalStr += "n" // the decoded bits are a BigInt
+	}
+	return literalStr, nil
+}
+
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+	tempTy := &definition.Uint32
+	if field.GetFieldBitSize() > 32 {
+		tempTy = &definition.Uint64
+	}
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
 	if err != nil {
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index dd1aec9..053a3fa 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,16 +318,10 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
+	data, err := gen.ConstantFieldData(field)
+	if err != nil {
+		return nil, err
 	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-	data := buffer.Bytes()
 	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..f5de798 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,19 +1465,11 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2337,6 +2327,16 @@ func (g GoGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g GoGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	return g.literalGen().GenerateLiteral(literal)
+}
+
 func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
@@ -2345,6 +2345,7 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := definition.GetBasicType(typeSizeMapUint[tySize*8])
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2357,14 +2358,14 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	from := startBits
 	to := startBits + fieldBitSize
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 1df8b92..60269c6 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1490,19 +1488,11 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2473,6 +2463,16 @@ func (g JavaGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g JavaGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	return g.literalGen().GenerateLiteral(literal)
+}
+
 func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
@@ -2481,6 +2481,7 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	fieldSize := (fieldBitSize + 7) / 8
 	tySize := util.HighBit(fieldSize)
 	tyUint := typeSizeToUintStr(tySize * 8)
+	tempTy := definition.GetBasicType(typeSizeMapUint[tySize*8])
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	decodeNormalFieldTempVarDeclData := map[string]any{
@@ -2493,14 +2494,14 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index f874733..b5ba3a6 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,19 +1155,11 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldData(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -1954,23 +1944,34 @@ func (g PythonGenerator) generateDecodeStructFieldName(name string) string {
 	return util.ExecuteTemplate(fieldDecoderTemplate, "decodeStructFieldName", nil, decodeStructFieldNameData)
 }
 
+// generateConstantFieldBits renders the bits a constant field must have on the
+// wire as an unsigned literal.
+func (g PythonGenerator) generateConstantFieldBits(field *definition.ConstantField) (string, error) {
+	literal, err := gen.ConstantFieldLiteral(field)
+	if err != nil {
+		return "", err
+	}
+	return g.literalGen().GenerateLiteral(literal)
+}
+
 func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
+	tempTy := &definition.Uint64
 	tempName := g.generateDecodeTempVarName(startBits)
 
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	literalValue, err := g.generateConstantFieldBits(field)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8f68781918094d0c4ccdf098a6d619590d598d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 10/61] fix: lay out the fixed part of a nested dynamic struct
 once

---
 definition/struct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..efa125a 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,11 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	// like strings, bytes and arrays of dynamic elements, the whole struct is
+	// located by its actual length, not by the size of its fixed part
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
-- 
2.43.0


From f2351c28cdff115aa7fbe0a85ec42fedda478b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 11/61] fix: generate C++ decode_size for structs with a
 dynamic struct field

---
 generator/target/cpp/cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 42fd134..04856b1 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2572,7 +2572,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
-- 
2.43.0


From 9ee39d62807654f624468e099828b671ecc308e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 12/61] fix: JavaScript decodes 32-bit unsigned values as
 unsigned numbers

---
 generator/target/commonjs/commonjs.go | 13 ++++++++++++-
 generator/target/esm/esm_decode.go    | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index bc8564a..8b4fbaa 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3529,6 +3529,17 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators give signed 32-bit integers
+		if ty.GetTypeID().IsUint() && ty.GetTypeBitSize() <= 32 && fieldBitSize == 32 {
+			uintConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fieldNameStr + " >>> 0",
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, uintConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
@@ -3536,7 +3547,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() <= 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index c300f49..f791d3d 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -787,11 +787,22 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators give signed 32-bit integers
+		if ty.GetTypeID().IsUint() && ty.GetTypeBitSize() <= 32 && fieldBitSize == 32 {
+			uintConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fieldNameStr + " >>> 0",
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, uintConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() <= 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From c86369fae6dac4c78e025ed8960e6655efd0ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 13/61] fix: Python decodes bool fields as bool

---
 generator/target/python/python.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index b5ba3a6..e4ada9e 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2160,6 +2160,10 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = struct.unpack('<%s', struct.pack('<%s', %s))[0]", tempName, tyID, tyUintID, tempName))
 				}
 
+				if elemTyType.GetTypeID().IsBool() {
+					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = bool(%s)", tempName, tempName))
+				}
+
 				bodyStmts = append(bodyStmts, fmt.Sprintf("    %s[_i] = %s", name, tempName))
 
 			default:
@@ -2348,6 +2352,17 @@ func (g PythonGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			}
 		}
 
+		// convert integer to bool
+		if ty.GetTypeID().IsBool() {
+			boolConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      "bool(" + fieldNameStr + ")",
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, boolConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// cast to float
 		if ty.GetTypeID().IsFloat() {
 			tyUintID := typeSizeMapUint[ty.TypeBitSize]
-- 
2.43.0


From 09771daa9a88ba0cafad3009784dad86c3055306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 14/61] fix: generate ES module classes of structs defined
 inside structs

---
 generator/target/esm/esm.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index b768053..0dc788e 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1095,10 +1095,6 @@ func (g ESModuleGenerator) GenerateArrayDefaultValue(array *definition.Array) (s
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
-	// records which runtime helpers the element type needs
-	if _, err := g.GenerateType(array.ElementType); err != nil {
-		return "", err
-	}
 	return "[]", nil
 }
 
@@ -1282,6 +1278,7 @@ var normalFieldTemplate = `
 {{- define "normalField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $tyDefValue := GenerateTypeDefaultValue $field.FieldType -}}
     this.{{ $fieldName }} = {{ $tyDefValue }};
 {{- end -}}
-- 
2.43.0


From e091f0267e2158c2ffebeffb67473d1e05651416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 15/61] fix: keep C# temporaries of dynamic fields apart from
 later fields'

---
 generator/target/csharp/csharp.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 2aa5056..e2e13f2 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1374,6 +1374,11 @@ func (g CSharpGenerator) generateEncodeField(field definition.Field, startBits i
 	}
 }
 
+// dynamicTempVarSuffix sets the temp variables of dynamic fields apart, which
+// live in a block of their own: a later field may have the same fixed position,
+// and C# (CS0136) rejects a block that reuses a name of the enclosing method.
+const dynamicTempVarSuffix = "Dyn"
+
 var fieldEncoderTemplate = `
 {{- define "encodeTempVarName" -}}
     tempFieldAtPos{{ .StartBits }}
@@ -1881,7 +1886,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyBytes":    "byte[]",
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + dynamicTempVarSuffix,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -1896,7 +1901,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      7,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + dynamicTempVarSuffix,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3167,7 +3172,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"FieldName":   fieldNameStr,
 			"FromByte":    from / 8,
 			"Dynamic":     structDynamic,
-			"TempName":    g.generateDecodeTempVarName(from),
+			"TempName":    g.generateDecodeTempVarName(from) + dynamicTempVarSuffix,
 			"GenOptions":  g.GenCtx.GenOptions,
 		}
 
@@ -3182,7 +3187,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyInt":      typeMap[definition.TypeID_Int32],
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + dynamicTempVarSuffix,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3198,7 +3203,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      g.generateDec(7),
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + dynamicTempVarSuffix,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
-- 
2.43.0


From b932ee49dfa389f137db4f482e69f9aa1eb1891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 16/61] fix: C# and Java read narrow floats through a word of
 the float's width

---
 generator/target/csharp/csharp.go | 9 +++------
 generator/target/java/java.go     | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index e2e13f2..469f4eb 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2826,12 +2826,9 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// the temp variable has the width of the float, whatever the width of the field
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 60269c6..5068c1c 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2569,12 +2569,9 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// the temp variable has the width of the float, whatever the width of the field
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
-- 
2.43.0


From b8ec44b06b296adb54231e579f7ad3dbb6610040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 17/61] fix: Go loops over struct arrays of dynamic structs
 compile

---
 generator/target/golang/golang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index f5de798..e209814 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1637,7 +1637,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2536,7 +2536,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From a25f9e681b44b7d60e263a9ba940661cbf0e3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 18/61] fix: decode_size rejects bytes lengths that do not fit

---
 generator/target/c/c.go           | 10 ++++++++--
 generator/target/cpp/cpp.go       | 14 ++++++++++----
 generator/target/csharp/csharp.go | 18 ++++++++++++++++++
 generator/target/java/java.go     |  9 +++++++++
 4 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 8e92835..bfaed5c 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2325,11 +2325,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 56) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 56) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2342,11 +2344,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 56) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 56) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2391,11 +2395,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 56) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 56) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2569,8 +2575,8 @@ var fieldDecoderTemplate = `
     {
         uint64_t {{ .TempName }} = 0;
         {{ .TyUint8 }} shift = 0;
-        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-        {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+        {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 04856b1..1130abb 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2486,11 +2486,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 56) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 56) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2503,11 +2505,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 56) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 56) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2561,11 +2565,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 56) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 56) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2783,11 +2789,11 @@ var fieldDecoderTemplate = `
             uint64_t {{ .TempName }} = 0;
             {{ .TyUint8 }} shift = 0;
         {{- if .CompatibleMode }}
-            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- else }}
-            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- end }}
             {{ .FieldName }}.length = {{ .TempName }};
     {{- if .MemoryCopy }}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 469f4eb..3b0d8d8 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2254,26 +2254,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2286,26 +2292,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
@@ -2366,26 +2378,32 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift == 28 && (data[offset + {{ $fromByte }}] & 0x78) != 0) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
+                if (_length > int.MaxValue - (offset + {{ $fromByte }})) return -1;
                 if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
                 {{- end }}
                 offset += _length;
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5068c1c..550d9a4 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2151,13 +2151,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - (offset + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2168,13 +2171,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - (offset + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
@@ -2215,13 +2221,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift == 28 && (data[offset + start + {{ $fromByte }}] & 0x78) != 0) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
+            if (_length > Integer.MAX_VALUE - (offset + {{ $fromByte }})) return -1;
             if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
             offset += _length;
         }
-- 
2.43.0


From 4bc5989d7340a7e7415fa62e80b7dd9f23b1434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 19/61] fix: C# DecodeSize of a nested struct beyond the end of
 the data

---
 generator/target/csharp/csharp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 3b0d8d8..86fc60e 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2332,7 +2332,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, data.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
@@ -2343,7 +2343,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, data.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
@@ -2414,7 +2414,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, data.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
-- 
2.43.0


From 7218b72b04f98036bd3585a7b7b318faafd814ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 20/61] fix: JavaScript string decoding stops at the terminator

---
 generator/target/commonjs/commonjs.go | 12 ++++++++----
 generator/target/esm/esm.go           | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 8b4fbaa..bb00896 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -476,7 +476,9 @@ var fileTemplate = `
     function stringFromUTF8Bytes(data, start) {
         var str = "";
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        var end = start;
+        while (end < data.length && data[end] !== 0) end++;
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
             else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
@@ -490,7 +492,7 @@ var fileTemplate = `
                 }
             }
         }
-        return [str, offset - start];
+        return [str, end - start];
     }
     {{- end }}
 
@@ -832,7 +834,9 @@ var fileTemplate = `
     function stringFromUTF8Bytes(data, start) {
         var str = "";
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        var end = start;
+        while (end < data.length && data[end] !== 0) end++;
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
             else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
@@ -846,7 +850,7 @@ var fileTemplate = `
                 }
             }
         }
-        return [str, offset - start];
+        return [str, end - start];
     }
     {{- end }}
 
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 0dc788e..36e7f15 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -438,7 +438,9 @@ function stringToUTF8Bytes(str, data, start) {
 function stringFromUTF8Bytes(data, start) {
     let str = "";
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    let end = start;
+    while (end < data.length && data[end] !== 0) end++;
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
         else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
@@ -452,7 +454,7 @@ function stringFromUTF8Bytes(data, start) {
             }
         }
     }
-    return [str, offset - start];
+    return [str, end - start];
 }
 {{- end }}
 
@@ -760,7 +762,9 @@ function stringToUTF8Bytes(str, data, start) {
 function stringFromUTF8Bytes(data, start) {
     let str = "";
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    let end = start;
+    while (end < data.length && data[end] !== 0) end++;
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
         else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
@@ -774,7 +778,7 @@ function stringFromUTF8Bytes(data, start) {
             }
         }
     }
-    return [str, offset - start];
+    return [str, end - start];
 }
 {{- end }}
 
-- 
2.43.0


From fd3cc60560a1d16ba31b6580c95abe091229c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 21/61] fix: encoding clears the old bits of bytes that voids
 and looped arrays begin

---
 generator/target/c/c.go               | 16 ++++++++++++++--
 generator/target/commonjs/commonjs.go | 17 ++++++++++++++---
 generator/target/cpp/cpp.go           | 16 ++++++++++++++--
 generator/target/csharp/csharp.go     | 16 ++++++++++++++--
 generator/target/esm/esm.go           |  4 ++--
 generator/target/esm/esm_encode.go    | 13 ++++++++++++-
 generator/target/java/java.go         | 15 +++++++++++++--
 7 files changed, 83 insertions(+), 14 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index bfaed5c..9db5f57 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -254,7 +254,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         if (data_mask == 0xFF) {
             data[i / 8] = (uint8_t)part;
         } else {
-            data[i / 8] = (uint8_t)((data[i / 8] & ~data_mask) | part);
+            data[i / 8] = (uint8_t)((data[i / 8] & ((1 << (i % 8)) - 1)) | part);
         }
         i = (i + 8) & ~(int64_t)7;
     }
@@ -1760,7 +1760,19 @@ func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField,
 }
 
 func (g CGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// The other fields of a byte are or-ed into it, so a byte that begins with
+	// void bits is cleared here.
+	encodeStmts := []string{""}
+	for i := (startBits + 7) / 8 * 8; i < startBits+field.GetFieldBitSize(); i += 8 {
+		encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+			"TyUint8":   typeMap[definition.TypeID_Uint8],
+			"BytePos":   i / 8,
+			"Operator":  "=",
+			"FieldData": "0",
+			"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+		}))
+	}
+	return encodeStmts, nil
 }
 
 func (g CGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index bb00896..7c05836 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -560,7 +560,7 @@ var fileTemplate = `
             if (dataMask === 0xFF) {
                 data[(i / 8) | 0] = part;
             } else {
-                data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
+                data[(i / 8) | 0] = ((data[(i / 8) | 0] & ((1 << (i & 7)) - 1)) | part) & 0xFF;
             }
             i = (i + 8) & ~7;
         }
@@ -918,7 +918,7 @@ var fileTemplate = `
             if (dataMask === 0xFF) {
                 data[(i / 8) | 0] = part;
             } else {
-                data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
+                data[(i / 8) | 0] = ((data[(i / 8) | 0] & ((1 << (i & 7)) - 1)) | part) & 0xFF;
             }
             i = (i + 8) & ~7;
         }
@@ -2038,7 +2038,18 @@ func (g CommonJSGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g CommonJSGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// The other fields of a byte are or-ed into it, so a byte that begins with
+	// void bits is cleared here.
+	encodeStmts := []string{""}
+	for i := (startBits + 7) / 8 * 8; i < startBits+field.GetFieldBitSize(); i += 8 {
+		encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+			"BytePos":   i / 8,
+			"Operator":  "=",
+			"FieldData": "0",
+			"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+		}))
+	}
+	return encodeStmts, nil
 }
 
 func (g CommonJSGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 1130abb..d5ae674 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -255,7 +255,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         if (data_mask == 0xFF) {
             data[i / 8] = (uint8_t)part;
         } else {
-            data[i / 8] = (uint8_t)((data[i / 8] & ~data_mask) | part);
+            data[i / 8] = (uint8_t)((data[i / 8] & ((1 << (i % 8)) - 1)) | part);
         }
         i = (i + 8) & ~(int64_t)7;
     }
@@ -1899,7 +1899,19 @@ func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantFiel
 }
 
 func (g CppGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// The other fields of a byte are or-ed into it, so a byte that begins with
+	// void bits is cleared here.
+	encodeStmts := []string{""}
+	for i := (startBits + 7) / 8 * 8; i < startBits+field.GetFieldBitSize(); i += 8 {
+		encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+			"TyUint8":   typeMap[definition.TypeID_Uint8],
+			"BytePos":   i / 8,
+			"Operator":  "=",
+			"FieldData": "0",
+			"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+		}))
+	}
+	return encodeStmts, nil
 }
 
 func (g CppGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 86fc60e..07b018d 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -537,7 +537,7 @@ var structTemplate = `
                 if (dataMask == 0xFF) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
-                    data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ~dataMask) | part);
+                    data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ((1UL << (int)(i % 8)) - 1)) | part);
                 }
                 i = (i + 8) & ~(long)7;
             }
@@ -1527,7 +1527,19 @@ func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g CSharpGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// The other fields of a byte are or-ed into it, so a byte that begins with
+	// void bits is cleared here.
+	encodeStmts := []string{""}
+	for i := (startBits + 7) / 8 * 8; i < startBits+field.GetFieldBitSize(); i += 8 {
+		encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+			"BytePos":    i / 8,
+			"Operator":   "=",
+			"FieldData":  "0",
+			"Dynamic":    field.FieldBelongs.GetTypeDynamic(),
+			"GenOptions": g.GenCtx.GenOptions,
+		}))
+	}
+	return encodeStmts, nil
 }
 
 func (g CSharpGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 36e7f15..6fcb12f 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -521,7 +521,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         if (dataMask === 0xFF) {
             data[(i / 8) | 0] = part;
         } else {
-            data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
+            data[(i / 8) | 0] = ((data[(i / 8) | 0] & ((1 << (i & 7)) - 1)) | part) & 0xFF;
         }
         i = (i + 8) & ~7;
     }
@@ -845,7 +845,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         if (dataMask === 0xFF) {
             data[(i / 8) | 0] = part;
         } else {
-            data[(i / 8) | 0] = ((data[(i / 8) | 0] & ~dataMask) | part) & 0xFF;
+            data[(i / 8) | 0] = ((data[(i / 8) | 0] & ((1 << (i & 7)) - 1)) | part) & 0xFF;
         }
         i = (i + 8) & ~7;
     }
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 053a3fa..2af4c0b 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -327,7 +327,18 @@ func (g ESModuleGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g ESModuleGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// The other fields of a byte are or-ed into it, so a byte that begins with
+	// void bits is cleared here.
+	encodeStmts := []string{""}
+	for i := (startBits + 7) / 8 * 8; i < startBits+field.GetFieldBitSize(); i += 8 {
+		encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+			"BytePos":   i / 8,
+			"Operator":  "=",
+			"FieldData": "0",
+			"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+		}))
+	}
+	return encodeStmts, nil
 }
 
 func (g ESModuleGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 550d9a4..4bbd261 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -475,7 +475,7 @@ var structTemplate = `
             if (dataMask == 0xFF) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
-                data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ~dataMask) | part);
+                data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ((1 << (int)(i % 8)) - 1)) | part);
             }
             i = (i + 8) & ~7L;
         }
@@ -1505,7 +1505,18 @@ func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantFie
 }
 
 func (g JavaGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// The other fields of a byte are or-ed into it, so a byte that begins with
+	// void bits is cleared here.
+	encodeStmts := []string{""}
+	for i := (startBits + 7) / 8 * 8; i < startBits+field.GetFieldBitSize(); i += 8 {
+		encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
+			"BytePos":   i / 8,
+			"Operator":  "=",
+			"FieldData": "0",
+			"Dynamic":   field.FieldBelongs.GetTypeDynamic(),
+		}))
+	}
+	return encodeStmts, nil
 }
 
 func (g JavaGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
-- 
2.43.0


From 47adb4bde48ad42002a8cc5280891e64fe6e8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 22/61] fix: C# -signext arith compiles for full-width 64-bit
 fields

---
 generator/target/csharp/csharp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 07b018d..0e8e5fb 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3323,6 +3323,10 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 				decodeStmts = append(decodeStmts, stmt)
 
 			case gen.SignExtMethodArith:
+				if originFromBitSize == ty.GetTypeBitSize() {
+					// nothing to extend, and C# has no long ^ ulong
+					break
+				}
 				signMask := uint64(1) << (originFromBitSize - 1)
 				signMaskStr := g.generateHex(signMask)
 				signExtendData := map[string]any{
-- 
2.43.0


From 34dba02306ca16c4cd6586281179b991870e57fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 23/61] fix: Java -signext arith loops over arrays of elements
 wider than 32 bits compile

---
 generator/target/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 4bbd261..b7425c2 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2463,7 +2463,7 @@ for (int _i = 0; _i < {{ .Length }}; _i++) {
 {{- end -}}
 
 {{- define "intSignExtArith" -}}
-({{ .IntType }})((_v ^ {{ .SignMask }}L) - {{ .SignMask }}L)
+({{ .IntType }})((_v ^ {{ .SignMask }}) - {{ .SignMask }})
 {{- end -}}
 `
 
-- 
2.43.0


From 894b3e99e7155633b6b3b332b4ee62ed4055238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 24/61] fix: the Python target copies bytes fields as
 documented

---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index e4ada9e..6eae271 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -90,6 +90,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target does not support zero-copy, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From 1024035a0e06bc5ff67fa6ab6072c5cb9449a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 25/61] fix: ordered map keeps the position of a live entry
 under the default key

---
 util/ordered_map.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/util/ordered_map.go b/util/ordered_map.go
index 41e2465..1868ecf 100644
--- a/util/ordered_map.go
+++ b/util/ordered_map.go
@@ -30,8 +30,8 @@ func (m *OrderedMap[K, V]) Sub(start, end int) *OrderedMap[K, V] {
 		return nil
 	}
 	copy := NewOrderedMap[K, V]()
-	for _, entry := range m.entries[start:end] {
-		if entry.Key != m.defaultK {
+	for i, entry := range m.entries[start:end] {
+		if m.isIndexed(entry.Key, start+i) {
 			copy.Put(entry.Key, entry.Value)
 		} else {
 			copy.PutAnonymous(entry.Value)
@@ -106,13 +106,20 @@ func (m *OrderedMap[K, V]) Remove(key K) {
 		delete(m.index, key)
 		m.entries = append(m.entries[:index], m.entries[index+1:]...)
 		for i := index; i < len(m.entries); i++ {
-			if m.entries[i].Key != m.defaultK {
+			if m.isIndexed(m.entries[i].Key, i+1) {
 				m.index[m.entries[i].Key] = i
 			}
 		}
 	}
 }
 
+// isIndexed tells whether the entry at position i is the one that key looks up;
+// anonymous entries share the default key and are never indexed.
+func (m *OrderedMap[K, V]) isIndexed(key K, i int) bool {
+	index, ok := m.index[key]
+	return ok && index == i
+}
+
 func (m *OrderedMap[K, V]) Len() int {
 	return len(m.entries)
 }
-- 
2.43.0


From 767bbb9f7cd9ea9a820c24a6e8478628f28e97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 26/61] fix: clean absolute import paths, so two spellings name
 one file

---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From 7accd0c008ef286aa5e2f56332dcd0450ffb2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 27/61] fix: reject a narrowed size on an array of structs

---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..9684adf 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -530,7 +530,11 @@ func (v *ProtoVisitor) VisitFieldNormal(ctx *parser.FieldNormalContext) any {
 				}
 			}
 		}
-		if _, ok := type_.(*definition.Struct); ok && size != type_Size {
+		elemType := type_
+		if arrTy, ok := type_.(*definition.Array); ok {
+			elemType = arrTy.ElementType
+		}
+		if _, ok := elemType.(*definition.Struct); ok && size != type_Size {
 			return &definition.CompileError{
 				Position: pos,
 				Err: &definition.InvalidSizeError{
-- 
2.43.0


From d28f7554e0ad80873af90611f296c9af6df391e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 28/61] fix: report a misaligned embedded field where it is
 embedded

---
 compiler/proto_visitor.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 9684adf..92057b7 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -153,7 +153,18 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 	}
 
 	// check field alignment
+	var embedded *definition.EmbeddedField // the embedded field whose promoted fields are being walked
+	promoted := 0                          // how many of them are left
 	err := structDef.ForEachField(func(field definition.Field, index int, fixedStart int64, isDynamicStart bool) error {
+		if promoted > 0 {
+			promoted--
+		} else {
+			embedded = nil
+			if val, ok := field.(*definition.EmbeddedField); ok {
+				embedded = val
+				promoted = len(val.FieldType.StructFields.Values())
+			}
+		}
 
 		var isMustAlignedType func(normalField *definition.NormalField, ty definition.Type) bool
 		isMustAlignedType = func(normalField *definition.NormalField, ty definition.Type) bool {
@@ -175,7 +186,7 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 		switch val := field.(type) {
 		case *definition.NormalField:
 			if isMustAlignedType(val, val.FieldType) {
-				return &definition.CompileError{
+				err := &definition.CompileError{
 					Position: val,
 					Err: &definition.FieldNotAlignedError{
 						FieldName: val.FieldName,
@@ -184,6 +195,17 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 						Msg:       fmt.Sprintf("%s type field must be byte-aligned (bit size must be multiple of 8)", val.FieldType.GetTypeName()),
 					},
 				}
+				if embedded != nil {
+					// the field itself is fine where it is defined, it is embedded at a wrong place
+					return &definition.CompileError{
+						Position: embedded,
+						Err: &definition.EmbeddedFieldError{
+							DefName: embedded.FieldType.StructName,
+							Err:     err,
+						},
+					}
+				}
+				return err
 			}
 		default:
 		}
-- 
2.43.0


From 1ccd63d7293e3293ce30c7bb177cd38c4b9c3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 29/61] fix: reject sizes whose number of bits overflows

---
 compiler/proto_visitor.go | 47 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 92057b7..7191f83 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -152,6 +153,25 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 		field.SetFieldBelongs(structDef)
 	}
 
+	// check that the sum of the sizes does not overflow
+	total := int64(0)
+	for _, field := range fields.Values() {
+		fieldSize := field.GetFieldBitSize()
+		if fieldSize <= 0 {
+			continue
+		}
+		if fieldSize > math.MaxInt64-total {
+			return &definition.CompileError{
+				Position: namePos,
+				Err: &definition.InvalidSizeError{
+					Size: fieldSize,
+					Msg:  "struct size is too large",
+				},
+			}
+		}
+		total += fieldSize
+	}
+
 	// check field alignment
 	var embedded *definition.EmbeddedField // the embedded field whose promoted fields are being walked
 	promoted := 0                          // how many of them are left
@@ -915,6 +935,19 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: bytes,
+				Msg:  "size in bytes is too large",
+			},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2085,6 +2118,20 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if elemSize := base.GetTypeBitSize(); elemSize > 0 && length > math.MaxInt64/elemSize {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: length,
+				Msg:  "array size is too large",
+			},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
-- 
2.43.0


From 71ea1493b5400c18fd0de572a5164406e650d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 30/61] fix: reject enum values that are negative or do not fit
 the enum's size

---
 compiler/proto_visitor.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 7191f83..178e9a0 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2295,6 +2295,20 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 		panic("unreachable")
 	}
 
+	if size > 64 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.Size_().GetStart().GetLine(),
+				Column: ctx.Size_().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: size,
+				Msg:  "enum size cannot be greater than 64 bits",
+			},
+		}
+	}
+
 	body := ctx.EnumBody().Accept(v)
 	var values *util.OrderedMap[string, *definition.EnumValue]
 	switch val := body.(type) {
@@ -2321,6 +2335,16 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 
 	var errs definition.TopLevelError
 	for _, val := range values.Values() {
+		if val.EnumValue < 0 || size < 63 && val.EnumValue>>size != 0 {
+			ex := &definition.CompileError{
+				Position: val,
+				Err: &definition.InvalidEnumDefError{
+					DefName: name,
+					Err:     fmt.Errorf("value of '%s' does not fit in the enum's %d bits", val.EnumValueName, size),
+				},
+			}
+			errs = definition.TopLevelErrorsJoin(errs, ex)
+		}
 		dupErr := v.Unit.AddLocalName(val.EnumValueName, val)
 		if dupErr != nil {
 			ex := &definition.CompileError{
@@ -2444,6 +2468,19 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 		case definition.Literal:
 			switch val := val.(type) {
 			case *definition.IntLiteral:
+				if val.IntValue < 0 {
+					return &definition.CompileError{
+						Position: definition.BasePosition{
+							File:   v.Unit.UnitName.Path,
+							Line:   ctx.Constant().GetStart().GetLine(),
+							Column: ctx.Constant().GetStart().GetColumn(),
+						},
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative"),
+						},
+					}
+				}
 				value = val.IntValue
 			default:
 				return &definition.CompileError{
-- 
2.43.0


From a1e08f847869fb784cc984e598c9070fa9183f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 31/61] fix: Python classes of structs without stored fields
 are valid

---
 generator/target/python/python.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 6eae271..a3058aa 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -402,6 +402,9 @@ class {{ $structDef.StructName }}:
     {{- range $fieldStr := $fieldStrs }}
         {{ $fieldStr }}
     {{- end }}
+    {{- if not .HasInit }}
+        pass
+    {{- end }}
 
     {{ .StructConstStr }}
     {{- range $methodStr := .MethodStrs }}
@@ -440,11 +443,15 @@ func (g PythonGenerator) GenerateStruct(structDef *definition.Struct) (string, e
 
 func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*GeneratedType, error) {
 	fieldInitStrs := make([]string, structDef.StructFields.Len())
+	hasInit := false
 	if err := structDef.ForEachFieldWithPos(func(field definition.Field, index int, start int64, dynamic bool, pos string) error {
 		fieldStr, err := g.GenerateField(field)
 		if err != nil {
 			return err
 		}
+		if fieldStr != "" {
+			hasInit = true
+		}
 
 		fieldData := map[string]any{
 			"Pos":      pos,
@@ -511,6 +518,7 @@ func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*Generate
 	defData := map[string]any{
 		"StructDef":      structDef,
 		"FieldStrs":      fieldInitStrs,
+		"HasInit":        hasInit,
 		"StructConstStr": constStr,
 		"MethodStrs":     methodStrs,
 		"EncoderStr":     encoderStr,
-- 
2.43.0


From d43d0a2f242526269f07ec426ac5cacf2c7bb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 32/61] fix: write negative hexadecimal constants with the sign
 before the prefix

---
 generator/gen/gen_dispatcher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..6ce70fe 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -58,6 +58,13 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	if base == definition.IntBaseAuto || (opts != nil && opts.DecimalNumber) {
 		base = definition.IntBaseDec
 	}
+	if !literal.Unsigned && literal.IntValue < 0 && base != definition.IntBaseDec {
+		// the sign goes before the base prefix
+		magnitude := *literal
+		magnitude.Unsigned = true
+		magnitude.IntValue = -literal.IntValue
+		return "-" + FormatIntLiteral(&magnitude, opts)
+	}
 	if literal.Unsigned {
 		u := uint64(literal.IntValue)
 		switch base {
-- 
2.43.0


From 822ab8aed8607887e856d62138670cea187d5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 33/61] fix: accept single-quoted import paths

---
 compiler/import_visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/import_visitor.go b/compiler/import_visitor.go
index b79e9ff..ebd1c16 100644
--- a/compiler/import_visitor.go
+++ b/compiler/import_visitor.go
@@ -48,6 +48,10 @@ func (v *ImportVisitor) VisitImportStatement(ctx *parser.ImportStatementContext)
 	}
 
 	fileLit := ctx.StrLit().STR_LIT().GetText()
+	// 'abc' -> "abc"
+	if fileLit[0] == '\'' && fileLit[len(fileLit)-1] == '\'' {
+		fileLit = `"` + fileLit[1:len(fileLit)-1] + `"`
+	}
 	file, err := strconv.Unquote(fileLit)
 	if err != nil {
 		return topLevelErrorWrapper(
-- 
2.43.0


From f8fbee716f6a065919ea8b2e4eb91d79d7560f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 34/61] fix: -rmpath removes whole path elements only

---
 generator/gen/gen_ctx.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..3cc82a2 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -54,11 +54,9 @@ func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string
 func (ctx *GenCtx) WriteFile(file string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	for _, rmpath := range ctx.GenOptions.RemovePath {
-		if strings.HasPrefix(file, rmpath) {
-			file = file[len(rmpath):]
-			for strings.HasPrefix(file, "/") {
-				file = file[1:]
-			}
+		// only whole path elements are removed: "a/b" is no prefix of "a/bc"
+		if rest, ok := strings.CutPrefix(file, rmpath); ok && (rmpath == "" || rest == "" || strings.HasPrefix(rest, "/")) {
+			file = strings.TrimLeft(rest, "/")
 			break
 		}
 	}
-- 
2.43.0


From ffd6615a4ed30de53672206c4d20eab422c20401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 35/61] fix: write no file when generation fails, none outside
 of the output path and none twice

---
 generator/gen/gen_ctx.go | 66 ++++++++++++++++++++++++----------------
 generator/generator.go   |  3 ++
 main.go                  |  3 ++
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index 3cc82a2..518c628 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -13,6 +13,13 @@ type GenCtx struct {
 	Units      []*definition.CompilationUnit
 	GenOptions *GenOptions
 	OutputPath string
+
+	outputs []output // written by Commit
+}
+
+type output struct {
+	path string // empty for standard output
+	text string
 }
 
 func normalizeGeneratedIndent(text string) string {
@@ -40,19 +47,17 @@ func normalizeGeneratedIndent(text string) string {
 	return strings.TrimRight(strings.Join(normalized, "\n"), "\n") + "\n"
 }
 
-func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string) error {
-	text = normalizeGeneratedIndent(text)
-	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
-	}
+// WritePackage, WriteFile and WriteFileAbs only record the file. Nothing is
+// written before Commit, so that a failed generation leaves nothing behind.
 
-	file := pkg.ToFilePath(ext)
-	return ctx.WriteFile(file, text)
+func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string) error {
+	return ctx.WriteFile(pkg.ToFilePath(ext), text)
 }
 
 func (ctx *GenCtx) WriteFile(file string, text string) error {
-	text = normalizeGeneratedIndent(text)
+	if ctx.OutputPath == "" {
+		return ctx.WriteFileAbs("", text)
+	}
 	for _, rmpath := range ctx.GenOptions.RemovePath {
 		// only whole path elements are removed: "a/b" is no prefix of "a/bc"
 		if rest, ok := strings.CutPrefix(file, rmpath); ok && (rmpath == "" || rest == "" || strings.HasPrefix(rest, "/")) {
@@ -60,30 +65,37 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 			break
 		}
 	}
-	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+	if name := strings.TrimLeft(file, "/"); name != "" && !filepath.IsLocal(name) {
+		return fmt.Errorf("output file '%s' is outside of the output path", file)
 	}
-	path := filepath.Join(ctx.OutputPath, file)
-	return ctx.WriteFileAbs(path, text)
+	return ctx.WriteFileAbs(filepath.Join(ctx.OutputPath, file), text)
 }
 
 func (ctx *GenCtx) WriteFileAbs(path string, text string) error {
-	text = normalizeGeneratedIndent(text)
-	if path == "" {
-		fmt.Print(text)
-		return nil
-	}
-
-	id, err := fileio.GetFileIdentifer(path)
-	if err != nil {
-		return err
+	for _, prev := range ctx.outputs {
+		if path != "" && prev.path == path {
+			return fmt.Errorf("output file '%s' would be written twice", path)
+		}
 	}
+	ctx.outputs = append(ctx.outputs, output{path: path, text: normalizeGeneratedIndent(text)})
+	return nil
+}
 
-	err = fileio.WriteFileContent(id, text)
-	if err != nil {
-		return err
+// Commit writes the recorded files.
+func (ctx *GenCtx) Commit() error {
+	for _, out := range ctx.outputs {
+		if out.path == "" {
+			fmt.Print(out.text)
+			continue
+		}
+		id, err := fileio.GetFileIdentifer(out.path)
+		if err != nil {
+			return &definition.GenerateError{Err: err}
+		}
+		err = fileio.WriteFileContent(id, out.text)
+		if err != nil {
+			return &definition.GenerateError{Err: err}
+		}
 	}
-
 	return nil
 }
diff --git a/generator/generator.go b/generator/generator.go
index 277b57a..2c1073d 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -112,6 +112,9 @@ func Generate(target string, output string, options *gen.GenOptions, units ...*d
 	}
 
 	err, warning := generator.Generate(ctx)
+	if err == nil {
+		err = ctx.Commit()
+	}
 
 	return err, warning
 }
diff --git a/main.go b/main.go
index 22d4ecd..f3cdd94 100644
--- a/main.go
+++ b/main.go
@@ -208,6 +208,9 @@ func main() {
 	if warning != nil {
 		fmt.Fprintln(os.Stderr, warning)
 	}
+	if err == nil {
+		err = ctx.Commit()
+	}
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
-- 
2.43.0


From 6bee13e28590c3d1b5d486a8ebd65dd4f2d425ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 36/61] fix: generators keep nothing from one call to the next
 and leave the caller's options alone

---
 generator/generator.go                | 4 +++-
 generator/target/c/c.go               | 1 +
 generator/target/commonjs/commonjs.go | 1 +
 generator/target/cpp/cpp.go           | 1 +
 generator/target/csharp/csharp.go     | 1 +
 generator/target/esm/esm.go           | 1 +
 generator/target/golang/golang.go     | 1 +
 generator/target/java/java.go         | 1 +
 generator/target/python/python.go     | 1 +
 9 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 2c1073d..a91ebb8 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -105,9 +105,11 @@ func Generate(target string, output string, options *gen.GenOptions, units ...*d
 		return err, nil
 	}
 
+	// generators adjust the options; the caller's stay as they are
+	genOptions := *options
 	ctx := &gen.GenCtx{
 		Units:      units,
-		GenOptions: options,
+		GenOptions: &genOptions,
 		OutputPath: output,
 	}
 
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9db5f57..88b454e 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -147,6 +147,7 @@ func (g *CGenerator) decodeBasicValueExpr(elemTy *definition.BasicType, elemTySi
 // ==================== Generate ====================
 
 func (g *CGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewCGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if ctx.GenOptions.InnerClass {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 7c05836..8b50663 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -180,6 +180,7 @@ func (g *CommonJSGenerator) generateStructPackagePrefix(structDef *definition.St
 // ==================== Generate ====================
 
 func (g *CommonJSGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewCommonJSGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if !ctx.GenOptions.RelativePath {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index d5ae674..c8bcc08 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -146,6 +146,7 @@ func (g *CppGenerator) decodeBasicValueExpr(elemTy *definition.BasicType, elemTy
 // ==================== Generate ====================
 
 func (g *CppGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewCppGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if ctx.GenOptions.InnerClass {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 0e8e5fb..97bba08 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -132,6 +132,7 @@ func (g *CSharpGenerator) decodeBasicValueExpr(elemTy *definition.BasicType, ele
 // ==================== Generate ====================
 
 func (g *CSharpGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewCSharpGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if ctx.GenOptions.RelativePath {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 6fcb12f..4408a2e 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -195,6 +195,7 @@ func (g *ESModuleGenerator) generateStructPackagePrefix(structDef *definition.St
 // ==================== Generate ====================
 
 func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewESModuleGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if !ctx.GenOptions.RelativePath {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index e209814..ff8601e 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -211,6 +211,7 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 // ==================== Generate ====================
 
 func (g *GoGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewGoGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if ctx.GenOptions.InnerClass {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b7425c2..498f14e 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -133,6 +133,7 @@ func (g *JavaGenerator) decodeBasicValueExpr(elemTy *definition.BasicType, elemT
 // ==================== Generate ====================
 
 func (g *JavaGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewJavaGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if ctx.GenOptions.RelativePath {
 		warn := &definition.GenerateWarning{
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a3058aa..b2d57c3 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -71,6 +71,7 @@ func pyBoolLiteral(v bool) string {
 // ==================== Generate ====================
 
 func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error) {
+	g = NewPythonGenerator() // keep nothing of an earlier run
 	g.GenCtx = ctx
 	if ctx.GenOptions.SignExtMethod == gen.SignExtMethodShift {
 		warn := &definition.GenerateWarning{
-- 
2.43.0


From 362efca16b9a2be915c18953c380500c7dfaa896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 37/61] fix: Go packages are the same only if their paths are

---
 generator/target/golang/golang.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index ff8601e..797e5f0 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -48,7 +48,7 @@ type GoGenerator struct {
 	*gen.GenDispatcher
 	GenCtx        *gen.GenCtx
 	GenUnitsByPkg *util.OrderedMap[string, *GeneratedUnit] // package string -> GeneratedUnit
-	GenUnits      *util.OrderedMap[string, *GeneratedUnit] // (package | go_package option) string -> GeneratedUnit
+	GenUnits      *util.OrderedMap[string, *GeneratedUnit] // (package | go_package option) path -> GeneratedUnit
 	GenTypes      *util.OrderedMap[string, *GeneratedType]
 	GenStack      *util.OrderedMap[string, any]
 	GenState      *GoGeneratorState
@@ -423,7 +423,7 @@ func (g GoGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		GeneratedTypes: util.NewOrderedMap[string, *GeneratedType](),
 	}
 
-	if prevUnit, ok := g.GenUnits.Get(pkg.String()); ok {
+	if prevUnit, ok := g.GenUnits.Get(pkg.ToFilePath("")); ok {
 		return &definition.CompileError{
 			Position: pkg.BasePosition,
 			Err: &definition.PackageDuplicateError{
@@ -432,7 +432,7 @@ func (g GoGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			},
 		}
 	}
-	g.GenUnits.Put(pkg.String(), genUnit)
+	g.GenUnits.Put(pkg.ToFilePath(""), genUnit)
 
 	g.GenUnitsByPkg.Put(unit.Package.String(), genUnit)
 
-- 
2.43.0


From 40ac6a798f6b37797c4b19a5e017a9040500eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 38/61] fix: C++ references follow the cpp_namespace option

---
 generator/target/cpp/cpp.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index c8bcc08..e9ccee0 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -678,6 +678,17 @@ func (g CppGenerator) GenerateArrayDefaultValue(array *definition.Array) (string
 	panic("unreachable, array type should be handled in GenerateStructDefaultValue")
 }
 
+// namespaceOf returns the qualified namespace in which the types of unit are
+// generated.
+func namespaceOf(unit *definition.CompilationUnit) string {
+	if opt, ok := unit.Options.Get("cpp_namespace"); ok {
+		if namespace, ok := opt.OptionValue.(*definition.StringLiteral); ok {
+			return "::" + namespace.StringValue
+		}
+	}
+	return "::" + unit.Package.ToPath("::", "")
+}
+
 // ==================== GenerateStruct ====================
 
 var structTemplate = `
@@ -733,7 +744,7 @@ var structTemplate = `
 `
 
 func (g CppGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := fmt.Sprintf("struct %s::%s", structDef.StructBelongs.Package.ToPath("::", ""), structDef.StructName)
+	name := fmt.Sprintf("struct %s::%s", namespaceOf(structDef.StructBelongs), structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -1423,7 +1434,7 @@ func (g CppGenerator) GenerateRawSetter(field definition.Field) (string, error)
 // ==================== GenerateEnum ====================
 
 func (g CppGenerator) GenerateEnum(enumDef *definition.Enum) (string, error) {
-	name := fmt.Sprintf("enum %s::%s", enumDef.EnumBelongs.Package.ToPath("::", ""), enumDef.EnumName)
+	name := fmt.Sprintf("enum %s::%s", namespaceOf(enumDef.EnumBelongs), enumDef.EnumName)
 	// check if this enum is already generated
 	if g.GenTypes.Has(enumDef.EnumName) {
 		return name, nil
@@ -2540,9 +2551,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ namespaceOf $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ namespaceOf $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2553,9 +2564,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ namespaceOf $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ namespaceOf $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2597,9 +2608,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ namespaceOf $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ namespaceOf $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2696,7 +2707,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 			"DecodeStmts": decodeStmts,
 		}
 
-		str := util.ExecuteTemplate(decoderTemplate, "decodeField", nil, decodeFieldData)
+		str := util.ExecuteTemplate(decoderTemplate, "decodeField", template.FuncMap{"namespaceOf": namespaceOf}, decodeFieldData)
 		decodeStrs = append(decodeStrs, str)
 		return nil
 	}); err != nil {
@@ -2709,7 +2720,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 		"Dynamic":    structDef.GetTypeDynamic(),
 	}
 
-	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", nil, fieldData)
+	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", template.FuncMap{"namespaceOf": namespaceOf}, fieldData)
 	return decoderStr, nil
 }
 
@@ -2771,7 +2782,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeNormalFieldTempVarAssignEnum" -}}
-    {{ .FieldName }} = static_cast<enum {{ .EnumDef.EnumBelongs.Package.ToPath "::" "" }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
+    {{ .FieldName }} = static_cast<enum {{ .Namespace }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
 {{- end -}}
 
 {{- define "decodeNormalFieldNoCast" -}}
@@ -3038,6 +3049,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 			"FieldName": g.generateDecodeStructFieldName(field.FieldName),
 			"EnumDef":   ty,
 			"TempName":  tempName,
+			"Namespace": namespaceOf(ty.EnumBelongs),
 		}
 
 		assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
@@ -3108,6 +3120,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 					"TempName":  tempName,
 					"EnumDef":   ty.ElementType.(*definition.Enum),
 					"FieldName": fmt.Sprintf("((%s)[_i])", name),
+					"Namespace": namespaceOf(ty.ElementType.(*definition.Enum).EnumBelongs),
 				}
 				assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
 				bodyStmts = append(bodyStmts, normalizeCppGeneratedBlock(assignStr))
@@ -3235,6 +3248,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 						"TempName":  subName,
 						"EnumDef":   elemTy,
 						"FieldName": fmt.Sprintf("((%s)[%d])", name, i),
+						"Namespace": namespaceOf(elemTy.EnumBelongs),
 					}
 					assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
 					decodeStmts = append(decodeStmts, assignStr)
-- 
2.43.0


From a927611bde1fd28c859897480bc1e0d5c8158d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 39/61] fix: import every unit whose types are visible, and
 none for which no code is generated

---
 generator/gen/gen_util.go             | 17 +++++++++++++++++
 generator/target/c/c.go               |  7 ++++---
 generator/target/commonjs/commonjs.go |  7 ++++---
 generator/target/cpp/cpp.go           |  7 ++++---
 generator/target/csharp/csharp.go     |  5 +++--
 generator/target/esm/esm.go           |  5 +++--
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  8 +++++---
 generator/target/kotlin/kotlin.go     |  8 ++++----
 generator/target/python/python.go     |  5 +++--
 10 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index f5d2e2c..78ab179 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -19,6 +19,23 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	return option.OptionValue.GetLiteralValue() == value
 }
 
+// IsOmitted tells whether no code is generated for unit.
+func IsOmitted(unit *definition.CompilationUnit) bool {
+	return unit.LocalTypes.Len() == 0 && MatchOption(unit.Options, "omit_empty", true)
+}
+
+// VisibleImports returns the units for which code is generated whose types unit
+// may use: those that it imports and those that are visible through them.
+func VisibleImports(unit *definition.CompilationUnit) []*definition.CompilationUnit {
+	var imports []*definition.CompilationUnit
+	for _, other := range unit.GlobalImports.Values() {
+		if !IsOmitted(other) {
+			imports = append(imports, other)
+		}
+	}
+	return imports
+}
+
 // ConstantFieldBits returns the bits that a constant field occupies on the
 // wire: the constant converted to the type of the field (the IEEE 754 bits of a
 // floating point constant), cut to the size of the field.
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 88b454e..6eeb26b 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -335,8 +335,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if gt (len .Imports) 0 -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
 {{ else -}}
@@ -455,7 +455,7 @@ struct bytes {
 `
 
 func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -479,6 +479,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.VisibleImports(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenState.UseStdLibH,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 8b50663..e256410 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -295,9 +295,9 @@ var fileTemplate = `
         return mergeDeep(target, ...sources);
     });
 
-    {{- if gt .Unit.LocalImports.Len 0 }}
+    {{- if gt (len .Imports) 0 }}
     var $root = mergeDeep({},
-        {{- range $unit := .Unit.LocalImports.Values }}
+        {{- range $unit := .Imports }}
         require("{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb" }}"),
         {{- end }}
     );
@@ -1019,7 +1019,7 @@ var fileTemplate = `
 `
 
 func (g CommonJSGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -1051,6 +1051,7 @@ func (g CommonJSGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.VisibleImports(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index e9ccee0..9fe5335 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -345,8 +345,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if gt (len .Imports) 0 -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
 {{ else -}}
@@ -517,7 +517,7 @@ namespace {{ $unit.Package.ToPath "::" "" }}
 `
 
 func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -549,6 +549,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.VisibleImports(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenState.UseStdLibH,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 97bba08..df4ad49 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -209,7 +209,7 @@ using System.Collections.Generic;
 using System.Linq;
 using System.Text;
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $unit.Options.Has "csharp_namespace" -}}
 {{ $namespace0 := $unit.Options.MustGet "csharp_namespace" -}}
 {{ $namespace1 := slice $namespace0.OptionValue 1 -1 -}}
@@ -297,7 +297,7 @@ namespace {{ ToPascalCase $unit.Package.String }}
 `
 
 func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -329,6 +329,7 @@ func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.VisibleImports(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 4408a2e..4bf4fca 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -288,7 +288,7 @@ var fileTemplate = `
 {{- end }}
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
-{{- range $unit := .Unit.LocalImports.Values }}
+{{- range $unit := .Imports }}
 import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
@@ -945,7 +945,7 @@ export default {
 `
 
 func (g ESModuleGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -977,6 +977,7 @@ func (g ESModuleGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.VisibleImports(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 797e5f0..2636230 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -405,7 +405,7 @@ import (
 `
 
 func (g GoGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 498f14e..5cae891 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -213,8 +213,9 @@ package {{ .Unit.Package }};
 {{- end }}
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
-{{ if $unit.Options.Has "java_package" -}}
+{{ range $unit := .Imports -}}
+{{ if eq $unit.LocalTypes.Len 0 -}}
+{{ else if $unit.Options.Has "java_package" -}}
 {{ $pkgName := $unit.Options.MustGet "java_package" -}}
 import {{ slice $pkgName.OptionValue 1 -1 }}.*;
 {{ else -}}
@@ -230,7 +231,7 @@ import java.util.Objects;
 `
 
 func (g JavaGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -271,6 +272,7 @@ func (g JavaGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			name, genType := entry.Key, entry.Value
 			fileData := map[string]any{
 				"Unit":       unit,
+				"Imports":    gen.VisibleImports(unit),
 				"GenType":    genType,
 				"GenOptions": g.GenCtx.GenOptions,
 			}
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..ce32f39 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -71,15 +71,15 @@ func kotlinPackage(unit *definition.CompilationUnit) string {
 }
 
 func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 	pkg := kotlinPackage(unit)
-	imports := make([]string, 0, unit.LocalImports.Len())
+	imports := []string{}
 	seen := map[string]bool{}
-	for _, imported := range unit.LocalImports.Values() {
+	for _, imported := range gen.VisibleImports(unit) {
 		p := kotlinPackage(imported)
-		if p != "" && p != pkg && !seen[p] {
+		if p != "" && p != pkg && !seen[p] && imported.LocalTypes.Len() > 0 {
 			imports = append(imports, "import "+p+".*")
 			seen[p] = true
 		}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index b2d57c3..2981d99 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -180,7 +180,7 @@ from enum import Enum
 from typing import List, Tuple, Union, overload
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 from {{ $curUnit.Package.ToPyRelativePath $unit.Package "_bb" }} import *
 {{ else -}}
@@ -232,7 +232,7 @@ from typing import List, Tuple, Union, overload
 `
 
 func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
-	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
+	if gen.IsOmitted(unit) {
 		return nil
 	}
 
@@ -256,6 +256,7 @@ func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.VisibleImports(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
-- 
2.43.0


From 3bb109f16316a30d79e06264b1590dbb2e520946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 40/61] fix: C and C++ units after the first one include stdlib
 with -memcpy

---
 generator/target/c/c.go     | 6 +++---
 generator/target/cpp/cpp.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 6eeb26b..49a18e7 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -158,9 +158,6 @@ func (g *CGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings error)
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
-	if ctx.GenOptions.MemoryCopy {
-		g.GenState.UseStdLibH = true
-	}
 
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
@@ -459,6 +456,9 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		return nil
 	}
 
+	// the previous unit has cleared the state
+	g.GenState.UseStdLibH = g.GenCtx.GenOptions.MemoryCopy
+
 	start := g.GenTypes.Len()
 
 	for _, type_ := range unit.LocalTypes.Values() {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 9fe5335..98bc466 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -157,9 +157,6 @@ func (g *CppGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings erro
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
-	if ctx.GenOptions.MemoryCopy {
-		g.GenState.UseStdLibH = true
-	}
 
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
@@ -528,6 +525,9 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	g.GenUnits.Put(unit.Package.String(), genUnit)
 
+	// the previous unit has cleared the state
+	g.GenState.UseStdLibH = g.GenCtx.GenOptions.MemoryCopy
+
 	start := g.GenTypes.Len()
 
 	for _, type_ := range unit.LocalTypes.Values() {
-- 
2.43.0


From 1e518f5e2a2457ff48ca6e4dc27875a4f44c42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 41/61] fix: ES modules import packages with the same last name

---
 generator/target/esm/esm.go        | 4 ++--
 generator/target/esm/esm_decode.go | 4 ++--
 generator/target/esm/esm_encode.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 4bf4fca..8be423b 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -177,7 +177,7 @@ var structPackagePrefixTemplate = `
     {{- if $inPackage -}}
     {{ $structDef.StructName }}
     {{- else -}}
-    ${{ $structDef.StructBelongs.Package.PackageName }}.{{ $structDef.StructName }}
+    ${{ $structDef.StructBelongs.Package.ToPath "$" "" }}.{{ $structDef.StructName }}
     {{- end -}}
 {{- end -}}
 {{- end -}}
@@ -289,7 +289,7 @@ var fileTemplate = `
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
 {{- range $unit := .Imports }}
-import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
+import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
 {{- if .GenState.UseStructArray }}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index f791d3d..39c2ffd 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -349,7 +349,7 @@ var fieldDecoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .FieldName }} = {{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- else -}}
-    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
+    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- end -}}
 {{- end -}}
 
@@ -629,7 +629,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
-					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, idxCast)
+					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, idxCast)
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 2af4c0b..24b0e3e 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -234,7 +234,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -255,7 +255,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -497,7 +497,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
-- 
2.43.0


From 8349f938ede2f77b0ad6972deb59d58850d10eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 42/61] fix: keep the ES module exports of packages with the
 same last name with -single

---
 generator/target/esm/esm.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 8be423b..9991585 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -257,8 +257,22 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 
 	// generate single file
 	if g.GenCtx.GenOptions.SingleFile {
+		// packages with the same last name share an entry
+		exports := util.NewOrderedMap[string, []string]()
+		for _, genUnit := range g.GenUnits.Values() {
+			pkgName := genUnit.SourceUnit.Package.PackageName
+			names, _ := exports.Get(pkgName)
+			for _, entry := range genUnit.GeneratedTypes.Entries() {
+				if entry.Value.GeneratedDef != "" {
+					names = append(names, entry.Key)
+				}
+			}
+			exports.MustPut(pkgName, names)
+		}
+
 		singleData := map[string]any{
 			"GenUnits":   g.GenUnits,
+			"Exports":    exports,
 			"GenState":   g.GenState,
 			"GenOptions": g.GenCtx.GenOptions,
 		}
@@ -931,12 +945,10 @@ const {{ $entry.Key }} = (function() {
 
 {{ end -}}
 export default {
-{{ range $genUnit := .GenUnits.Values }}
-    {{ $genUnit.SourceUnit.Package.PackageName }}: {
-{{- range $entry := $genUnit.GeneratedTypes.Entries }}
-{{- if $entry.Value.GeneratedDef }}
-        {{ $entry.Key }},
-{{- end }}
+{{ range $entry := .Exports.Entries }}
+    {{ $entry.Key }}: {
+{{- range $name := $entry.Value }}
+        {{ $name }},
 {{- end }}
     },
 {{ end -}}
-- 
2.43.0


From 4d56b162134f493136e12a3a0a15f2a243d1024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 43/61] fix: C++ casts to an enum of another namespace in array
 loops

---
 generator/target/cpp/cpp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 98bc466..b53c729 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3193,8 +3193,8 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 				}
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
-				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(%s)_v", elemTyT.EnumName)
+				// `(enum Name)_v` is a tagged-type cast not modeled by CastExpr.
+				common["Expr"] = fmt.Sprintf("(enum %s::%s)_v", namespaceOf(elemTyT.EnumBelongs), elemTyT.EnumName)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasicSimple", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From 69b3bbffc20c616d3317eabed95dd126f69d5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 44/61] fix: arrays of enums of 3, 5, 6 or 7 bytes

The elements went through a temporary of the type that is as wide as the
enum, and there is none of 24, 40, 48 or 56 bits: the lookup gave bool, which
does not build (Go, Java) or cuts the numbers (C, C++).
---
 generator/target/c/c.go           | 4 ++--
 generator/target/cpp/cpp.go       | 4 ++--
 generator/target/csharp/csharp.go | 4 ++--
 generator/target/golang/golang.go | 4 ++--
 generator/target/java/java.go     | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 49a18e7..5d2a358 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1821,7 +1821,7 @@ func (g CGenerator) generateEncodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2796,7 +2796,7 @@ func (g CGenerator) generateDecodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index b53c729..68b9c3d 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1971,7 +1971,7 @@ func (g CppGenerator) generateEncodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -3058,7 +3058,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index df4ad49..bc0de09 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1628,7 +1628,7 @@ func (g CSharpGenerator) generateEncodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2930,7 +2930,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 2636230..874defd 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1530,7 +1530,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2439,7 +2439,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5cae891..4f17931 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1606,7 +1606,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2664,7 +2664,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
-- 
2.43.0


From 3ab04fbc114cdf3ddac431c6ad6419114ca69a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 45/61] fix: Java enums with numbers above 2^31-1 or with
 aliases

The number of a member was an int, and members sharing a number gave
duplicate case labels, so neither built.
---
 generator/target/java/java.go | 61 +++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 4f17931..c7acd23 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1115,13 +1115,13 @@ var enumTemplate = `
 // Enum: {{ .EnumDef.ShortString }}
 public enum {{ .EnumDef.EnumName }} {
     {{- range .EnumDef.EnumValues.Values }}
-    {{ .EnumValueName }}({{ .EnumValue }}),
+    {{ .EnumValueName }}({{ .EnumValue }}{{ if $.Wide }}L{{ end }}),
     {{- end }}
     ;
 
-    private final int value;
+    private final {{ .TyNum }} value;
 
-    public final int getNumber() {
+    public final {{ .TyNum }} getNumber() {
         return value;
     }
 
@@ -1136,6 +1136,12 @@ public enum {{ .EnumDef.EnumName }} {
     public static {{ .EnumDef.EnumName }} valueOf(int value) {
         return forNumber(value);
     }
+    {{- if .Wide }}
+
+    public static {{ .EnumDef.EnumName }} valueOf(long value) {
+        return forNumber(value);
+    }
+    {{- end }}
 
     public static {{ .EnumDef.EnumName }} forNumber(byte value) {
         return forNumber(Byte.toUnsignedInt(value));
@@ -1144,26 +1150,65 @@ public enum {{ .EnumDef.EnumName }} {
     public static {{ .EnumDef.EnumName }} forNumber(short value) {
         return forNumber(Short.toUnsignedInt(value));
     }
+    {{- if .Wide }}
+
+    public static {{ .EnumDef.EnumName }} forNumber(int value) {
+        return forNumber(Integer.toUnsignedLong(value));
+    }
+
+    public static {{ .EnumDef.EnumName }} forNumber(long value) {
+        {{- range .Cases }}
+        if (value == {{ .EnumValue }}L) return {{ .EnumValueName }};
+        {{- end }}
+        return null;
+    }
+    {{- else }}
 
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
-        {{- range .EnumDef.EnumValues.Values }}
+        {{- range .Cases }}
             case {{ .EnumValue }}: return {{ .EnumValueName }};
         {{- end }}
             default: return null;
         }
     }
+    {{- end }}
 
-    private {{ .EnumDef.EnumName }}(int value) {
+    private {{ .EnumDef.EnumName }}({{ .TyNum }} value) {
         this.value = value;
     }
 }
 {{- end -}}
 `
 
+// enumNeedsLong reports whether a number of the enum may not fit a Java int.
+func enumNeedsLong(enumDef *definition.Enum) bool {
+	return enumDef.EnumBitSize > 31
+}
+
 func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// members that share a number are decoded as the first of them
+	cases := make([]*definition.EnumValue, 0, enumDef.EnumValues.Len())
+	seen := make(map[int64]struct{})
+	for _, value := range enumDef.EnumValues.Values() {
+		if _, ok := seen[value.EnumValue]; ok {
+			continue
+		}
+		seen[value.EnumValue] = struct{}{}
+		cases = append(cases, value)
+	}
+
+	wide := enumNeedsLong(enumDef)
+	tyNum := "int"
+	if wide {
+		tyNum = "long"
+	}
+
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Cases":   cases,
+		"Wide":    wide,
+		"TyNum":   tyNum,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
@@ -2771,7 +2816,11 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `EnumName.forNumber(int)` is an API call; cast `(int)_v` is a basic-type cast.
-				common["Expr"] = fmt.Sprintf("%s.forNumber(%s)", elemTyT.EnumName, g.generateCastExpr(&definition.Int32, "_v"))
+				number := g.generateCastExpr(&definition.Int32, "_v")
+				if enumNeedsLong(elemTyT) {
+					number = "_v"
+				}
+				common["Expr"] = fmt.Sprintf("%s.forNumber(%s)", elemTyT.EnumName, number)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From d702e15fc9bb9b750a96d5be86e3e99834837a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 46/61] fix: C# enums with numbers above 2^31-1

---
 generator/target/csharp/csharp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index bc0de09..334ddc7 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1097,7 +1097,7 @@ func (g CSharpGenerator) GenerateEnum(enumDef *definition.Enum) (string, error)
 var enumTemplate = `
 {{- define "enumDef" -}}
     // Enum: {{ .EnumDef.ShortString }}
-    public enum {{ .EnumDef.EnumName }}
+    public enum {{ .EnumDef.EnumName }}{{ .BaseType }}
     {
         {{- range .EnumDef.EnumValues.Values }}
         {{ .EnumValueName }} = {{ .EnumValue }},
@@ -1107,8 +1107,17 @@ var enumTemplate = `
 `
 
 func (g CSharpGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// an enum is an int unless its numbers need more
+	baseType := ""
+	if enumDef.EnumBitSize > 32 {
+		baseType = " : ulong"
+	} else if enumDef.EnumBitSize > 31 {
+		baseType = " : uint"
+	}
+
 	enumDefData := map[string]any{
-		"EnumDef": enumDef,
+		"EnumDef":  enumDef,
+		"BaseType": baseType,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
-- 
2.43.0


From f1901ac8e860dac4d31ff6de3d3274948bec1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 47/61] fix: JavaScript enums wider than 32 bits

Their numbers went through 32-bit shifts, and Number literals above 2^53 lose
their lowest bits: they are BigInts, as 64-bit integers are.
---
 generator/target/commonjs/commonjs.go | 69 ++++++++++++++++++---------
 generator/target/esm/esm.go           | 22 ++++++++-
 generator/target/esm/esm_decode.go    |  8 ++--
 generator/target/esm/esm_encode.go    | 32 +++++++------
 4 files changed, 88 insertions(+), 43 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index e256410..ec18eaf 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1654,7 +1654,7 @@ var enumTemplate = `
 {{- define "enumDef" -}}
                 var valuesById = {}, values = Object.create(valuesById);
                 {{- range .EnumDef.EnumValues.Values }}
-                values[valuesById[{{ .EnumValue }}] = "{{ .EnumValueName }}"] = {{ .EnumValue }};
+                values[valuesById[{{ .EnumValue }}{{ $.Suffix }}] = "{{ .EnumValueName }}"] = {{ .EnumValue }}{{ $.Suffix }};
                 {{- end }}
                 return values;
 {{- end -}}
@@ -1671,9 +1671,29 @@ var enumTemplate = `
 {{- end -}}
 `
 
+// enumNeedsBigInt reports whether the numbers of the enum are BigInts: the bit
+// operations on a Number only see its lowest 32 bits.
+func enumNeedsBigInt(enumDef *definition.Enum) bool {
+	return enumDef.EnumBitSize > 32
+}
+
+// enumTempType returns the type that an enum is encoded and decoded as.
+func enumTempType(enumDef *definition.Enum) *definition.BasicType {
+	if enumNeedsBigInt(enumDef) {
+		return &definition.Uint64
+	}
+	return &definition.Uint32
+}
+
 func (g CommonJSGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	suffix := ""
+	if enumNeedsBigInt(enumDef) {
+		suffix = "n"
+	}
+
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Suffix":  suffix,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
@@ -1929,9 +1949,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarDeclEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if not $inPackage -}}
-    var {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    var {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- else -}}
-    var {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    var {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -1950,9 +1970,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarAssignEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if not $inPackage -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -2099,11 +2119,12 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 
 	case *definition.Enum:
 		tempName := g.generateEncodeTempVarName(startBits)
-		// any integer type is ok (except 64-bit)
-		tempTy := &definition.Uint32
+		// any integer type that holds the numbers of the enum is ok
+		tempTy := enumTempType(ty)
 
 		encodeNormalFieldTempVarDeclData := map[string]any{
 			"EnumDef":   ty,
+			"Wide":      enumNeedsBigInt(ty),
 			"TempName":  tempName,
 			"FieldName": g.generateEncodeStructFieldName(field.FieldName),
 			"FieldDef":  field,
@@ -2150,7 +2171,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				declStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, encodeNormalFieldTempVarDeclOnlyData)
 				loopStmts = append(loopStmts, declStr)
 
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 			}
 
@@ -2165,6 +2186,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				tempName := g.generateEncodeTempVarName(startBits)
 				encodeNormalFieldTempVarAssignData := map[string]any{
 					"EnumDef":   ty.ElementType,
+					"Wide":      enumNeedsBigInt(ty.ElementType.(*definition.Enum)),
 					"TempName":  tempName,
 					"FieldName": fmt.Sprintf("%s[_i]", name),
 					"FieldDef":  field,
@@ -2240,11 +2262,13 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
-				var lookupExpr string
-				if inPackage {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $package.%s[%s[_i]])", name, name, elemTyT.EnumName, name)
-				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $root.%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package, elemTyT.EnumName, name)
+				enumName := "$package." + elemTyT.EnumName
+				if !inPackage {
+					enumName = fmt.Sprintf("$root.%s.%s", elemTyT.EnumBelongs.Package, elemTyT.EnumName)
+				}
+				lookupExpr := fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, enumName, name)
+				if enumNeedsBigInt(elemTyT) {
+					lookupExpr = fmt.Sprintf("((typeof %s[_i] === \"string\" ? %s[%s[_i]] : %s[_i]) || 0)", name, enumName, name, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
@@ -2302,8 +2326,8 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 					return tempName
 				}
 
-				// change elemTy to any integer type (except 64-bit)
-				elemTy = &definition.Uint32
+				// change elemTy to an integer type that holds the numbers of the enum
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -2328,6 +2352,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				case *definition.Enum:
 					encodeNormalFieldTempVarAssignData := map[string]any{
 						"EnumDef":   ty.ElementType,
+						"Wide":      enumNeedsBigInt(ty.ElementType.(*definition.Enum)),
 						"TempName":  subName,
 						"FieldName": fmt.Sprintf("%s[%d]", name, i),
 						"FieldDef":  field,
@@ -3167,8 +3192,8 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 		}
 
 	case *definition.Enum:
-		// any integer type is ok (except 64-bit)
-		tempTy := &definition.Uint32
+		// any integer type that holds the numbers of the enum is ok
+		tempTy := enumTempType(ty)
 		tempName := g.generateDecodeTempVarName(startBits)
 
 		decodeNormalFieldTempVarDeclOnlyData := map[string]any{
@@ -3226,7 +3251,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 				declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclOnly)
 				loopStmts = append(loopStmts, declStr)
 
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 			}
 
@@ -3298,9 +3323,9 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
 				if inPackage {
-					common["Expr"] = fmt.Sprintf("$package.%s[%s]", elemTyT.EnumName, g.generateCastExpr(&definition.Uint32, "_v"))
+					common["Expr"] = fmt.Sprintf("$package.%s[%s]", elemTyT.EnumName, g.generateCastExpr(enumTempType(elemTyT), "_v"))
 				} else {
-					common["Expr"] = fmt.Sprintf("$root.%s.%s[%s]", elemTyT.EnumBelongs.Package, elemTyT.EnumName, g.generateCastExpr(&definition.Uint32, "_v"))
+					common["Expr"] = fmt.Sprintf("$root.%s.%s[%s]", elemTyT.EnumBelongs.Package, elemTyT.EnumName, g.generateCastExpr(enumTempType(elemTyT), "_v"))
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
@@ -3355,8 +3380,8 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 					return tempName
 				}
 
-				// change elemTy to any integer type (except 64-bit)
-				elemTy = &definition.Uint32
+				// change elemTy to an integer type that holds the numbers of the enum
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 9991585..65476c5 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1447,14 +1447,32 @@ var enumTemplate = `
 {{- define "enumDef" -}}
 const valuesById = {}, values = Object.create(valuesById);
 {{- range .EnumDef.EnumValues.Values }}
-values[valuesById[{{ .EnumValue }}] = "{{ .EnumValueName }}"] = {{ .EnumValue }};
+values[valuesById[{{ .EnumValue }}{{ $.Suffix }}] = "{{ .EnumValueName }}"] = {{ .EnumValue }}{{ $.Suffix }};
 {{- end }}
 return values;
 {{- end -}}
 `
 
+// enumNeedsBigInt reports whether the numbers of the enum are BigInts: the bit
+// operations on a Number only see its lowest 32 bits.
+func enumNeedsBigInt(enumDef *definition.Enum) bool {
+	return enumDef.EnumBitSize > 32
+}
+
+// enumTempType returns the type that an enum is encoded and decoded as.
+func enumTempType(enumDef *definition.Enum) *definition.BasicType {
+	if enumNeedsBigInt(enumDef) {
+		return &definition.Uint64
+	}
+	return &definition.Uint32
+}
+
 func (g ESModuleGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
-	enumDefData := map[string]any{"EnumDef": enumDef}
+	suffix := ""
+	if enumNeedsBigInt(enumDef) {
+		suffix = "n"
+	}
+	enumDefData := map[string]any{"EnumDef": enumDef, "Suffix": suffix}
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
 	code := &GeneratedType{GeneratedDef: enumDefStr}
 	return code, nil
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 39c2ffd..64b439a 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -521,7 +521,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 		}
 
 	case *definition.Enum:
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		tempName := g.generateDecodeTempVarName(startBits)
 		decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 		stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
@@ -561,7 +561,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -625,7 +625,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
-				idxCast := g.generateCastExpr(&definition.Uint32, "_v")
+				idxCast := g.generateCastExpr(enumTempType(elemTyT), "_v")
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
@@ -659,7 +659,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 24b0e3e..56b5c33 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -232,9 +232,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarDeclEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if or .SingleFile $inPackage -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? {{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -253,9 +253,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarAssignEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if or .SingleFile $inPackage -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? {{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if .Wide }}BigInt(((typeof {{ .FieldName }} === "string") ? ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}] : {{ .FieldName }}) || 0){{ else }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -378,9 +378,9 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 
 	case *definition.Enum:
 		tempName := g.generateEncodeTempVarName(startBits)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		declStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclEnum", nil, map[string]any{
-			"EnumDef": ty, "TempName": tempName, "FieldName": g.generateEncodeStructFieldName(field.FieldName), "FieldDef": field,
+			"EnumDef": ty, "Wide": enumNeedsBigInt(ty), "TempName": tempName, "FieldName": g.generateEncodeStructFieldName(field.FieldName), "FieldDef": field,
 			"SingleFile": g.GenCtx.GenOptions.SingleFile,
 		})
 		encodeStmts = append(encodeStmts, declStr)
@@ -417,7 +417,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				tempName := g.generateEncodeTempVarName(startBits)
 				encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -431,7 +431,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 			switch ty.ElementType.(type) {
 			case *definition.Enum:
 				encodeStmts = append(encodeStmts, util.IndentSpace(util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
-					"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[_i]", name), "FieldDef": field,
+					"EnumDef": ty.ElementType, "Wide": enumNeedsBigInt(ty.ElementType.(*definition.Enum)), "TempName": subName, "FieldName": fmt.Sprintf("%s[_i]", name), "FieldDef": field,
 				}), 4))
 			}
 
@@ -493,11 +493,13 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
 			case *definition.Enum:
 				inPackage := field.FieldBelongs.StructBelongs.LocalNames.Has(elemTyT.EnumName)
-				var lookupExpr string
-				if g.GenCtx.GenOptions.SingleFile || inPackage {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
-				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
+				enumName := elemTyT.EnumName
+				if !(g.GenCtx.GenOptions.SingleFile || inPackage) {
+					enumName = fmt.Sprintf("$%s.%s", elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName)
+				}
+				lookupExpr := fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, enumName, name)
+				if enumNeedsBigInt(elemTyT) {
+					lookupExpr = fmt.Sprintf("((typeof %s[_i] === \"string\" ? %s[%s[_i]] : %s[_i]) || 0)", name, enumName, name, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
@@ -528,7 +530,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				tempName := g.generateEncodeTempVarName(startBits)
 				encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -547,7 +549,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 					}
 				case *definition.Enum:
 					encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
-						"EnumDef": ty.ElementType, "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
+						"EnumDef": ty.ElementType, "Wide": enumNeedsBigInt(ty.ElementType.(*definition.Enum)), "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
 					}))
 				}
 
-- 
2.43.0


From e65f91095ce3e300772ebe9270462b1a17c9b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 48/61] fix: ES module arrays of enums of another package with
 -single

The unrolled encoder looked the name of a member up in the module of the other
package, which does not exist in a single file.
---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 56b5c33..f51ecc1 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -432,6 +432,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 			case *definition.Enum:
 				encodeStmts = append(encodeStmts, util.IndentSpace(util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 					"EnumDef": ty.ElementType, "Wide": enumNeedsBigInt(ty.ElementType.(*definition.Enum)), "TempName": subName, "FieldName": fmt.Sprintf("%s[_i]", name), "FieldDef": field,
+					"SingleFile": g.GenCtx.GenOptions.SingleFile,
 				}), 4))
 			}
 
@@ -550,6 +551,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				case *definition.Enum:
 					encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignEnum", nil, map[string]any{
 						"EnumDef": ty.ElementType, "Wide": enumNeedsBigInt(ty.ElementType.(*definition.Enum)), "TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "FieldDef": field,
+						"SingleFile": g.GenCtx.GenOptions.SingleFile,
 					}))
 				}
 
-- 
2.43.0


From df2ba63109640a5ea356d4c8bdd4eb3f83ba6df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 49/61] fix: accessors of embedded fields belong to the
 embedding struct

---
 definition/field.go  | 15 ++++++++++++++-
 definition/method.go | 11 +++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/definition/field.go b/definition/field.go
index 318653a..6c3c042 100644
--- a/definition/field.go
+++ b/definition/field.go
@@ -130,10 +130,23 @@ func (f NormalField) Copy() Field {
 		FieldName:    f.FieldName,
 		FieldType:    f.FieldType,
 		FieldBitSize: f.FieldBitSize,
-		FieldMethods: f.FieldMethods,
+		FieldMethods: nil,
 		FieldOptions: f.FieldOptions,
 		FieldBelongs: f.FieldBelongs,
 	}
+	// the copied methods belong to the copied field
+	if f.FieldMethods != nil {
+		newField.FieldMethods = util.NewOrderedMap[string, *util.OrderedMap[MethodKindID, Method]]()
+		for _, entry := range f.FieldMethods.Entries() {
+			group := util.NewOrderedMap[MethodKindID, Method]()
+			for _, method := range entry.Value.Entries() {
+				newMethod := method.Value.Copy()
+				newMethod.SetMethodBelongs(&newField)
+				group.Put(method.Key, newMethod)
+			}
+			newField.FieldMethods.Put(entry.Key, group)
+		}
+	}
 	return &newField
 }
 
diff --git a/definition/method.go b/definition/method.go
index 52dcb65..380f697 100644
--- a/definition/method.go
+++ b/definition/method.go
@@ -39,6 +39,7 @@ type Method interface {
 	GetMethodName() string
 	GetMethodBelongs() *NormalField
 	SetMethodBelongs(*NormalField)
+	Copy() Method
 }
 
 var _ Method = (*GetMethod)(nil)
@@ -68,6 +69,11 @@ func (m *GetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m GetMethod) Copy() Method {
+	newMethod := m
+	return &newMethod
+}
+
 type SetMethod struct {
 	BasePosition
 
@@ -93,6 +99,11 @@ func (m *SetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m SetMethod) Copy() Method {
+	newMethod := m
+	return &newMethod
+}
+
 // type Method struct {
 //     BasePosition
 
-- 
2.43.0


From 94be5000b21c0e3378df877b7450911ae6013e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 50/61] fix: Python setter declared before its getter

---
 generator/target/python/python.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 2981d99..efbd146 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -475,7 +475,12 @@ func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*Generate
 		}
 		normalField := field.(*definition.NormalField)
 		for _, group := range normalField.FieldMethods.Values() {
-			for _, method := range group.Values() {
+			// a property must be declared by its getter before its setter
+			for _, kind := range []definition.MethodKindID{definition.MethodKindID_Get, definition.MethodKindID_Set} {
+				method, ok := group.Get(kind)
+				if !ok {
+					continue
+				}
 				methodStr, err := g.GenerateMethod(method)
 				if err != nil {
 					return err
-- 
2.43.0


From 6a4a5d09cdfa59dcdf68fc17565ec28675241d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 51/61] fix: negative constants in accessor expressions

---
 generator/gen/gen_dispatcher.go       | 11 +++++++++++
 generator/target/c/c.go               |  6 +++++-
 generator/target/commonjs/commonjs.go |  6 +++++-
 generator/target/cpp/cpp.go           |  6 +++++-
 generator/target/csharp/csharp.go     |  6 +++++-
 generator/target/esm/esm_decode.go    |  6 +++++-
 generator/target/golang/golang.go     |  6 +++++-
 generator/target/java/java.go         |  6 +++++-
 generator/target/kotlin/kotlin.go     |  6 +++++-
 generator/target/python/python.go     |  6 +++++-
 10 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 6ce70fe..594a9ca 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -86,6 +87,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	}
 }
 
+// ParenthesizeNegative encloses a negative number in parentheses, so that it can
+// be the operand of any operator: "-" before it would otherwise become "--", and
+// some targets reject a signed base of "**".
+func ParenthesizeNegative(literal string) string {
+	if strings.HasPrefix(literal, "-") {
+		return "(" + literal + ")"
+	}
+	return literal
+}
+
 type GenLiteralDispatcher struct {
 	LiteralGeneratorImpl
 }
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 5d2a358..1662090 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3375,7 +3375,11 @@ func (g CExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (str
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g CExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index ec18eaf..a567011 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3823,7 +3823,11 @@ func (g CommonJSExprGenerator) GenerateConstantExpr(expr *definition.ConstantExp
 	if generator == nil {
 		generator = NewCommonJSLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g CommonJSExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 68b9c3d..feb59ba 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3656,7 +3656,11 @@ func (g CppExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (s
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g CppExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 334ddc7..cadbb1a 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3574,7 +3574,11 @@ func (g CSharpExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr)
 	if generator == nil {
 		generator = NewCSharpLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g CSharpExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 64b439a..3d63356 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -964,7 +964,11 @@ func (g ESModuleExprGenerator) GenerateConstantExpr(expr *definition.ConstantExp
 	if generator == nil {
 		generator = NewESModuleLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g ESModuleExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 874defd..bc7adf4 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2948,7 +2948,11 @@ func (g GoExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (st
 	if generator == nil {
 		generator = NewCLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g GoExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c7acd23..3638c59 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3313,7 +3313,11 @@ func (g JavaExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr) (
 	if generator == nil {
 		generator = NewJavaLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g JavaExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index ce32f39..c4a31ee 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -488,7 +488,11 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 	case *definition.RawExpr:
 		return e.Expr, nil
 	case *definition.ConstantExpr:
-		return g.literalForType(e.ConstantValue, e.ConstantType)
+		str, err := g.literalForType(e.ConstantValue, e.ConstantType)
+		if err != nil {
+			return "", err
+		}
+		return gen.ParenthesizeNegative(str), nil
 	case *definition.CastExpr:
 		inner, err := g.generateExpr(e.Expr1, value)
 		if err != nil {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index efbd146..2f67d33 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2556,7 +2556,11 @@ func (g PythonExprGenerator) GenerateConstantExpr(expr *definition.ConstantExpr)
 	if generator == nil {
 		generator = NewPythonLiteralGenerator(nil)
 	}
-	return g.AcceptLiteral(expr.ConstantValue, generator)
+	str, err := g.AcceptLiteral(expr.ConstantValue, generator)
+	if err != nil {
+		return "", err
+	}
+	return gen.ParenthesizeNegative(str), nil
 }
 
 func (g PythonExprGenerator) GenerateTenaryExpr(expr *definition.TenaryExpr) (string, error) {
-- 
2.43.0


From c9d8eaea3ff6cce2b4bac62bf9f5c5da18b6d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 52/61] fix: precision of floating point constants in accessor
 expressions

---
 generator/gen/gen_dispatcher.go       | 11 +++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/python/python.go     |  2 +-
 8 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 594a9ca..ce6c636 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/xaxys/bubbler/definition"
@@ -87,6 +88,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	}
 }
 
+// FormatFloatLiteral renders the shortest decimal number that denotes exactly the
+// value of the literal, always with a fractional part.
+func FormatFloatLiteral(literal *definition.FloatLiteral) string {
+	str := strconv.FormatFloat(literal.FloatValue, 'f', -1, 64)
+	if !strings.Contains(str, ".") {
+		str += ".0"
+	}
+	return str
+}
+
 // ParenthesizeNegative encloses a negative number in parentheses, so that it can
 // be the operand of any operator: "-" before it would otherwise become "--", and
 // some targets reject a signed base of "**".
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 1662090..d2c1116 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3438,7 +3438,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index a567011..97db1db 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3898,7 +3898,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index feb59ba..81ae8d3 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3716,7 +3716,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index cadbb1a..92b37bf 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3634,7 +3634,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index bc7adf4..ddf530b 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3035,7 +3035,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 3638c59..54a43a5 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3408,7 +3408,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 2f67d33..c40cc4a 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2619,7 +2619,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-- 
2.43.0


From b904f2a4794a2b31325772f13990b8fb20ba2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 53/61] fix: type of value in getter expressions

---
 compiler/proto_visitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 178e9a0..3046a57 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -1230,7 +1230,12 @@ func (v *MethodVisitor) VisitFieldMethod(ctx *parser.FieldMethodContext) any {
 		panic("unreachable")
 	}
 
-	exprVisitor := NewExprVisitor(v, type_)
+	// value denotes the raw field in a getter, the parameter in a setter
+	valueType := type_
+	if kind.IsGet() {
+		valueType = v.FieldType
+	}
+	exprVisitor := NewExprVisitor(v, valueType)
 	var expr definition.Expr
 	exprRet := ctx.Expr().Accept(exprVisitor)
 	switch val := exprRet.(type) {
-- 
2.43.0


From 9d81d693745beb62c2b2d8a6f25a0aa8eefbe908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 54/61] fix: JavaScript casts to integers discard the fraction

---
 generator/target/commonjs/commonjs.go | 7 +++++++
 generator/target/esm/esm_decode.go    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 97db1db..423bd96 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3815,6 +3815,13 @@ func (g CommonJSExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if g.ValueStr != "" && expr.ToType.GetTypeID().IsIntOrUint() {
+		// in an accessor, a cast to an integer discards the fraction
+		if ty == "BigInt" {
+			return fmt.Sprintf("((v) => BigInt(typeof v === \"number\" ? Math.trunc(v) : v))(%s)", expr1), nil
+		}
+		return fmt.Sprintf("Math.trunc(%s(%s))", ty, expr1), nil
+	}
 	return fmt.Sprintf("%s(%s)", ty, expr1), nil
 }
 
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 3d63356..03c55bc 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -956,6 +956,13 @@ func (g ESModuleExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if g.ValueStr != "" && expr.ToType.GetTypeID().IsIntOrUint() {
+		// in an accessor, a cast to an integer discards the fraction
+		if ty == "BigInt" {
+			return fmt.Sprintf("((v) => BigInt(typeof v === \"number\" ? Math.trunc(v) : v))(%s)", expr1), nil
+		}
+		return fmt.Sprintf("Math.trunc(%s(%s))", ty, expr1), nil
+	}
 	return fmt.Sprintf("%s(%s)", ty, expr1), nil
 }
 
-- 
2.43.0


From 1090246a8dc08e2048ce1fec260c20522b2ae6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 55/61] fix: Python not operator runs into its operand

---
 generator/target/python/python.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index c40cc4a..7c7278f 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2506,7 +2506,7 @@ var exprOpToString = map[definition.ExprOp]string{
 	definition.ExprOp_BOR:    "|",
 	definition.ExprOp_AND:    "and",
 	definition.ExprOp_OR:     "or",
-	definition.ExprOp_NOT:    "not",
+	definition.ExprOp_NOT:    "not ",
 	definition.ExprOp_BNOT:   "~",
 	definition.ExprOp_ASSIGN: "=",
 }
-- 
2.43.0


From 7e9ebd653742e2acb10dc253096a02e53d4fa5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 56/61] fix: Go imports only the packages that a file names
 itself

The walk over the fields of a structure went on into structures of other
files, so a file imported the packages used by the types it imports, which
Go rejects as imported and not used.
---
 generator/target/golang/golang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index ddf530b..0283203 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -184,7 +184,7 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 				if !ok {
 					continue
 				}
-				if innerStructTy, ok := customTy.(*definition.Struct); ok {
+				if innerStructTy, ok := customTy.(*definition.Struct); ok && innerStructTy.GetBelongs() == unit {
 					dfsStructType(innerStructTy)
 				}
 				tyName := customTy.GetTypeName()
-- 
2.43.0


From fa3032ff4a5e11f3f61e250e2e2aa5bb8ac848bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 57/61] fix: C# Equals and GetHashCode compare bytes fields by
 content

---
 generator/target/csharp/csharp.go | 35 ++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 92b37bf..00fcdf8 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -601,6 +601,7 @@ var structTemplate = `
 {{- define "structDef" -}}
 {{- $structDef := .StructDef -}}
 {{- $fieldStrs := .FieldStrs -}}
+{{- $memoryCopy := .GenOptions.MemoryCopy -}}
 // Struct: {{ $structDef }}
     public partial class {{ $structDef.StructName }}
     {
@@ -637,8 +638,24 @@ var structTemplate = `
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- if $field.FieldType.GetTypeID.IsBasic }}
             if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+            {{- if $memoryCopy }}
+            if (this.{{ $fieldName }} == null || other.{{ $fieldName }} == null ? this.{{ $fieldName }} != other.{{ $fieldName }} : !Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+            {{- else }}
+            if (!this.{{ $fieldName }}.Span.SequenceEqual(other.{{ $fieldName }}.Span)) return false;
+            {{- end }}
             {{- else if $field.FieldType.GetTypeID.IsArray }}
+            {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            if (this.{{ $fieldName }}.Length != other.{{ $fieldName }}.Length) return false;
+            for (int i = 0; i < this.{{ $fieldName }}.Length; i++)
+                {{- if $memoryCopy }}
+                if (!Enumerable.SequenceEqual(this.{{ $fieldName }}[i], other.{{ $fieldName }}[i])) return false;
+                {{- else }}
+                if (!this.{{ $fieldName }}[i].Span.SequenceEqual(other.{{ $fieldName }}[i].Span)) return false;
+                {{- end }}
+            {{- else }}
             if (!Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+            {{- end }}
             {{- else }}
             if (!Object.Equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- end }}
@@ -650,13 +667,25 @@ var structTemplate = `
         public override int GetHashCode()
         {
             int result = 17;
-        {{- $memoryCopy := .GenOptions.MemoryCopy }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- $isBasicOrEnum := or $field.FieldType.GetTypeID.IsBasic $field.FieldType.GetTypeID.IsEnum }}
-            {{- $isMemory := and $field.FieldType.GetTypeID.IsBytes ( not $memoryCopy ) }}
-            {{- if and ( not $isBasicOrEnum ) ( not $isMemory ) }}
+            {{- $isBytesArray := false }}
+            {{- if $field.FieldType.GetTypeID.IsArray }}
+            {{- $isBytesArray = $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            {{- end }}
+            {{- if $isBytesArray }}
+            foreach (var item in this.{{ $fieldName }})
+                foreach (byte v in {{ if $memoryCopy }}item{{ else }}item.Span{{ end }}) result = result * 31 + v;
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+            {{- if $memoryCopy }}
+            if (this.{{ $fieldName }} != null)
+                foreach (byte v in this.{{ $fieldName }}) result = result * 31 + v;
+            {{- else }}
+            foreach (byte v in this.{{ $fieldName }}.Span) result = result * 31 + v;
+            {{- end }}
+            {{- else if not $isBasicOrEnum }}
             result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
             {{- else }}
             result = result * 31 + {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }};
-- 
2.43.0


From d9e50abac035a39278057575095ed1f76c002545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 58/61] fix: Java equals agrees with hashCode on the sign of
 zero

---
 generator/target/java/java.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 54a43a5..319ea22 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -571,7 +571,9 @@ public final class {{ $structDef.StructName }} {
     {{- range $field := $structDef.StructFields.Values }}
     {{- if $field.GetFieldKind.IsNormal }}
         {{- $fieldName := TocamelCase $field.FieldName }}
-        {{- if $field.FieldType.GetTypeID.IsBasic }}
+        {{- if $field.FieldType.GetTypeID.IsFloat }}
+        if ({{ if eq $field.FieldType.TypeBitSize 32 }}Float{{ else }}Double{{ end }}.compare(this.{{ $fieldName }}, other.{{ $fieldName }}) != 0) return false;
+        {{- else if $field.FieldType.GetTypeID.IsBasic }}
         if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
         {{- else if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-- 
2.43.0


From 212d9022c6204317c80f7d5860d8b3c24f7ccde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 59/61] fix: Kotlin equals agrees with hashCode on the sign of
 zero

---
 generator/target/kotlin/kotlin.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index c4a31ee..bec172b 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -472,7 +472,12 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 			fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
 			fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
 		} else {
-			fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
+			if f.FieldType.GetTypeID().IsFloat() {
+				// != on statically typed floats takes 0.0 and -0.0 as equal, hashCode does not
+				fmt.Fprintf(&eq, "        if (%s.compareTo(other.%s) != 0) return false\n", name, name)
+			} else {
+				fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
+			}
 			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", name)
 		}
 	}
-- 
2.43.0


From 42d4167d09d724750d3de3b4a9c4d2e9e0ca735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 60/61] fix: Java and C# elements of bytes arrays start out
 empty, not null, with -memcpy

---
 generator/target/csharp/csharp.go | 7 +------
 generator/target/java/java.go     | 5 -----
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 00fcdf8..10f0d74 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -428,7 +428,7 @@ func (g CSharpGenerator) GenerateBytes(bytes *definition.Bytes) (string, error)
 
 func (g CSharpGenerator) GenerateBytesDefaultValue(bytes *definition.Bytes) (string, error) {
 	if g.GenCtx.GenOptions.MemoryCopy {
-		return `{}`, nil
+		return `new byte[0]`, nil
 	}
 	return `Memory<byte>.Empty`, nil
 }
@@ -453,11 +453,6 @@ var arrayDefaultValueTemplate = `
 `
 
 func (g CSharpGenerator) GenerateArrayDefaultValue(array *definition.Array) (string, error) {
-	// special case: bytes array
-	if array.ElementType.GetTypeID().IsBytes() && g.GenCtx.GenOptions.MemoryCopy {
-		return fmt.Sprintf("new byte[%s][]", g.generateDec(array.Length)), nil
-	}
-
 	elemTy, err := g.GenerateType(array.ElementType)
 	if err != nil {
 		return "", err
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 319ea22..98b938c 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -393,11 +393,6 @@ var arrayDefaultValueTemplate = `
 `
 
 func (g JavaGenerator) GenerateArrayDefaultValue(array *definition.Array) (string, error) {
-	// special case: bytes array
-	if array.ElementType.GetTypeID().IsBytes() && g.GenCtx.GenOptions.MemoryCopy {
-		return fmt.Sprintf("new byte[%s][]", g.generateDec(array.Length)), nil
-	}
-
 	elemTy, err := g.GenerateType(array.ElementType)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 33bbc65339e78b3a76eb188ca105a61c35942c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:21 +0000
Subject: [PATCH 61/61] fix: badly cased names in struct and enum type
 references are reported, not a crash

VisitStructType and VisitEnumType took the error that VisitStructName and
VisitEnumName return for a name without a capital as if it were the name.
---
 compiler/proto_visitor.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 3046a57..9d4e603 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2188,7 +2188,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		name := ""
+		nameRet := ctx.StructName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2226,7 +2235,16 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		name := ""
+		nameRet := ctx.EnumName().Accept(v)
+		switch val := nameRet.(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0

