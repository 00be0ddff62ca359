From 725a7be8121aa9f23fbfa999b2e8d77e2785890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 01/33] fix: check the range of every protobuf integer kind in
 cast functions

---
 generator/code_generator.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index eb04e6d..4280748 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2042,7 +2042,22 @@ var (
 )
 
 func (f *CastField) IsRequiredValidationNumber() bool {
-	return castValidationNumberMap[f.fromType.Kind.ToString()+f.toType.Kind.ToString()]
+	return castValidationNumberMap[goIntegerKind(f.fromType.Kind).ToString()+goIntegerKind(f.toType.Kind).ToString()]
+}
+
+// goIntegerKind returns the kind that stands for all protobuf integer kinds represented by the same Go type.
+func goIntegerKind(kind types.Kind) types.Kind {
+	switch kind {
+	case types.Sint64, types.Sfixed64:
+		return types.Int64
+	case types.Sint32, types.Sfixed32:
+		return types.Int32
+	case types.Fixed64:
+		return types.Uint64
+	case types.Fixed32:
+		return types.Uint32
+	}
+	return kind
 }
 
 func (f *CastField) CastWithValidationName() string {
-- 
2.43.0


From 7ecdd9edabeb989a2830654c85da449a862298ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:41 +0000
Subject: [PATCH 02/33] fix: do not evaluate a definition again when its lookup
 races with its completion

---
 grpc/federation/cel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index f884a0c..9b8f8a5 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -379,6 +379,13 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 	}
 	v.sgCache.mu.RUnlock()
 	ret, err, _ := v.sg.Do(name, func() (any, error) {
+		// another call may have completed after the lookup above.
+		v.sgCache.mu.RLock()
+		cache, exists := v.sgCache.resultMap[name]
+		v.sgCache.mu.RUnlock()
+		if exists {
+			return cache.result, cache.err
+		}
 		ret, err := cb()
 		v.sgCache.mu.Lock()
 		v.sgCache.resultMap[name] = &singleflightCacheResult{
-- 
2.43.0


From a69d4614b4bab96dce68c93d804d41469b5bb9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 03/33] fix: evaluate an absent optional to nil when no type is
 requested

---
 grpc/federation/cel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 9b8f8a5..48814fb 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -744,6 +744,9 @@ func EvalCEL(ctx context.Context, req *EvalCELRequest) (any, error) {
 	opt, ok := out.(*celtypes.Optional)
 	if ok {
 		if opt == celtypes.OptionalNone {
+			if req.OutType == nil {
+				return nil, nil
+			}
 			return reflect.Zero(req.OutType).Interface(), nil
 		}
 		out = opt.GetValue()
-- 
2.43.0


From 9677bdd661f4d4d6ad8eb1f92e20ffd20c295916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 04/33] fix: accept bytes in indexByte, lastIndexByte,
 isGraphic and isPrint

types.Bytes.Value() is a []byte, so the assertion to byte always panicked.
---
 grpc/federation/cel/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 8b7e164..1c3e962 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -178,7 +178,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("indexByte"),
 			OverloadFunc(createStringsID("indexByte_string_byte_int"), []*cel.Type{cel.StringType, cel.BytesType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.IndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().(byte)))
+					return types.Int(strings.IndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().([]byte)[0]))
 				},
 			),
 			OverloadFunc(createStringsID("indexByte_string_string_int"), []*cel.Type{cel.StringType, cel.StringType}, cel.IntType,
@@ -229,7 +229,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("lastIndexByte"),
 			OverloadFunc(createStringsID("lastIndexByte_string_byte_int"), []*cel.Type{cel.StringType, cel.BytesType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.LastIndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().(byte)))
+					return types.Int(strings.LastIndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().([]byte)[0]))
 				},
 			),
 			OverloadFunc(createStringsID("lastIndexByte_string_string_int"), []*cel.Type{cel.StringType, cel.StringType}, cel.IntType,
@@ -594,7 +594,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("isGraphic"),
 			OverloadFunc(createStringsID("isGraphic_byte_bool"), []*cel.Type{cel.BytesType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsGraphic(rune(args[0].(types.Bytes).Value().(byte))))
+					return types.Bool(strconv.IsGraphic(rune(args[0].(types.Bytes).Value().([]byte)[0])))
 				},
 			),
 			OverloadFunc(createStringsID("isGraphic_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
@@ -607,7 +607,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("isPrint"),
 			OverloadFunc(createStringsID("isPrint_byte_bool"), []*cel.Type{cel.BytesType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsPrint(rune(args[0].(types.Bytes).Value().(byte))))
+					return types.Bool(strconv.IsPrint(rune(args[0].(types.Bytes).Value().([]byte)[0])))
 				},
 			),
 			OverloadFunc(createStringsID("isPrint_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
-- 
2.43.0


From 7bf35c183a1398b9176ebd3596991c7c0f6af6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 05/33] fix: pass the first character, not its first byte, to
 the rune functions

---
 grpc/federation/cel/strings.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 1c3e962..4ba7587 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -454,12 +454,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRune"),
 			OverloadFunc(createStringsID("appendQuoteRune_bytes_int_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRune_string_int_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRune([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRune([]byte(args[0].(types.String).Value().(string)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -467,12 +467,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToASCII"),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRuneToASCII([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRuneToASCII([]byte(args[0].(types.String).Value().(string)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -480,12 +480,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRuneToGraphic([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRuneToGraphic([]byte(args[0].(types.String).Value().(string)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -599,7 +599,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			),
 			OverloadFunc(createStringsID("isGraphic_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsGraphic(rune(args[0].(types.String).Value().(string)[0])))
+					return types.Bool(strconv.IsGraphic([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -612,7 +612,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			),
 			OverloadFunc(createStringsID("isPrint_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsPrint(rune(args[0].(types.String).Value().(string)[0])))
+					return types.Bool(strconv.IsPrint([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -696,7 +696,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRune"),
 			OverloadFunc(createStringsID("quoteRune_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRune(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRune([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -704,7 +704,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRuneToASCII"),
 			OverloadFunc(createStringsID("quoteRuneToASCII_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRuneToASCII(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRuneToASCII([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -712,7 +712,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRuneToGraphic"),
 			OverloadFunc(createStringsID("quoteRuneToGraphic_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRuneToGraphic(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRuneToGraphic([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
-- 
2.43.0


From ab8898f5e52692c46f3f732bd484871c42eb0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:27 +0000
Subject: [PATCH 06/33] fix: do not append into the bytes value given to the
 append functions

The result shared the spare capacity of the argument, so a second append to
the same value changed the result of the first one.
---
 grpc/federation/cel/strings.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 4ba7587..12d9058 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -2,6 +2,7 @@ package cel
 
 import (
 	"context"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -402,7 +403,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendBool"),
 			OverloadFunc(createStringsID("appendBool_bytes_bool_bytes"), []*cel.Type{cel.BytesType, cel.BoolType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendBool(args[0].(types.Bytes).Value().([]byte), args[1].(types.Bool).Value().(bool)))
+					return types.Bytes(strconv.AppendBool(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Bool).Value().(bool)))
 				},
 			),
 			OverloadFunc(createStringsID("appendBool_string_bool_string"), []*cel.Type{cel.StringType, cel.BoolType}, cel.StringType,
@@ -415,7 +416,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendFloat"),
 			OverloadFunc(createStringsID("appendFloat_bytes_float64_string_int_int_bytes"), []*cel.Type{cel.BytesType, cel.DoubleType, cel.StringType, cel.IntType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendFloat(args[0].(types.Bytes).Value().([]byte), args[1].(types.Double).Value().(float64), args[2].(types.String).Value().(string)[0], int(args[3].(types.Int).Value().(int64)), int(args[4].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendFloat(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Double).Value().(float64), args[2].(types.String).Value().(string)[0], int(args[3].(types.Int).Value().(int64)), int(args[4].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendFloat_string_float64_int_string_int_string"), []*cel.Type{cel.StringType, cel.DoubleType, cel.StringType, cel.IntType, cel.IntType}, cel.StringType,
@@ -428,7 +429,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendInt"),
 			OverloadFunc(createStringsID("appendInt_bytes_int_int_bytes"), []*cel.Type{cel.BytesType, cel.IntType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendInt(args[0].(types.Bytes).Value().([]byte), args[1].(types.Int).Value().(int64), int(args[2].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendInt(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Int).Value().(int64), int(args[2].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendInt_string_int_int_string"), []*cel.Type{cel.StringType, cel.IntType, cel.IntType}, cel.StringType,
@@ -441,7 +442,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuote"),
 			OverloadFunc(createStringsID("appendQuote_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuote(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuote(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuote_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -454,7 +455,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRune"),
 			OverloadFunc(createStringsID("appendQuoteRune_bytes_int_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
+					return types.Bytes(strconv.AppendQuoteRune(slices.Clip(args[0].(types.Bytes).Value().([]byte)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRune_string_int_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -467,7 +468,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToASCII"),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
+					return types.Bytes(strconv.AppendQuoteRuneToASCII(slices.Clip(args[0].(types.Bytes).Value().([]byte)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -480,7 +481,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
+					return types.Bytes(strconv.AppendQuoteRuneToGraphic(slices.Clip(args[0].(types.Bytes).Value().([]byte)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -493,7 +494,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteToASCII"),
 			OverloadFunc(createStringsID("appendQuoteToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteToASCII(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuoteToASCII(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -506,7 +507,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteToGraphic(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuoteToGraphic(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -519,7 +520,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendUint"),
 			OverloadFunc(createStringsID("appendUint_bytes_uint_int_bytes"), []*cel.Type{cel.BytesType, cel.UintType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendUint(args[0].(types.Bytes).Value().([]byte), args[1].(types.Uint).Value().(uint64), int(args[2].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendUint(slices.Clip(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Uint).Value().(uint64), int(args[2].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendUint_string_uint_int_string"), []*cel.Type{cel.StringType, cel.UintType, cel.IntType}, cel.StringType,
-- 
2.43.0


From 66b8e4dd2b5cc0118879e75700f7cf0ed45b4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 07/33] fix: do not append into the bytes value given to
 appendFormat

---
 grpc/federation/cel/time.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel/time.go b/grpc/federation/cel/time.go
index 958134b..04bb7a0 100644
--- a/grpc/federation/cel/time.go
+++ b/grpc/federation/cel/time.go
@@ -2,6 +2,7 @@ package cel
 
 import (
 	"context"
+	"slices"
 	"time"
 
 	"github.com/google/cel-go/cel"
@@ -603,7 +604,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 					}
 					return types.Bytes(
 						v.AppendFormat(
-							[]byte(args[0].(types.Bytes)),
+							slices.Clip([]byte(args[0].(types.Bytes))),
 							string(args[1].(types.String)),
 						),
 					)
-- 
2.43.0


From b2e0978e4381ac7cb9e03218b7453069d240892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 08/33] fix: join path elements to a URL without escaping its
 path again

---
 grpc/federation/cel/url.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/grpc/federation/cel/url.go b/grpc/federation/cel/url.go
index fe3f14b..38f0fe2 100644
--- a/grpc/federation/cel/url.go
+++ b/grpc/federation/cel/url.go
@@ -344,13 +344,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 						paths = append(paths, string(pathElem.(types.String)))
 					}
 
-					var err error
-					v.Path, err = url.JoinPath(v.Path, paths...)
-					if err != nil {
-						return types.NewErr(err.Error())
-					}
-
-					return lib.toURLValue(v)
+					return lib.toURLValue(*v.JoinPath(paths...))
 				},
 			),
 		),
-- 
2.43.0


From c9e20815f216e98c474134a4ff55072aee3043f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 09/33] fix: report an enum.select alternative that is out of
 range instead of truncating it

---
 grpc/federation/cel/enum.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/cel/enum.go b/grpc/federation/cel/enum.go
index 71ae36f..7aef3fd 100644
--- a/grpc/federation/cel/enum.go
+++ b/grpc/federation/cel/enum.go
@@ -3,6 +3,7 @@ package cel
 import (
 	"context"
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/google/cel-go/cel"
@@ -41,8 +42,12 @@ func (lib *EnumLibrary) CompileOptions() []cel.EnvOption {
 							TrueSelector: sel,
 						}
 					} else {
+						v := args[1].(celtypes.Int)
+						if v < math.MinInt32 || v > math.MaxInt32 {
+							return celtypes.NewErr("%d is out of range of enum value", v)
+						}
 						ret.True = &EnumSelector_TrueValue{
-							TrueValue: int32(args[1].(celtypes.Int)), //nolint:gosec
+							TrueValue: int32(v),
 						}
 					}
 					if sel, ok := args[2].(*EnumSelector); ok {
@@ -50,8 +55,12 @@ func (lib *EnumLibrary) CompileOptions() []cel.EnvOption {
 							FalseSelector: sel,
 						}
 					} else {
+						v := args[2].(celtypes.Int)
+						if v < math.MinInt32 || v > math.MaxInt32 {
+							return celtypes.NewErr("%d is out of range of enum value", v)
+						}
 						ret.False = &EnumSelector_FalseValue{
-							FalseValue: int32(args[2].(celtypes.Int)), //nolint:gosec
+							FalseValue: int32(v),
 						}
 					}
 					return ret
-- 
2.43.0


From 712ee9c2b2e6cb3f66de838c64a3f22dad8fda01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 10/33] fix: do not truncate the number given to the name and
 attr functions of an enum

---
 grpc/federation/cel.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 48814fb..56b2f61 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -216,7 +217,11 @@ func EnumAccessorOptions(enumName string, nameToValue map[string]int32, valueToN
 			fmt.Sprintf("%s.name", enumName),
 			cel.Overload(fmt.Sprintf("%s_name_int_string", enumName), []*cel.Type{cel.IntType}, cel.StringType,
 				cel.UnaryBinding(func(self ref.Val) ref.Val {
-					return celtypes.String(valueToName[int32(self.(celtypes.Int))]) //nolint:gosec
+					v := self.(celtypes.Int)
+					if v < math.MinInt32 || v > math.MaxInt32 {
+						return celtypes.String("")
+					}
+					return celtypes.String(valueToName[int32(v)])
 				}),
 			),
 		),
@@ -248,8 +253,9 @@ func EnumAttrOption[T ~int32](enumName string, enumAttrMap EnumAttributeMap[T])
 		fmt.Sprintf("%s.attr", enumName),
 		cel.Overload(fmt.Sprintf("%s_attr", enumName), []*cel.Type{cel.IntType, cel.StringType}, cel.StringType,
 			cel.BinaryBinding(func(enumValue, key ref.Val) ref.Val {
-				enumValueAttrMap := enumAttrMap[T(enumValue.(celtypes.Int))]
-				if enumValueAttrMap == nil {
+				v := enumValue.(celtypes.Int)
+				enumValueAttrMap := enumAttrMap[T(v)]
+				if enumValueAttrMap == nil || v < math.MinInt32 || v > math.MaxInt32 {
 					return celtypes.NewErr(fmt.Sprintf(`could not find enum value attribute map from %q`, enumName))
 				}
 				return celtypes.String(enumValueAttrMap[string(key.(celtypes.String))])
-- 
2.43.0


From 9531c2fc040c15098afbaeb3f832acdfc0f874c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 11/33] fix: report a value bound to a field of another
 repetition

---
 resolver/resolver.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index d25fee1..af18739 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1582,6 +1582,18 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 		return
 	}
 	toType := toField.Type
+	if isDifferentRepetition(fromType, toType) {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(
+					`cannot convert type automatically: field type is %q but specified value type is %q`,
+					toType.FQDN(), fromType.FQDN(),
+				),
+				builder.Location(),
+			),
+		)
+		return
+	}
 	if toType.Kind == types.Message {
 		if fromType.Message == nil || toType.Message == nil {
 			return
@@ -1723,7 +1735,10 @@ func (r *Resolver) validateBindFieldEnumSelectorType(ctx *context, enumSelector
 		if field.Type.Kind == types.Message && field.Type.Message.IsEnumSelector() {
 			r.validateBindFieldEnumSelectorType(ctx, field.Type.Message, toField, builder)
 		} else {
-			r.validateBindFieldType(ctx, field.Type, toField, builder)
+			// a selector has the repetition of the field: it has already been validated.
+			fromType := field.Type.Clone()
+			fromType.Repeated = toField.Type.Repeated
+			r.validateBindFieldType(ctx, fromType, toField, builder)
 		}
 	}
 }
@@ -1733,6 +1748,18 @@ func (r *Resolver) validateBindFieldType(ctx *context, fromType *Type, toField *
 		return
 	}
 	toType := toField.Type
+	if isDifferentRepetition(fromType, toType) {
+		ctx.addError(
+			ErrWithLocation(
+				fmt.Sprintf(
+					`cannot convert type automatically: field type is %q but specified value type is %q`,
+					toType.FQDN(), fromType.FQDN(),
+				),
+				builder.Location(),
+			),
+		)
+		return
+	}
 	if fromType.Kind == types.Message {
 		if fromType.Message.IsEnumSelector() && toType.Kind == types.Enum {
 			r.validateBindFieldEnumSelectorType(ctx, fromType.Message, toField, builder)
@@ -5302,6 +5329,9 @@ func isDifferentType(from, to *Type) bool {
 	if from == nil || to == nil {
 		return false
 	}
+	if isDifferentRepetition(from, to) {
+		return true
+	}
 	if from.IsNumber() && to.IsNumber() {
 		return false
 	}
@@ -5315,6 +5345,13 @@ func isDifferentType(from, to *Type) bool {
 	return from.Kind != to.Kind
 }
 
+func isDifferentRepetition(from, to *Type) bool {
+	if from == nil || to == nil || from.IsNull {
+		return false
+	}
+	return from.Repeated != to.Repeated
+}
+
 func isExactlySameType(left, right *Type) bool {
 	if left == nil || right == nil {
 		return false
-- 
2.43.0


From b66ccfa8372f3b05f652633943cb1e1e37dc5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:46 +0000
Subject: [PATCH 12/33] fix: convert message fields from the field their alias
 names

---
 resolver/type_conversion.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 007adc5..6a01e6d 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -70,7 +70,7 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 		}
 		decls = append(decls, &TypeConversionDecl{From: fromType, To: toType})
 		for _, field := range toType.Message.Fields {
-			fromField := fromType.Message.Field(field.Name)
+			fromField := conversionSourceField(fromType.Message, field)
 			if fromField == nil {
 				continue
 			}
@@ -82,6 +82,19 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	return decls
 }
 
+// conversionSourceField returns the field of fromMsg whose value is assigned to toField
+// when fromMsg is converted to the message of toField.
+func conversionSourceField(fromMsg *Message, toField *Field) *Field {
+	if toField.HasRule() {
+		for _, alias := range toField.Rule.Aliases {
+			if alias.Message == fromMsg {
+				return alias
+			}
+		}
+	}
+	return fromMsg.Field(toField.Name)
+}
+
 func enumSelectorTypeConversionDecls(msg *Message, toType *Type, convertedFQDNMap map[string]struct{}) []*TypeConversionDecl {
 	var decls []*TypeConversionDecl
 	if msg.IsEnumSelector() {
-- 
2.43.0


From 223c42375009a44995d6782e51f5f60f6894ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:30 +0000
Subject: [PATCH 13/33] fix: declare the conversions of every enum selector
 bound to the same enum

---
 resolver/type_conversion.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 6a01e6d..7141648 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -21,11 +21,14 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 		return nil
 	}
 	decl := &TypeConversionDecl{From: fromType, To: toType}
-	fqdn := decl.FQDN()
-	if _, exists := convertedFQDNMap[fqdn]; exists {
-		return nil
+	if !fromType.IsEnumSelector() {
+		// every enum selector has the same name, whichever enums it selects from.
+		fqdn := decl.FQDN()
+		if _, exists := convertedFQDNMap[fqdn]; exists {
+			return nil
+		}
+		convertedFQDNMap[fqdn] = struct{}{}
 	}
-	convertedFQDNMap[fqdn] = struct{}{}
 	if fromType.Kind == types.Message && fromType.Message != nil && toType.Message != nil && fromType.Message.IsMapEntry {
 		// map type
 		fromMap := fromType.Message
-- 
2.43.0


From 625ec9aa0fa6e3affe427485001d1b951a08195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:41 +0000
Subject: [PATCH 14/33] fix: declare the conversions of message arguments
 inside a map

---
 resolver/message.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resolver/message.go b/resolver/message.go
index bb7ab5d..4ad633e 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -468,6 +468,10 @@ func (m *Message) TypeConversionDecls() []*TypeConversionDecl {
 		if def.Expr == nil {
 			continue
 		}
+		msgExpr := def.Expr.Message
+		if def.Expr.Map != nil && def.Expr.Map.Expr != nil {
+			msgExpr = def.Expr.Map.Expr.Message
+		}
 		switch {
 		case def.Expr.Call != nil:
 			callExpr := def.Expr.Call
@@ -487,10 +491,9 @@ func (m *Message) TypeConversionDecls() []*TypeConversionDecl {
 					decls = append(decls, typeConversionDecls(fromType, toType, convertedFQDNMap)...)
 				}
 			}
-		case def.Expr.Message != nil:
+		case msgExpr != nil:
 			// For numeric types, the specification allows accepting them even if the type of the message argument differs.
 			// In such cases, since the actual message argument type may differ, additional type conversion is necessary.
-			msgExpr := def.Expr.Message
 			if msgExpr.Message != nil && msgExpr.Message.Rule != nil {
 				msgArg := msgExpr.Message.Rule.MessageArgument
 				for _, arg := range msgExpr.Args {
-- 
2.43.0


From 77bdfc7b5825796c6b5bf7b0848a582e43ca8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 15/33] fix: convert a member of a oneof to a field outside any
 oneof

---
 generator/code_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 4280748..020353b 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2003,7 +2003,7 @@ func (f *CastField) IsSlice() bool {
 }
 
 func (f *CastField) IsOneof() bool {
-	return f.fromType.OneofField != nil
+	return f.fromType.OneofField != nil && f.toType.OneofField != nil
 }
 
 func (f *CastField) IsStruct() bool {
-- 
2.43.0


From 64a70f33295adacec7c12986190ea9a62c7d9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 16/33] fix: report a value without fields bound to a message
 or enum field of a request

---
 resolver/resolver.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index af18739..820d0fb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1582,7 +1582,7 @@ func (r *Resolver) validateRequestFieldType(ctx *context, fromType *Type, toFiel
 		return
 	}
 	toType := toField.Type
-	if isDifferentRepetition(fromType, toType) {
+	if isDifferentRepetition(fromType, toType) || isDifferentRequestType(fromType, toType) {
 		ctx.addError(
 			ErrWithLocation(
 				fmt.Sprintf(
@@ -5352,6 +5352,21 @@ func isDifferentRepetition(from, to *Type) bool {
 	return from.Repeated != to.Repeated
 }
 
+// isDifferentRequestType reports whether a value that has no message or enum is bound to a message or enum field.
+// A number and an enum selector can be converted to enum.
+func isDifferentRequestType(from, to *Type) bool {
+	if from.IsNull && (to.Repeated || to.Kind == types.Message) {
+		return false
+	}
+	switch to.Kind {
+	case types.Message:
+		return from.Kind != types.Message
+	case types.Enum:
+		return from.Kind != types.Enum && !from.IsNumber() && !from.Message.IsEnumSelector()
+	}
+	return false
+}
+
 func isExactlySameType(left, right *Type) bool {
 	if left == nil || right == nil {
 		return false
-- 
2.43.0


From a8e15a47e2c81fe5828d84074401cddd954a65e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 17/33] fix: report an enum bound to a field that is neither an
 enum nor a number

---
 resolver/resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index 820d0fb..cbf0247 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -1820,7 +1820,7 @@ func (r *Resolver) validateBindFieldType(ctx *context, fromType *Type, toField *
 			return
 		}
 	}
-	if fromType.Kind == types.Enum {
+	if fromType.Kind == types.Enum && toType.Kind == types.Enum {
 		if fromType.Enum == nil || toType.Enum == nil {
 			return
 		}
-- 
2.43.0


From 0131b704d82938ecb2bcb05856734f92f23490fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:51 +0000
Subject: [PATCH 18/33] fix: declare the conversions of the fields of a
 response given by the method option

---
 generator/code_generator.go | 10 ++++++++++
 resolver/method.go          | 13 +++++++++++++
 resolver/type_conversion.go |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 020353b..d53854f 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3617,6 +3617,16 @@ func (s *Service) CastFields() []*CastField {
 			toType:   toType,
 			file:     s.file,
 		}
+		for _, decl := range mtd.TypeConversionDecls() {
+			fnName := castFuncName(decl.From, decl.To)
+			castFieldMap[fnName] = &CastField{
+				Name:     fnName,
+				service:  s.Service,
+				fromType: decl.From,
+				toType:   decl.To,
+				file:     s.file,
+			}
+		}
 	}
 	for _, msg := range s.Service.Messages {
 		for _, decl := range msg.TypeConversionDecls() {
diff --git a/resolver/method.go b/resolver/method.go
index 4396b0e..bf41677 100644
--- a/resolver/method.go
+++ b/resolver/method.go
@@ -6,3 +6,16 @@ func (m *Method) FederationResponse() *Message {
 	}
 	return m.Response
 }
+
+// TypeConversionDecls returns the conversions required to convert the federation response to the response of the method.
+func (m *Method) TypeConversionDecls() []*TypeConversionDecl {
+	if m.Rule == nil || m.Rule.Response == nil {
+		return nil
+	}
+	decls := typeConversionDecls(
+		NewMessageType(m.Rule.Response, false),
+		NewMessageType(m.Response, false),
+		make(map[string]struct{}),
+	)
+	return sortTypeConversionDecls(uniqueTypeConversionDecls(decls))
+}
diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 7141648..b832730 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -20,6 +20,10 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	if !requiredTypeConversion(fromType, toType) {
 		return nil
 	}
+	if fromType.Kind == types.Message && toType.Kind != types.Message && !fromType.IsEnumSelector() {
+		// a message cannot be converted to a value without fields.
+		return nil
+	}
 	decl := &TypeConversionDecl{From: fromType, To: toType}
 	if !fromType.IsEnumSelector() {
 		// every enum selector has the same name, whichever enums it selects from.
-- 
2.43.0


From 6e3067d9f6c1960698cc2d7c129c9f2d7645c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:51 +0000
Subject: [PATCH 19/33] fix: report an enum value that has multiple aliases
 when it is converted to the dependent enum

---
 generator/code_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index d53854f..d3ff3ac 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2180,13 +2180,15 @@ func (f *CastField) toEnumFromServiceToDepService(enum, depSvcEnum *resolver.Enu
 		if value.Rule == nil {
 			continue
 		}
+		var found bool
 		for _, enumValueAlias := range value.Rule.Aliases {
 			if enumValueAlias.EnumAlias != depSvcEnum {
 				continue
 			}
-			if len(enumValueAlias.Aliases) != 1 {
+			if found || len(enumValueAlias.Aliases) != 1 {
 				return nil, fmt.Errorf("found multiple aliases are set. the conversion destination cannot be uniquely determined")
 			}
+			found = true
 			depEnumValue := enumValueAlias.Aliases[0]
 			enumValues = append(enumValues, &CastEnumValue{
 				FromValue: toEnumValueText(svcEnumName, value.Value),
-- 
2.43.0


From 5dc0b051ee1c240bed1ce07f7e91a15ef4dc0777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 20/33] fix: use the alias tables of the enum that declares the
 other as its alias

---
 generator/code_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index d3ff3ac..9532026 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -8,6 +8,7 @@ import (
 	"go/format"
 	"log"
 	"log/slog"
+	"slices"
 	"sort"
 	"strings"
 	"text/template"
@@ -2099,11 +2100,11 @@ func (f *CastField) CastOneofWrapper() *CastOneofWrapper {
 
 func (f *CastField) ToEnum() (*CastEnum, error) {
 	toEnum := f.toType.Enum
-	if toEnum.Rule != nil && len(toEnum.Rule.Aliases) != 0 {
+	if toEnum.Rule != nil && slices.Contains(toEnum.Rule.Aliases, f.fromType.Enum) {
 		return f.toEnumFromDepServiceToService(toEnum, f.fromType.Enum), nil
 	}
 	fromEnum := f.fromType.Enum
-	if fromEnum.Rule != nil && len(fromEnum.Rule.Aliases) != 0 {
+	if fromEnum.Rule != nil && slices.Contains(fromEnum.Rule.Aliases, toEnum) {
 		// the type conversion is performed at the time of gRPC method call.
 		return f.toEnumFromServiceToDepService(fromEnum, f.toType.Enum)
 	}
-- 
2.43.0


From ce896e0f2441dcdf824d02283ef17e9529c4352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 21/33] fix: convert the values of enums without alias by their
 names

---
 generator/code_generator.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 9532026..72e12b6 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2112,9 +2112,6 @@ func (f *CastField) ToEnum() (*CastEnum, error) {
 	fromEnumName := toEnumValuePrefix(f.file, f.fromType)
 	var enumValues []*CastEnumValue
 	for _, toValue := range toEnum.Values {
-		if toValue.Rule == nil {
-			continue
-		}
 		fromValue := fromEnum.Value(toValue.Value)
 		if fromValue == nil {
 			continue
-- 
2.43.0


From c698891fae0ee058c8e3e8173df615f71ef4dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:32 +0000
Subject: [PATCH 22/33] fix: report the references of the message and the
 response of an error

---
 resolver/def.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 76ba0a4..8dc9278 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -235,6 +235,8 @@ func (e *VariableExpr) ReferenceNames() []string {
 // ReferenceNames returns all the unique reference names in the error definition.
 func (e *GRPCError) ReferenceNames() []string {
 	names := e.If.ReferenceNames()
+	names = append(names, e.Message.ReferenceNames()...)
+	names = append(names, e.IgnoreAndResponse.ReferenceNames()...)
 	for _, def := range e.DefSet.Definitions() {
 		names = append(names, def.ReferenceNames()...)
 	}
-- 
2.43.0


From 67e62f8825e8dc6edae143420b30b5c3998c6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:32 +0000
Subject: [PATCH 23/33] fix: report the references of the conditions of a
 request field and of a retry

---
 resolver/def.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 8dc9278..0a96da8 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -283,6 +283,10 @@ func (e *CallExpr) ReferenceNames() []string {
 	var names []string
 	for _, arg := range e.Request.Args {
 		names = append(names, arg.Value.ReferenceNames()...)
+		names = append(names, arg.If.ReferenceNames()...)
+	}
+	if e.Retry != nil {
+		names = append(names, e.Retry.If.ReferenceNames()...)
 	}
 	for _, grpcErr := range e.Errors {
 		names = append(names, grpcErr.ReferenceNames()...)
-- 
2.43.0


From 71d4baab56b924eecd928862c94ce82000ba053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 24/33] fix: report the references of the enum of a map

---
 resolver/def.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 0a96da8..5413fe3 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -323,6 +323,8 @@ func (e *MapIteratorExpr) ReferenceNames() []string {
 		names = append(names, e.By.ReferenceNames()...)
 	case e.Message != nil:
 		names = append(names, e.Message.ReferenceNames()...)
+	case e.Enum != nil:
+		names = append(names, e.Enum.ReferenceNames()...)
 	}
 	return toUniqueReferenceNames(names)
 }
-- 
2.43.0


From ecf0ba8cf2c1bbd0a95fc4dbf82b8786bad6916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:11 +0000
Subject: [PATCH 25/33] fix: return an error with an enum that needs no
 conversion

---
 generator/code_generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 72e12b6..ab1d917 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3207,10 +3207,10 @@ func (d *VariableDefinition) Type() string {
 func (d *VariableDefinition) EnumCastFunc() string {
 	typ := d.Enum().By.Out
 	if typ == nil {
-		return "v"
+		return "v, nil"
 	}
 	if typ.Enum == d.VariableDefinition.Expr.Type.Enum {
-		return "v"
+		return "v, nil"
 	}
 	return fmt.Sprintf("s.%s(v)",
 		castFuncName(
@@ -3288,12 +3288,12 @@ func (r *MapResolver) EnumCastFunc() (string, error) {
 	}
 	typ := enumExpr.By.Out
 	if typ == nil {
-		return "v", nil
+		return "v, nil", nil
 	}
 	outType := r.MapExpr.Expr.Type.Clone()
 	outType.Repeated = false
 	if typ.Enum == outType.Enum {
-		return "v", nil
+		return "v, nil", nil
 	}
 	return fmt.Sprintf("s.%s(v)",
 		castFuncName(
-- 
2.43.0


From b1cda3646fddd3fa6cb2abfcc6e48333f157892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 26/33] fix: a definition whose expression has an iterator of
 the same name does not depend on itself

---
 resolver/graph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver/graph.go b/resolver/graph.go
index 31e3489..0a1cc34 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -352,6 +352,10 @@ func setupVariableDependencyByReferenceName(nodes []*MessageDependencyGraphNode)
 				// not found name in current scope.
 				continue
 			}
+			if refNode == node {
+				// the name of the definition in its own expression is that of another variable, such as an iterator.
+				continue
+			}
 			if _, exists := refNode.ChildrenMap[node]; !exists {
 				refNode.Children = append(refNode.Children, node)
 				refNode.ChildrenMap[node] = struct{}{}
-- 
2.43.0


From 0cc7e642a7d0fb88d8fc48bb089ecafb0b3339eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:41 +0000
Subject: [PATCH 27/33] fix: report cyclic dependencies between messages that
 no other message depends on

---
 resolver/graph.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 0a1cc34..4d3ae7f 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -31,7 +31,7 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 			roots = append(roots, node)
 		}
 	}
-	if len(roots) == 0 {
+	if len(msgToNode) == 0 {
 		return nil
 	}
 	sort.Slice(roots, func(i, j int) bool {
@@ -42,9 +42,37 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		ctx.addError(err)
 		return nil
 	}
+	// a message that no root leads to is on a cycle or below one.
+	reached := make(map[*AllMessageDependencyGraphNode]struct{})
+	for _, root := range roots {
+		root.reach(reached)
+	}
+	for _, msg := range msgs {
+		node, exists := msgToNode[msg]
+		if !exists {
+			continue
+		}
+		if _, exists := reached[node]; exists {
+			continue
+		}
+		if err := validateAllMessageGraphNode(node); err != nil {
+			ctx.addError(err)
+			return nil
+		}
+	}
 	return graph
 }
 
+func (n *AllMessageDependencyGraphNode) reach(reached map[*AllMessageDependencyGraphNode]struct{}) {
+	if _, exists := reached[n]; exists {
+		return
+	}
+	reached[n] = struct{}{}
+	for _, child := range n.Children {
+		child.reach(reached)
+	}
+}
+
 func (n *AllMessageDependencyGraphNode) childMessages() []*Message {
 	messages := []*Message{n.Message}
 	for _, child := range n.Children {
-- 
2.43.0


From 5c225c1c8e9a925158961098c13038a48d73591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 28/33] fix: visit the keys of a map literal

---
 grpc/federation/cel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 56b2f61..6e46dc4 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -1075,6 +1075,7 @@ func (v *exprVisitor) visitList(e *exprpb.Expr) {
 func (v *exprVisitor) visitStruct(e *exprpb.Expr) {
 	msg := e.GetStructExpr()
 	for _, ent := range msg.GetEntries() {
+		v.visit(ent.GetMapKey())
 		v.visit(ent.GetValue())
 	}
 }
-- 
2.43.0


From 1d7186e520e290cf9b77b970e83b21792bc30a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 29/33] fix: find the identifiers of comprehensions and of the
 operand of a selection

---
 grpc/federation/cel/conv.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grpc/federation/cel/conv.go b/grpc/federation/cel/conv.go
index 26ad801..bad0ffb 100644
--- a/grpc/federation/cel/conv.go
+++ b/grpc/federation/cel/conv.go
@@ -24,7 +24,19 @@ func ToIdentifiers(expr ast.Expr) []string {
 			idents = append(idents, toEntryNames(entry)...)
 		}
 	case ast.SelectKind:
+		root := expr
+		for root.Kind() == ast.SelectKind {
+			root = root.AsSelect().Operand()
+		}
+		if root.Kind() != ast.IdentKind {
+			return ToIdentifiers(root)
+		}
 		idents = append(idents, toSelectorName(expr))
+	case ast.ComprehensionKind:
+		comp := expr.AsComprehension()
+		for _, e := range []ast.Expr{comp.IterRange(), comp.AccuInit(), comp.LoopCondition(), comp.LoopStep(), comp.Result()} {
+			idents = append(idents, ToIdentifiers(e)...)
+		}
 	case ast.StructKind:
 		idents = append(idents, expr.AsStruct().TypeName())
 		for _, field := range expr.AsStruct().Fields() {
-- 
2.43.0


From 023a77626ec93ac090b13c05654a8d15f9a02b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:44 +0000
Subject: [PATCH 30/33] fix: schedule the definitions of errors in oneof fields

---
 resolver/def.go      | 21 +++++++++++++++++++++
 resolver/message.go  | 17 ++---------------
 resolver/resolver.go | 38 +++++++++++++++++++++-----------------
 3 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/resolver/def.go b/resolver/def.go
index 5413fe3..5494942 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -25,6 +25,27 @@ func (set *VariableDefinitionSet) DependencyGraph() *MessageDependencyGraph {
 	return set.Graph
 }
 
+// errorDefinitionGroups returns the groups of the definitions in the errors of calls and validations.
+func (set *VariableDefinitionSet) errorDefinitionGroups() []VariableDefinitionGroup {
+	var ret []VariableDefinitionGroup
+	for _, def := range set.Definitions() {
+		if def.Expr == nil {
+			continue
+		}
+		switch {
+		case def.Expr.Call != nil:
+			for _, err := range def.Expr.Call.Errors {
+				ret = append(ret, err.DefinitionGroups()...)
+			}
+		case def.Expr.Validation != nil:
+			if def.Expr.Validation.Error != nil {
+				ret = append(ret, def.Expr.Validation.Error.DefinitionGroups()...)
+			}
+		}
+	}
+	return ret
+}
+
 func (e *GRPCError) DefinitionGroups() []VariableDefinitionGroup {
 	var ret []VariableDefinitionGroup
 	if e.DefSet != nil {
diff --git a/resolver/message.go b/resolver/message.go
index 4ad633e..744c541 100644
--- a/resolver/message.go
+++ b/resolver/message.go
@@ -154,21 +154,7 @@ func (m *Message) VariableDefinitionGroups() []VariableDefinitionGroup {
 	}
 
 	ret := m.Rule.DefSet.DefinitionGroups()
-	for _, def := range m.Rule.DefSet.Definitions() {
-		if def.Expr == nil {
-			continue
-		}
-		switch {
-		case def.Expr.Call != nil:
-			for _, err := range def.Expr.Call.Errors {
-				ret = append(ret, err.DefinitionGroups()...)
-			}
-		case def.Expr.Validation != nil:
-			if def.Expr.Validation.Error != nil {
-				ret = append(ret, def.Expr.Validation.Error.DefinitionGroups()...)
-			}
-		}
-	}
+	ret = append(ret, m.Rule.DefSet.errorDefinitionGroups()...)
 	for _, field := range m.Fields {
 		if field.Rule == nil {
 			continue
@@ -177,6 +163,7 @@ func (m *Message) VariableDefinitionGroups() []VariableDefinitionGroup {
 			continue
 		}
 		ret = append(ret, field.Rule.Oneof.DefSet.DefinitionGroups()...)
+		ret = append(ret, field.Rule.Oneof.DefSet.errorDefinitionGroups()...)
 	}
 	return ret
 }
diff --git a/resolver/resolver.go b/resolver/resolver.go
index cbf0247..89beca4 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -5102,22 +5102,7 @@ func (r *Resolver) resolveMessageDependencies(ctx *context, files []*File) {
 		if msg.Rule == nil {
 			continue
 		}
-		setupVariableDefinitionSet(ctx, msg, msg.Rule.DefSet)
-		for defIdx, def := range msg.Rule.DefSet.Definitions() {
-			ctx := ctx.withDefIndex(defIdx)
-			expr := def.Expr
-			if expr == nil {
-				continue
-			}
-			switch {
-			case expr.Call != nil:
-				for _, grpcErr := range expr.Call.Errors {
-					r.resolveGRPCErrorMessageDependencies(ctx, msg, grpcErr)
-				}
-			case expr.Validation != nil:
-				r.resolveGRPCErrorMessageDependencies(ctx, msg, expr.Validation.Error)
-			}
-		}
+		r.resolveDefinitionSetDependencies(ctx, msg, msg.Rule.DefSet)
 		for _, field := range msg.Fields {
 			if field.Rule == nil {
 				continue
@@ -5125,12 +5110,31 @@ func (r *Resolver) resolveMessageDependencies(ctx *context, files []*File) {
 			if field.Rule.Oneof == nil {
 				continue
 			}
-			setupVariableDefinitionSet(ctx, msg, field.Rule.Oneof.DefSet)
+			r.resolveDefinitionSetDependencies(ctx, msg, field.Rule.Oneof.DefSet)
 		}
 	}
 	r.validateMessages(ctx, msgs)
 }
 
+func (r *Resolver) resolveDefinitionSetDependencies(ctx *context, msg *Message, defSet *VariableDefinitionSet) {
+	setupVariableDefinitionSet(ctx, msg, defSet)
+	for defIdx, def := range defSet.Definitions() {
+		ctx := ctx.withDefIndex(defIdx)
+		expr := def.Expr
+		if expr == nil {
+			continue
+		}
+		switch {
+		case expr.Call != nil:
+			for _, grpcErr := range expr.Call.Errors {
+				r.resolveGRPCErrorMessageDependencies(ctx, msg, grpcErr)
+			}
+		case expr.Validation != nil:
+			r.resolveGRPCErrorMessageDependencies(ctx, msg, expr.Validation.Error)
+		}
+	}
+}
+
 func (r *Resolver) resolveGRPCErrorMessageDependencies(ctx *context, msg *Message, grpcErr *GRPCError) {
 	if grpcErr == nil {
 		return
-- 
2.43.0


From a7df8831fc4611562d986955d149f9bf81a99c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 31/33] fix: pass the repeated fields of messages to plugins

---
 grpc/federation/cel/plugin.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index a3a2203..bf2da56 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -11,12 +11,12 @@ import (
 	"io"
 	"os"
 	"path/filepath"
-	"reflect"
 	"sync"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
+	"github.com/google/cel-go/common/types/traits"
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/imports/wasi_snapshot_preview1"
 	"google.golang.org/grpc/metadata"
@@ -401,13 +401,19 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 	switch typ.Kind() {
 	case types.ListKind:
 		elemType := typ.Parameters()[0]
-		slice := reflect.ValueOf(v.Value())
+		lister, ok := v.(traits.Lister)
+		if !ok {
+			return nil, fmt.Errorf("failed to convert %T to CEL list value", v)
+		}
+		size, ok := lister.Size().(types.Int)
+		if !ok {
+			return nil, fmt.Errorf("failed to get the size of %T", v)
+		}
 		list := &plugin.CELPluginListValue{}
-		for idx := 0; idx < slice.Len(); idx++ {
-			src := slice.Index(idx).Interface()
-			val := i.celRegistry.NativeToValue(src)
+		for idx := types.Int(0); idx < size; idx++ {
+			val := lister.Get(idx)
 			if types.IsError(val) {
-				return nil, fmt.Errorf("failed to convert %T to CEL value: %v", src, val.Value())
+				return nil, fmt.Errorf("failed to convert list element to CEL value: %v", val.Value())
 			}
 			value, err := i.refToCELPluginValue(elemType, val)
 			if err != nil {
-- 
2.43.0


From dd4f426f07ff42f8f5e7a69d5cf79579dc6af831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:25 +0000
Subject: [PATCH 32/33] fix: report integers a plugin function cannot take

---
 grpc/federation/cel_plugin.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/cel_plugin.go b/grpc/federation/cel_plugin.go
index 2932231..087a634 100644
--- a/grpc/federation/cel_plugin.go
+++ b/grpc/federation/cel_plugin.go
@@ -60,13 +60,17 @@ func ToFloat64List(v *celplugin.CELPluginValue) ([]float64, error) {
 }
 
 func ToInt32(v *celplugin.CELPluginValue) (int32, error) {
-	return int32(v.GetInt64()), nil //nolint:gosec
+	return Int64ToInt32(v.GetInt64())
 }
 
 func ToInt32List(v *celplugin.CELPluginValue) ([]int32, error) {
 	ret := make([]int32, 0, len(v.GetList().GetValues()))
 	for _, vv := range v.GetList().GetValues() {
-		ret = append(ret, int32(vv.GetInt64())) //nolint:gosec
+		i32, err := Int64ToInt32(vv.GetInt64())
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, i32)
 	}
 	return ret, nil
 }
@@ -84,13 +88,17 @@ func ToInt64List(v *celplugin.CELPluginValue) ([]int64, error) {
 }
 
 func ToUint32(v *celplugin.CELPluginValue) (uint32, error) {
-	return uint32(v.GetUint64()), nil //nolint:gosec
+	return Uint64ToUint32(v.GetUint64())
 }
 
 func ToUint32List(v *celplugin.CELPluginValue) ([]uint32, error) {
 	ret := make([]uint32, 0, len(v.GetList().GetValues()))
 	for _, vv := range v.GetList().GetValues() {
-		ret = append(ret, uint32(vv.GetUint64())) //nolint:gosec
+		u32, err := Uint64ToUint32(vv.GetUint64())
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, u32)
 	}
 	return ret, nil
 }
@@ -144,13 +152,21 @@ func ToBoolList(v *celplugin.CELPluginValue) ([]bool, error) {
 }
 
 func ToEnum[T ~int32](v *celplugin.CELPluginValue) (T, error) {
-	return T(v.GetInt64()), nil
+	i32, err := Int64ToInt32(v.GetInt64())
+	if err != nil {
+		return 0, err
+	}
+	return T(i32), nil
 }
 
 func ToEnumList[T ~int32](v *celplugin.CELPluginValue) ([]T, error) {
 	ret := make([]T, 0, len(v.GetList().GetValues()))
 	for _, vv := range v.GetList().GetValues() {
-		ret = append(ret, T(vv.GetInt64()))
+		i32, err := Int64ToInt32(vv.GetInt64())
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, T(i32))
 	}
 	return ret, nil
 }
-- 
2.43.0


From 4888519cac51be477f9a67bfbc703fffcc8fb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:28 +0000
Subject: [PATCH 33/33] fix: keep the text of a plugin's error

Error texts were used as format strings, which mangles those with a %.
---
 grpc/federation/cel/plugin.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index bf2da56..062dba4 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -319,7 +319,7 @@ func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metada
 	defer i.mu.Unlock()
 
 	if err := i.sendRequest(fn, md, args...); err != nil {
-		return types.NewErr(err.Error())
+		return types.NewErrFromString(err.Error())
 	}
 	return i.recvResponse(fn)
 }
@@ -353,15 +353,15 @@ func (i *CELPluginInstance) sendRequest(fn *CELFunction, md metadata.MD, args ..
 func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 	content, err := i.recvContent()
 	if err != nil {
-		return types.NewErr(err.Error())
+		return types.NewErrFromString(err.Error())
 	}
 
 	var res plugin.CELPluginResponse
 	if err := protojson.Unmarshal([]byte(content), &res); err != nil {
-		return types.NewErr(fmt.Sprintf("grpc-federation: failed to decode response: %s", err.Error()))
+		return types.NewErr("grpc-federation: failed to decode response: %s", err.Error())
 	}
 	if res.Error != "" {
-		return types.NewErr(res.Error)
+		return types.NewErrFromString(res.Error)
 	}
 	return i.celPluginValueToRef(fn, fn.Return, res.Value)
 }
@@ -515,7 +515,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 	case types.DoubleKind:
 		return types.Double(v.GetDouble())
 	case types.ErrorKind:
-		return types.NewErr(v.GetString_())
+		return types.NewErrFromString(v.GetString_())
 	case types.IntKind:
 		return types.Int(v.GetInt64())
 	case types.StringKind:
-- 
2.43.0

