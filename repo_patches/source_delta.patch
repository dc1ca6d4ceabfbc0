From 1c6fa94da8383f21ccdfda38d021b0cab187bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 001/122] fix: Vector: growth from capacity 0/1, stale slot
 after shift(), uninitialised slots after resize()

---
 src/cxy/stdlib/vector.cxy | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 43f8daf..e954946 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -17,7 +17,7 @@ pub class Vector[T] {
 
     - func grow() {
         if (_size >= _capacity) {
-            _capacity += (_capacity / 2)
+            _capacity += (_capacity / 2) + 1
             _data = <^T> realloc(_data !: ^void, elemSize() * _capacity)
            #if (T.isDestructible) {
                memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
@@ -59,6 +59,10 @@ pub class Vector[T] {
         var tmp = _data;
         _size--
         memmove(tmp, ptroff!(tmp + 1), elemSize() * _size)
+        #if (T.isDestructible) {
+            // the vacated slot still aliases the last element
+            memset(ptroff!(tmp + _size), 0, elemSize())
+        }
         return item
     }
 
@@ -70,6 +74,10 @@ pub class Vector[T] {
             _size = newSize
         }
         _data = <^T> realloc(_data !: ^void, elemSize() * newSize)
+        #if (T.isDestructible) {
+            if (newSize > _size)
+                memset(ptroff!(_data + _size), 0, elemSize() * (newSize - _size))
+        }
        _capacity = newSize;
     }
 
-- 
2.43.0


From 633d4b07b067222f4bfbd6e5292fb51773b2bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 002/122] fix: HashMap/HashSet.map() never advanced its index
 and looped forever

---
 src/cxy/stdlib/hash.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f36521f..68bcdec 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -318,6 +318,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
+                i++
             }
             return output
         }
@@ -373,6 +374,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
+                i++
             }
             return output
         }
-- 
2.43.0


From d4aa3dd593bcca68ce33d1e865d1d7a302d4fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:10 +0000
Subject: [PATCH 003/122] fix: a by-value parameter moved on only some paths
 was never dropped on the others

---
 src/cxy/lang/middle/mem/manage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..83e228d 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -189,7 +189,8 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // a parameter is always initialised by the caller and owned by the callee
+    bool drop = nodeIs(var, FuncParamDecl) || var->varDecl.init != NULL;
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
-- 
2.43.0


From faffa1e1cffdfb22c7cfe9550c44fd37fd48abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 004/122] fix: a cast of a parenthesised or unary literal
 aborted the compiler; char casts read the literal after retagging it

---
 src/cxy/lang/middle/sema/cast.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..7d2b008 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -48,8 +48,15 @@ static void castIntegerLiteral(const Type *to, AstNode *expr)
 
 static void castLiteral(TypingContext *ctx, AstNode *node)
 {
-    if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
-        AstNode *expr = node->castExpr.expr;
+    AstNode *expr = node->castExpr.expr;
+    while (nodeIs(expr, GroupExpr))
+        expr = expr->groupExpr.expr;
+
+    // anything else (e.g. `-x`, `!x`) is left to be casted at runtime
+    if ((nodeIs(expr, IntegerLit) || nodeIs(expr, FloatLit) ||
+         nodeIs(expr, CharLit) || nodeIs(expr, BoolLit) ||
+         isEnumLiteral(expr)) &&
+        typeIs(node->type, Primitive)) {
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
@@ -101,8 +108,10 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
             replaceAstNodeWith(node, expr);
         }
         else if (isCharacterType(node->type)) {
+            expr->charLiteral.value =
+                isEnumLiteral(expr) ? (u32)getEnumLiteralValue(expr)
+                                    : (u32)nodeGetNumericLiteral(expr);
             expr->tag = astCharLit;
-            expr->charLiteral.value = (i32)nodeGetNumericLiteral(expr);
             if (node->primitiveType.id == prtCChar)
                 expr->charLiteral.value = (u8)expr->charLiteral.value;
             replaceAstNodeWith(node, expr);
-- 
2.43.0


From 4a01c2459a09b1ed607811359ac1b1c74a50cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 005/122] fix: character literals ' and non-ASCII ones were
 emitted as invalid or implementation-defined C

---
 src/cxy/core/format.c             | 3 +++
 src/cxy/lang/backend/c/generate.c | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxy/core/format.c b/src/cxy/core/format.c
index f10a767..c39ad89 100644
--- a/src/cxy/core/format.c
+++ b/src/cxy/core/format.c
@@ -431,6 +431,9 @@ void printUtf8(FormatState *state, uint32_t chr, bool escaped)
         case '\"':
             writeStr(state, "\\\"");
             return;
+        case '\'':
+            writeStr(state, "\\'");
+            return;
         case '\\':
             writeStr(state, "\\\\");
             return;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..bc228c0 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -781,10 +781,12 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
+    if (node->charLiteral.value >= 0x80) {
+        // C has no portable spelling for these, use the code point instead
         format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
+               node->type->primitive.id == prtCChar ? "((char){u32})"
+                                                    : "{u32}u",
+               (FormatArg[]){{.u32 = node->charLiteral.value}});
     }
     else {
         format(getState(ctx),
-- 
2.43.0


From 69f6b9123973568e2bbaec1ba7f74b178b516d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 006/122] fix: range-for over a derived class ignored the
 class's own `..` operator

---
 src/cxy/lang/middle/sema/for.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index da96f7f..dc9655d 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -18,12 +18,15 @@ static const Type *findCustomRange(TypingContext *ctx,
         rangeOp = matchOverloadedFunction(
             ctx->L, rangeOp, (const Type *[]){}, 0, loc, flags & flgConst);
     }
+    if (rangeOp)
+        return rangeOp;
+
     type = getTypeBase(type);
     if (type) {
         return findCustomRange(ctx, type, loc, flags);
     }
 
-    return rangeOp;
+    return NULL;
 }
 
 static const Type *findIteratorType(TypingContext *ctx, AstNode *range)
-- 
2.43.0


From a367725b1919e2c061b86eaeebbb0526b8a38ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 007/122] fix: hash_fnv1a_bytes skipped the last byte and ran
 away on an empty buffer

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..bfa91d4 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -321,7 +321,7 @@ pub func hash_fnv1a_bytes(h: HashCode,
                          size: u64)
 {
     const p = ptr !: ^const u8;
-    for (const i: 0..size-1)
+    for (const i: 0..size)
         h = hash_fnv1a_uint8(h, p.[i]);
     return h
 }
-- 
2.43.0


From 14b06efb3587642779443b565eb608b9bb2e6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 008/122] fix: __string comparison stopped at an embedded NUL

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index bfa91d4..6d7d0ac 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -427,7 +427,7 @@ pub struct __string {
 
     const func compare(other: &This) {
         if (_size == other._size)
-            return strncmp(this.s, other.s, _size)
+            return _size? memcmp(this.s !: ^const void, other.s !: ^const void, _size) : 0
         else if (_size < other._size)
             return -1
         else
-- 
2.43.0


From d3143abf112a274554f270a2a7d9f321bf83980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 009/122] fix: __string.toi/tof parsed past the end of a view

---
 src/cxy/runtime/builtins.cxy | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 6d7d0ac..24902a3 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -471,13 +471,17 @@ pub struct __string {
     const func toi[T](base: i32 = 0) {
         require!(T.isInteger, "type '{t}' unsupported by `__string.toi`", #T)
         var ep: ^const char = null;
-        return <T>strtoll(s !: ^const char, ptrof ep, base);
+        // this could be a view into a longer string
+        var tmp = String(data(), _size);
+        return <T>(_size? strtoll(tmp.data(), ptrof ep, base) : 0);
     }
 
     const func tof[T]() {
         require!(T.isFloat, "type '{t}' unsupported by `__string.tof`", #T)
         var ep: ^const char = null;
-        return <T>strtod(s !: ^const char, ptrof ep);
+        // this could be a view into a longer string
+        var tmp = String(data(), _size);
+        return <T>(_size? strtod(tmp.data(), ptrof ep) : 0);
     }
 
     const func indexOf(ch: char) : Optional[u64] {
-- 
2.43.0


From beff949f9fc5762da30f8439e2c16ff8b8c33a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 010/122] fix: rIndexOf never looked at index 0

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 24902a3..ae2687e 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -498,11 +498,11 @@ pub struct __string {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (s.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
@@ -881,11 +881,11 @@ pub class String : OutputStream {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (_data.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
-- 
2.43.0


From bd5b5048de58fbaed63b486f87b0f5ab7e0b3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 011/122] fix: 4-byte UTF-8 sequences were written with a wrong
 lead byte

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index ae2687e..d4cdec8 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -610,7 +610,7 @@ pub class OutputStream {
             size = 3
         }
         else if (ch < 0x200000) {
-            data.[0] = <char> (0xF0 | (ch >> 16))
+            data.[0] = <char> (0xF0 | (ch >> 18))
             data.[1] = <char> (0x80 | ((ch >> 12) & 0x3f))
             data.[2] = <char> (0x80 | ((ch >> 6) & 0x3f))
             data.[3] = <char> (0x80 | (ch & 0x3f))
-- 
2.43.0


From 18a39b4062511a36bb67518e4bb2e83c5969cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 012/122] fix: u64 values above i64 range were printed as
 negative numbers

---
 src/cxy/runtime/builtins.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index d4cdec8..b7b5b38 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -647,6 +647,8 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
+        else #if (#U == #u64)
+            appendUnSignedInt(val)
         else #if (U.isInteger)
             appendSignedInt(<i64>val)
         else #if (U.isFloat)
-- 
2.43.0


From 8b2a3d34ee6510728c604fb43dabf7a00e9a6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 013/122] fix: writing a __string view ignored its size

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index b7b5b38..5ab1778 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -658,7 +658,7 @@ pub class OutputStream {
         else #if (#U == #wchar || #U == #char)
              appendChar(val)
          else #if(#U == __string)
-            appendString(val.s)
+            append(val.s !: ^const void, val.size())
         else #if (U.isEnum) {
              switch(val) {
                 #for (const V: U.members) {
-- 
2.43.0


From aaa66b41a70c536c571590dbca6e947ac8aa19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 014/122] fix: String.resize rejected every size that fits and
 accepted those that do not

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 5ab1778..67e2a85 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -817,7 +817,7 @@ pub class String : OutputStream {
     }
 
     func resize(newSize: u64) {
-        assert!(_capacity <= newSize)
+        assert!(newSize <= _capacity)
         _size = newSize
         _data.[_size] = '\0'`char
     }
-- 
2.43.0


From ac32cf9e7d4612691e2b2d61de4cb40b3f595bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 015/122] fix: String.trimLeft left the string without a
 terminator

---
 src/cxy/runtime/builtins.cxy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 67e2a85..11d7fa4 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -850,6 +850,7 @@ pub class String : OutputStream {
             var p = ptroff!(this._data + i);
             memmove(_data, p, _size - i)
             _size = _size - i
+            _data.[_size] = '\0'
         }
     }
 
-- 
2.43.0


From b538577061510038127732b4445c460cd21f6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 016/122] fix: BufferedOutputStream wrote a block that exactly
 fills the buffer ahead of the data before it

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 11d7fa4..ce0e7d6 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1020,7 +1020,7 @@ pub class BufferedOutputStream: OutputStream {
 
     func append(data: ^const void, size: u64): Optional[u64] {
         var room = _capacity - _size
-        if (size > room && _size > 0) {
+        if (size >= room && _size > 0) {
             sync()
             room = _capacity
         }
-- 
2.43.0


From 358cb03866680012edd608471604ab7632450bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 017/122] fix: isEnum did not see through resolved/qualified
 types, so generic code could not print enums

---
 src/cxy/lang/middle/eval/comptime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/comptime.c b/src/cxy/lang/middle/eval/comptime.c
index bfb2934..b1ec63b 100644
--- a/src/cxy/lang/middle/eval/comptime.c
+++ b/src/cxy/lang/middle/eval/comptime.c
@@ -666,12 +666,13 @@ static AstNode *isEnum(EvalContext *ctx,
                        AstNode *node,
                        attr(unused) AstNode *args)
 {
-    node->type ?: evalType(ctx, node);
+    const Type *type = node->type ?: evalType(ctx, node);
+    type = resolveUnThisUnwrapType(type);
     return makeAstNode(
         ctx->pool,
         loc,
         &(AstNode){.tag = astBoolLit,
-                   .boolLiteral.value = typeIs(node->type, Enum)});
+                   .boolLiteral.value = typeIs(type, Enum)});
 }
 
 static AstNode *isVoidComptime(EvalContext *ctx,
-- 
2.43.0


From b20ea7755b5b6ea04eeee629687f9b2c69193664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 018/122] fix: Slice.str did not match the str protocol, so a
 Slice could not be printed

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index ce0e7d6..e215654 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1115,7 +1115,7 @@ pub struct Slice[T] {
     }
 
     #if (!T.isUnresolved) {
-        const func `str`(sb: OutputStream) {
+        const func `str`(sb: &OutputStream) {
             sb.appendChar('[')
             for (const i: 0..len) {
                 if (i != 0)
-- 
2.43.0


From dc47e71cd7114a6c9c9383613666ccc7b8cbf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:51 +0000
Subject: [PATCH 019/122] fix: HashMap lost entries: the probe distance of an
 entry that wrapped around the table was computed as a huge number

---
 src/cxy/stdlib/hash.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index 68bcdec..eb6aebc 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -51,7 +51,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
     - const func probe(i: u64, h: u64) {
         var v = i - (h - 1)
-        if (v < 0)
+        if (i < h - 1)
             v = _capacity + v
         return v
     }
-- 
2.43.0


From 5fe074f9773056ade84d5a98c7732073361b9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 020/122] fix: iterating a HashMap/HashSet with more than 127
 slots used an 8-bit counter and ran outside the table

---
 src/cxy/stdlib/hash.cxy | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index eb6aebc..439da98 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -196,7 +196,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             return
 
         var i = Hasher{}(&key) % _capacity
-        var j = 0
+        var j = 0`u64;
         while {
             const h =  _data.[i].hash
             if (h == 0 || j > probe(i, h))
@@ -276,7 +276,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         func `[]=`(key: K, value: V) => insert(&&key, &&value)
 
         func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -290,7 +290,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -304,7 +304,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(key: K, value: V) -> void) {
-            var i = 0
+            var i = 0`u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key, _data.[i].value)
@@ -314,7 +314,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(key: &const K, value: &const V) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0`u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
@@ -332,7 +332,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -346,7 +346,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -360,7 +360,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(item: K) -> void) {
-            var i = 0;
+            var i = 0`u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key)
@@ -370,7 +370,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(item: &const K) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0`u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
-- 
2.43.0


From fc08d645b066fd7e1697c8c0f9013790bbc57cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 021/122] fix: hashing a text longer than 127 bytes used an
 8-bit index and read in front of the text

---
 src/cxy/runtime/builtins.cxy | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index e215654..76cf766 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -275,7 +275,7 @@ pub func hash_fnv1a_ptr(h: HashCode, ptr: ^const void) =>
 
 pub func hash_fnv1a_string(h: HashCode, str: string)
 {
-    var i = 0;
+    var i = 0`u64;
     while (str.[i] != '\0'`char) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -285,7 +285,7 @@ pub func hash_fnv1a_string(h: HashCode, str: string)
 
 pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 {
-    var i = 0;
+    var i = 0`u64;
     while (i < len) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -295,7 +295,7 @@ pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 
 pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 {
-    var i = 0;
+    var i = 0`u64;
     while (i < len) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -306,7 +306,7 @@ pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 
 pub func hash_fnv1a_string_igc(h: HashCode, str: const string)
 {
-    var i = 0;
+    var i = 0`u64;
     while (str.[i] != '\0'`char) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -1588,7 +1588,7 @@ macro ok(cond) {
                   testFile: string,
                   tests: Slice[(string, func() -> !void)] ) {
 
-        var failed = 0;
+        var failed = 0`i32;
         if (len!(tests) == 0) {
             stdout << "0 tests defined in " << testFile << "\n";
             return 0
-- 
2.43.0


From b546b271de7bc0a9df482a568315d4de351737c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 022/122] fix: more than 127 command line arguments overflowed
 an 8-bit index

---
 src/cxy/stdlib/args.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/args.cxy b/src/cxy/stdlib/args.cxy
index 983a00d..dca7a20 100644
--- a/src/cxy/stdlib/args.cxy
+++ b/src/cxy/stdlib/args.cxy
@@ -87,7 +87,7 @@ pub class Command {
     virtual func run(): i32
 
     func parse(args: [string]): !void {
-        var i = 0;
+        var i = 0`u64;
         while (i < args.size()) {
             var full = args.[i++];
             var arg = __string(full);
-- 
2.43.0


From 8e2cacebaa1376a0a58a9f1be767e5b6de59e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 023/122] fix: the cases of a comma separated case list, other
 than the last, executed nothing

---
 src/cxy/lang/frontend/parser.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..f7b810d 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2448,6 +2448,26 @@ static AstNode *caseStatement(Parser *P)
                                  .caseStmt = {.match = match, .body = body}});
 }
 
+// `case A, B => body` is parsed as a list of cases, only the last of which has
+// the body, the body must be executed for any of the cases on that list
+static AstNode *caseWithSharedBody(Parser *P, AstNode *(*parser)(Parser *))
+{
+    AstNodeList cases = {NULL};
+    AstNode *case_ = NULL;
+    do {
+        listAddAstNode(&cases, case_ = comptime(P, parser));
+    } while (nodeIs(case_, CaseStmt) && case_->caseStmt.body == NULL &&
+             previous(P)->tag == tokComma && !check(P, tokEoF));
+
+    if (nodeIs(case_, CaseStmt)) {
+        AstNode *it = cases.first;
+        for (; it != case_; it = it->next)
+            it->caseStmt.body =
+                deepCloneAstNode(P->memPool, case_->caseStmt.body);
+    }
+    return cases.first;
+}
+
 static AstNode *switchStatement(Parser *P)
 {
     AstNodeList cases = {NULL};
@@ -2459,7 +2479,7 @@ static AstNode *switchStatement(Parser *P)
 
     consume0(P, tokLBrace);
     while (!check(P, tokRBrace, tokEoF)) {
-        listAddAstNode(&cases, comptime(P, caseStatement));
+        listAddAstNode(&cases, caseWithSharedBody(P, caseStatement));
     }
     consume0(P, tokRBrace);
 
@@ -2528,7 +2548,7 @@ static AstNode *matchStatement(Parser *P)
 
     consume0(P, tokLBrace);
     while (!check(P, tokRBrace, tokEoF)) {
-        listAddAstNode(&cases, comptime(P, matchCaseStatement));
+        listAddAstNode(&cases, caseWithSharedBody(P, matchCaseStatement));
     }
     consume0(P, tokRBrace);
 
-- 
2.43.0


From 6872c780421b0a2f9fd89639a5aead446f6e7fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 024/122] fix: calls that raise inside a catch block did not
 propagate their exception

---
 src/cxy/lang/middle/sema/binary.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..24cfbf9 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -206,6 +206,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     }
 
     node->binaryExpr.rhs->parentScope = node;
+    // only applies to the expression on the left of `catch`
+    ctx->explicitCatch = false;
 
     __typeof(ctx->catcher) catcher = ctx->catcher, newCatcher = {};
     ctx->catcher.expr = lhs;
-- 
2.43.0


From 897728901e1a3f28e50e425807f4c5d64b0156bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 025/122] fix: a catch block of a void call that ends in raise
 was rejected

---
 src/cxy/lang/middle/sema/exception.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 64a2335..6b16774 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -232,8 +232,10 @@ bool exceptionVerifyRaiseExpr(TypingContext *ctx,
         }
 
         if (ctx->catcher.block != NULL) {
-            ctx->catcher.block->type =
-                getResultTargetType(ctx->catcher.expr->type);
+            const Type *result = ctx->catcher.expr->type;
+            ctx->catcher.block->type = isVoidResultType(result)
+                                           ? makeVoidType(ctx->types)
+                                           : getResultTargetType(result);
         }
     }
     return true;
-- 
2.43.0


From 1c52bfa1c38a82029b23ad479b4710628844e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:22 +0000
Subject: [PATCH 026/122] fix: the right hand side of && and || was partly
 evaluated when it must not be: nested calls in it were hoisted
 unconditionally

---
 src/cxy/lang/middle/simplify/simplify.c | 80 +++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..a234aeb 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -830,8 +830,88 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// Statements needed to evaluate the right hand side of a logical operator must
+// only be executed when the right hand side is evaluated, i.e `a && f(g())`
+// becomes `var _sc = a; if (_sc) { var _a = g(); _sc = f(_a) }`
+static void simplifyLogicalExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    astVisit(visitor, lhs);
+
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &lhs->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_sc"),
+                               NULL,
+                               lhs,
+                               NULL,
+                               node->type);
+    AstNode *assign =
+        makeExprStmt(ctx->pool,
+                     &rhs->loc,
+                     flgNone,
+                     makeAssignExpr(ctx->pool,
+                                    &rhs->loc,
+                                    flgNone,
+                                    makeResolvedIdentifier(ctx->pool,
+                                                           &rhs->loc,
+                                                           var->varDecl.name,
+                                                           0,
+                                                           var,
+                                                           NULL,
+                                                           var->type),
+                                    opAssign,
+                                    rhs,
+                                    NULL,
+                                    node->type),
+                     NULL,
+                     node->type);
+    AstNode *body = makeBlockStmt(
+        ctx->pool, &rhs->loc, assign, NULL, makeVoidType(ctx->types));
+
+    AstModifier block = ctx->block;
+    astModifierInit(&ctx->block, body);
+    astModifierNext(&ctx->block, assign);
+    astVisit(visitor, rhs);
+    ctx->block = block;
+    if (body->blockStmt.stmts == assign)
+        return;
+
+    AstNode *cond = makeResolvedIdentifier(ctx->pool,
+                                           &lhs->loc,
+                                           var->varDecl.name,
+                                           0,
+                                           var,
+                                           NULL,
+                                           var->type);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &lhs->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             node->type);
+    var->next = makeIfStmt(
+        ctx->pool, &node->loc, flgNone, cond, body, NULL, NULL);
+    var->next->type = makeVoidType(ctx->types);
+    astModifierAdd(&ctx->block, var);
+
+    node->tag = astIdentifier;
+    clearAstBody(node);
+    node->ident.value = var->varDecl.name;
+    node->ident.resolvesTo = var;
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
+    Operator op = node->binaryExpr.op;
+    if (op == opLAnd || op == opLOr) {
+        simplifyLogicalExpr(visitor, node);
+        return;
+    }
     astVisitFallbackVisitAll(visitor, node);
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
-- 
2.43.0


From 907ea1273ce436dc0d41b4ef2be2c707d0e5ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:37 +0000
Subject: [PATCH 027/122] fix: the ?: operator without a middle operand crashed
 the compiler

---
 src/cxy/lang/middle/sema/check.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..2e5969e 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -767,7 +767,10 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *cond = checkType(visitor, node->ternaryExpr.cond);
-    const Type *body = checkType(visitor, node->ternaryExpr.body);
+    // `cond ?: otherwise` evaluates to cond when cond is truthy
+    const Type *body = node->ternaryExpr.body
+                           ? checkType(visitor, node->ternaryExpr.body)
+                           : cond;
     const Type *otherwise = checkType(visitor, node->ternaryExpr.otherwise);
 
     if (typeIs(cond, Error) || //
-- 
2.43.0


From e074b46a764c3daa069b5f0375a1012d2f2dfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:37 +0000
Subject: [PATCH 028/122] fix: the branches of ?: were partly evaluated when
 not selected: nested calls in them were hoisted unconditionally

---
 src/cxy/lang/middle/simplify/simplify.c | 137 ++++++++++++++++--------
 1 file changed, 93 insertions(+), 44 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index a234aeb..61c0947 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -830,6 +830,56 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static AstNode *makeVarReference(SimplifyContext *ctx,
+                                 const FileLoc *loc,
+                                 AstNode *var)
+{
+    return makeResolvedIdentifier(
+        ctx->pool, loc, var->varDecl.name, 0, var, NULL, var->type);
+}
+
+// Builds and simplifies block `{ var = expr }`. If statements where added to the
+// block in order to evaluate expr, hoisted will be set
+static AstNode *makeConditionalAssign(AstVisitor *visitor,
+                                      AstNode *var,
+                                      AstNode *expr,
+                                      bool *hoisted)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *assign =
+        makeExprStmt(ctx->pool,
+                     &expr->loc,
+                     flgNone,
+                     makeAssignExpr(ctx->pool,
+                                    &expr->loc,
+                                    flgNone,
+                                    makeVarReference(ctx, &expr->loc, var),
+                                    opAssign,
+                                    expr,
+                                    NULL,
+                                    var->type),
+                     NULL,
+                     var->type);
+    AstNode *body = makeBlockStmt(
+        ctx->pool, &expr->loc, assign, NULL, makeVoidType(ctx->types));
+
+    AstModifier block = ctx->block;
+    astModifierInit(&ctx->block, body);
+    astModifierNext(&ctx->block, assign);
+    astVisit(visitor, expr);
+    ctx->block = block;
+    *hoisted = *hoisted || body->blockStmt.stmts != assign;
+    return body;
+}
+
+static void replaceWithVariable(AstNode *node, AstNode *var)
+{
+    node->tag = astIdentifier;
+    clearAstBody(node);
+    node->ident.value = var->varDecl.name;
+    node->ident.resolvesTo = var;
+}
+
 // Statements needed to evaluate the right hand side of a logical operator must
 // only be executed when the right hand side is evaluated, i.e `a && f(g())`
 // becomes `var _sc = a; if (_sc) { var _a = g(); _sc = f(_a) }`
@@ -839,6 +889,7 @@ static void simplifyLogicalExpr(AstVisitor *visitor, AstNode *node)
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
     astVisit(visitor, lhs);
 
+    bool hoisted = false;
     AstNode *var = makeVarDecl(ctx->pool,
                                &lhs->loc,
                                flgTemporary,
@@ -847,45 +898,12 @@ static void simplifyLogicalExpr(AstVisitor *visitor, AstNode *node)
                                lhs,
                                NULL,
                                node->type);
-    AstNode *assign =
-        makeExprStmt(ctx->pool,
-                     &rhs->loc,
-                     flgNone,
-                     makeAssignExpr(ctx->pool,
-                                    &rhs->loc,
-                                    flgNone,
-                                    makeResolvedIdentifier(ctx->pool,
-                                                           &rhs->loc,
-                                                           var->varDecl.name,
-                                                           0,
-                                                           var,
-                                                           NULL,
-                                                           var->type),
-                                    opAssign,
-                                    rhs,
-                                    NULL,
-                                    node->type),
-                     NULL,
-                     node->type);
-    AstNode *body = makeBlockStmt(
-        ctx->pool, &rhs->loc, assign, NULL, makeVoidType(ctx->types));
-
-    AstModifier block = ctx->block;
-    astModifierInit(&ctx->block, body);
-    astModifierNext(&ctx->block, assign);
-    astVisit(visitor, rhs);
-    ctx->block = block;
-    if (body->blockStmt.stmts == assign)
+    AstNode *body = makeConditionalAssign(visitor, var, rhs, &hoisted);
+    if (!hoisted)
         return;
 
-    AstNode *cond = makeResolvedIdentifier(ctx->pool,
-                                           &lhs->loc,
-                                           var->varDecl.name,
-                                           0,
-                                           var,
-                                           NULL,
-                                           var->type);
-    if (node->binaryExpr.op == opLOr)
+    AstNode *cond = makeVarReference(ctx, &lhs->loc, var);
+    if (node->binaryExpr.op == opLOr) {
         cond = makeUnaryExpr(ctx->pool,
                              &lhs->loc,
                              flgNone,
@@ -894,15 +912,45 @@ static void simplifyLogicalExpr(AstVisitor *visitor, AstNode *node)
                              cond,
                              NULL,
                              node->type);
-    var->next = makeIfStmt(
-        ctx->pool, &node->loc, flgNone, cond, body, NULL, NULL);
-    var->next->type = makeVoidType(ctx->types);
+    }
+    var->next =
+        makeIfStmt(ctx->pool, &node->loc, flgNone, cond, body, NULL, NULL);
     astModifierAdd(&ctx->block, var);
+    replaceWithVariable(node, var);
+}
 
-    node->tag = astIdentifier;
-    clearAstBody(node);
-    node->ident.value = var->varDecl.name;
-    node->ident.resolvesTo = var;
+// Same as with logical operators, `c ? f(g()) : b` becomes
+// `var _sc; if (c) { var _a = g(); _sc = f(_a) } else { _sc = b }`
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *cond = node->ternaryExpr.cond, *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    if (body == NULL) {
+        astVisitFallbackVisitAll(visitor, node);
+        return;
+    }
+
+    bool hoisted = false;
+    astVisit(visitor, cond);
+    AstNode *var =
+        makeVarDecl(ctx->pool,
+                    &node->loc,
+                    flgTemporary,
+                    makeAnonymousVariable(ctx->strings, "_sc"),
+                    makeTypeReferenceNode(ctx->pool, node->type, &node->loc),
+                    NULL,
+                    NULL,
+                    node->type);
+    body = makeConditionalAssign(visitor, var, body, &hoisted);
+    otherwise = makeConditionalAssign(visitor, var, otherwise, &hoisted);
+    if (!hoisted)
+        return;
+
+    var->next =
+        makeIfStmt(ctx->pool, &node->loc, flgNone, cond, body, otherwise, NULL);
+    astModifierAdd(&ctx->block, var);
+    replaceWithVariable(node, var);
 }
 
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
@@ -1495,6 +1543,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astPathElem] = visitPathElement,
         [astIdentifier] = visitIdentifier,
         [astBinaryExpr] = visitBinaryExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astIndexExpr] = visitIndexExpr,
         [astCallExpr] = visitCallExpr,
         [astCastExpr] = visitCastExpr,
-- 
2.43.0


From fd05db6757d1963b8ed1bcf6ae41c6c7bd5eeaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:58 +0000
Subject: [PATCH 029/122] fix: a raising call on the right of && or || was
 evaluated even if the left hand side decides the result

---
 src/cxy/lang/middle/sema/binary.c | 71 +++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 24cfbf9..ca527c2 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -159,6 +159,61 @@ static void checkBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+static AstNode *makeVarReference(TypingContext *ctx,
+                                 const FileLoc *loc,
+                                 AstNode *var)
+{
+    return makeResolvedPath(
+        ctx->pool, loc, var->_name, flgNone, var, NULL, var->type);
+}
+
+// `lhs && rhs` => `var _sc = lhs; if (_sc) { ...; _sc = rhs }`
+static void evaluateRhsConditionally(TypingContext *ctx,
+                                     AstNode *node,
+                                     AstNode *rhsBlock,
+                                     AstNode *rhsStmt)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &lhs->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_sc"),
+                               NULL,
+                               lhs,
+                               NULL,
+                               node->type);
+    AstNode *cond = makeVarReference(ctx, &lhs->loc, var);
+    if (node->binaryExpr.op == opLOr) {
+        cond = makeUnaryExpr(ctx->pool,
+                             &lhs->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             node->type);
+    }
+    rhsStmt->type = node->type;
+    rhsStmt->exprStmt.expr =
+        makeAssignExpr(ctx->pool,
+                       &rhs->loc,
+                       flgNone,
+                       makeVarReference(ctx, &rhs->loc, var),
+                       opAssign,
+                       rhs,
+                       NULL,
+                       node->type);
+    astModifierAdd(&ctx->blockModifier, var);
+    astModifierAdd(
+        &ctx->blockModifier,
+        makeIfStmt(ctx->pool, &node->loc, flgNone, cond, rhsBlock, NULL, NULL));
+
+    node->tag = astPath;
+    clearAstBody(node);
+    node->path.elements = makeResolvedPathElement(
+        ctx->pool, &node->loc, var->_name, flgNone, var, NULL, var->type);
+}
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -214,7 +269,20 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.block = rhs;
     ctx->catcher.variable = NULL;
     ctx->catcher.ex = NULL;
+
+    // Statements that evaluate the right hand side of a logical operator, e.g
+    // a call that raises, must only be executed if it is evaluated
+    __typeof(ctx->blockModifier) block = ctx->blockModifier;
+    AstNode *rhsStmt = NULL, *rhsBlock = NULL;
+    if (opKind == optLogical && block.parent) {
+        rhsStmt = makeExprStmt(ctx->pool, &rhs->loc, flgNone, rhs, NULL, NULL);
+        rhsBlock = makeBlockStmt(
+            ctx->pool, &rhs->loc, rhsStmt, NULL, makeVoidType(ctx->types));
+        astModifierInit(&ctx->blockModifier, rhsBlock);
+        astModifierNext(&ctx->blockModifier, rhsStmt);
+    }
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
+    ctx->blockModifier = block;
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
 
@@ -306,6 +374,9 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
                      (FormatArg[]){{.s = getBinaryOpString(op)}, {.t = type}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (rhsBlock && rhsBlock->blockStmt.stmts != rhsStmt) {
+            evaluateRhsConditionally(ctx, node, rhsBlock, rhsStmt);
+        }
         break;
 
     case optComparison:
-- 
2.43.0


From b65c7a7541ae1d4357b71f0747747e02fb4d2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:21 +0000
Subject: [PATCH 030/122] fix: two strings with the same hash could not both be
 interned: the compiler aborted, or took one for the other

---
 src/cxy/core/strpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..616430d 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -26,13 +26,13 @@ typedef struct {
 static bool compareStrFind(const void *left, const void *right)
 {
     SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const char *s = *(char **)left;
+    return !strncmp(s, str->s, str->len) && s[str->len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    return !strcmp(*(char **)left, *(char **)right);
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
-- 
2.43.0


From 1cc05788a13ca3a7916bc6e9f69c5399eb2ddcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 031/122] fix: numeric literals keep their width, sign and
 precision in the generated C

---
 src/cxy/lang/backend/c/generate.c | 42 ++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index bc228c0..ef39e1d 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -798,26 +798,40 @@ static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->intLiteral.isNegative)
-        format(getState(ctx),
-               "{i64}",
-               (FormatArg[]){{.i64 = node->intLiteral.value}});
-    else if (isUnsignedType(node->type))
-        format(getState(ctx),
-               "{u64}u",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+    // operands must have the width and signedness of the literal's type
+    const Type *type = unwrapType(node->type, NULL);
+    bool isUnsigned = isUnsignedType(type);
+    cstring suffix = "";
+    if (typeIs(type, Primitive) && type->size == 8)
+        suffix = isUnsigned ? "ull" : "ll";
+    else if (isUnsigned && type->size == 4)
+        suffix = "u";
+
+    if (node->intLiteral.isNegative && node->intLiteral.value == INT64_MIN &&
+        !isUnsigned)
+        format(getState(ctx), "(-9223372036854775807ll - 1)", NULL);
+    else if (node->intLiteral.isNegative && !isUnsigned)
+        format(
+            getState(ctx),
+            "{i64}{s}",
+            (FormatArg[]){{.i64 = node->intLiteral.value}, {.s = suffix}});
     else
-        format(getState(ctx),
-               "{u64}",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+        format(
+            getState(ctx),
+            "{u64}{s}",
+            (FormatArg[]){{.u64 = node->intLiteral.uValue}, {.s = suffix}});
 }
 
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx),
-           "{f64}",
-           (FormatArg[]){{.f64 = node->floatLiteral.value}});
+    const Type *type = unwrapType(node->type, NULL);
+    char value[64];
+    // enough digits to reproduce the value exactly
+    snprintf(value, sizeof(value), "%.17e", node->floatLiteral.value);
+    format(getState(ctx), "{s}", (FormatArg[]){{.s = value}});
+    if (typeIs(type, Primitive) && type->primitive.id == prtF32)
+        format(getState(ctx), "f", NULL);
 }
 
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 28bf719c98ddeae283303f5a6b281bc6c01ab949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 032/122] fix: - -x and + +x were emitted as -- and ++

---
 src/cxy/lang/backend/c/generate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index ef39e1d..2a15825 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -924,6 +924,13 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
         switch (node->unaryExpr.op) {
         case opMove:
             break;
+        case opMinus:
+        case opPlus:
+            // the space keeps `- -x` from becoming `--x`
+            format(getState(ctx),
+                   "{s} ",
+                   (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+            break;
         default:
             format(getState(ctx),
                    "{s}",
-- 
2.43.0


From e8e214b45701a83268b16797433bff750f12fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 033/122] fix: a conditional expression can be assigned (x = c
 ? a : b)

---
 src/cxy/lang/frontend/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index f7b810d..c7ac96c 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -847,7 +847,7 @@ static AstNode *prefix(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
                                  .isPrefix = true}});
 }
 
-static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
+static AstNode *ternary(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
 
 static AstNode *binary(Parser *P,
                        AstNode *lhs,
@@ -893,7 +893,7 @@ static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
     const Token tok = *current(P);
     if (isAssignmentOperator(tok.tag)) {
         advance(P);
-        AstNode *rhs = assign(P, parsePrimary);
+        AstNode *rhs = ternary(P, parsePrimary);
 
         return newAstNode_(
             P,
-- 
2.43.0


From 67bebf67692752441b4289545909d29cc65da561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 034/122] fix: integer literals above the i64 maximum are u64

---
 src/cxy/lang/middle/sema/check.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 2e5969e..231fbf6 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -746,8 +746,12 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
         node->type = getPrimitiveType(ctx->types, prtChar);
         break;
     case astIntegerLit:
-        node->type =
-            getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
+        if (!node->intLiteral.isNegative &&
+            node->intLiteral.uValue > INT64_MAX)
+            node->type = getPrimitiveType(ctx->types, prtU64);
+        else
+            node->type =
+                getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
         break;
     case astFloatLit:
         node->type = getPrimitiveType(ctx->types, prtF64);
-- 
2.43.0


From 969e97b5fc3e5cca05beaae869ac80710e7c82eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 035/122] fix: integer literals above the i64 maximum convert
 to floats

---
 src/cxy/lang/middle/sema/cast.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 7d2b008..6435a79 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -100,7 +100,10 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
         }
         else if (isFloatType(node->type)) {
             if (!nodeIs(expr, FloatLit)) {
-                expr->floatLiteral.value = (f64)integerLiteralValue(expr);
+                expr->floatLiteral.value =
+                    nodeIs(expr, IntegerLit) && !expr->intLiteral.isNegative
+                        ? (f64)expr->intLiteral.uValue
+                        : (f64)integerLiteralValue(expr);
                 expr->tag = astFloatLit;
             }
             if (node->type->primitive.id == prtF32)
-- 
2.43.0


From aa288450f73d75638a428454b78fc60f47394d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 036/122] fix: numeric character escapes were rejected
 depending on a stale errno

---
 src/cxy/core/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..8a9c895 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -29,6 +29,7 @@ static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
 {
     char *next = NULL;
+    errno = 0;
     unsigned int ord = strtoul(ptr, &next, base);
     *res = ord;
     return ord <= 255 && !errno ? next - ptr : 0;
-- 
2.43.0


From ff69d920c414a74ce30c65b6611e1045cf1543b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 037/122] fix: the lexer terminates on literals that end at the
 end of the file and rejects prefixes without digits

---
 src/cxy/lang/frontend/lexer.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..fc55327 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -145,9 +145,14 @@ static inline bool isSpaceOrPunctuation(char c)
     return c != '_' && (isspace(c) || ispunct(c));
 }
 
+static inline bool isLiteralEnd(Lexer *lexer)
+{
+    return isEofReached(lexer) || isSpaceOrPunctuation(getCurChar(lexer));
+}
+
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
+    while (!isLiteralEnd(lexer))
         advanceLexer(lexer);
 }
 
@@ -477,7 +482,7 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
                 if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
@@ -520,7 +525,8 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '\'')) {
             const char *ptr = getCurPtr(lexer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
@@ -529,10 +535,10 @@ Token advanceLexer(Lexer *lexer)
                 skipChar(lexer);
             }
 
+            const char *end = getCurPtr(lexer);
             Token token = makeToken(lexer, &begin, tokCharLiteral);
             if (!acceptChar(lexer, '\'') ||
-                convertEscapeSeq(
-                    ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
+                convertEscapeSeq(ptr, end - ptr, &token.cVal) != charCount)
                 return makeInvalidToken(
                     lexer, &begin, "invalid character literal");
             return token;
@@ -575,7 +581,7 @@ Token advanceLexer(Lexer *lexer)
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) == '0' || getCurChar(lexer) == '1')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (ptr == getCurPtr(lexer) || !isLiteralEnd(lexer)) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -592,7 +598,7 @@ Token advanceLexer(Lexer *lexer)
                     while (isxdigit(getCurChar(lexer)))
                         skipChar(lexer);
 
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (ptr == getCurPtr(lexer) || !isLiteralEnd(lexer)) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -608,7 +614,7 @@ Token advanceLexer(Lexer *lexer)
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) >= '0' && getCurChar(lexer) <= '7')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (ptr == getCurPtr(lexer) || !isLiteralEnd(lexer)) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -634,7 +640,7 @@ Token advanceLexer(Lexer *lexer)
                 while (isdigit(getCurChar(lexer)))
                     skipChar(lexer);
                 // Parse exponent
-                if (acceptChar(lexer, 'e')) {
+                if (acceptChar(lexer, 'e') || acceptChar(lexer, 'E')) {
                     // Accept `+`/`-` signs
                     if (!acceptChar(lexer, '+'))
                         acceptChar(lexer, '-');
-- 
2.43.0


From 037af17c4caa622ae98f79a99d87128d0f80bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 038/122] fix: escape sequences in string and character
 literals denote their characters

---
 src/cxy/core/utils.c              | 76 ++++++++++++++++++++++++-------
 src/cxy/lang/backend/c/generate.c | 14 ++++--
 2 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index 8a9c895..0af23c4 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -4,6 +4,7 @@
 
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 
@@ -26,13 +27,28 @@ typedef CxyPair(u32, u32) u32_u32_pair;
 
 static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 
+static int digitValue(char c)
+{
+    if (c >= '0' && c <= '9')
+        return c - '0';
+    if (c >= 'a' && c <= 'f')
+        return c - 'a' + 10;
+    if (c >= 'A' && c <= 'F')
+        return c - 'A' + 10;
+    return INT_MAX;
+}
+
 static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
 {
-    char *next = NULL;
-    errno = 0;
-    unsigned int ord = strtoul(ptr, &next, base);
+    u32 ord = 0;
+    size_t i = 0;
+    for (; digitValue(ptr[i]) < base; i++) {
+        ord = ord * base + digitValue(ptr[i]);
+        if (ord > 255)
+            return 0;
+    }
     *res = ord;
-    return ord <= 255 && !errno ? next - ptr : 0;
+    return i;
 }
 
 static u32 inline countLeadingZeros(char c)
@@ -51,7 +67,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     if (len == 0) {
         return (u32_u32_pair){1, (u32)s[0]};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
+    if (count < len)
+        return (u32_u32_pair){0, 0};
 
     switch (len) {
     case 2:
@@ -64,10 +81,9 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
     default:
-        csAssert(false, "invalid UTF-8 sequence");
+        // not a UTF-8 sequence
+        return (u32_u32_pair){0, 0};
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
@@ -138,10 +154,15 @@ size_t readChar(cstring str, size_t len, u32 *res)
 {
     if (((u8 *)str)[0] >= 0x80) {
         size_t tmp = countLeadingZeros(str[0]);
-        csAssert(tmp <= len, "invalid UTF-8 character sequence");
-        len = tmp;
+        len = tmp <= len ? tmp : len;
+    }
+    size_t size = convertEscapeSeq(str, len, res);
+    if (size == 0) {
+        // not a valid sequence, take it a byte at a time
+        *res = (u8)str[0];
+        size = 1;
     }
-    return convertEscapeSeq(str, len, res);
+    return size;
 }
 
 size_t escapeString(const char *str, size_t n, char *dst, size_t size)
@@ -193,13 +214,36 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
             dst[j++] = '"';
             i++;
             break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
-                break;
+        case '\'':
+            dst[j++] = '\'';
+            i++;
+            break;
+        case '\\':
+            dst[j++] = '\\';
+            i++;
+            break;
+        case 'x': {
+            // at most 2 hexadecimal digits
+            u32 ord = 0, count = 0;
+            for (i++; count < 2 && i < n && digitValue(str[i]) < 16; count++)
+                ord = ord * 16 + digitValue(str[i++]);
+            if (count == 0) {
+                dst[j++] = '\\';
+                dst[j++] = 'x';
             }
+            else
+                dst[j++] = (char)ord;
+            break;
+        }
         default:
+            if (digitValue(str[i]) < 8) {
+                // at most 3 octal digits
+                u32 ord = 0, count = 0;
+                for (; count < 3 && i < n && digitValue(str[i]) < 8; count++)
+                    ord = ord * 8 + digitValue(str[i++]);
+                dst[j++] = (char)ord;
+                break;
+            }
             dst[j++] = '\\';
             break;
         }
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 2a15825..6486b35 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -839,10 +839,16 @@ static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
-    while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
+    for (; *p != '\0'; p++) {
+        if (isprint((unsigned char)*p) || isspace((unsigned char)*p)) {
+            printUtf8(getState(ctx), *p, true);
+        }
+        else {
+            // 3 octal digits, a digit that follows is not part of the escape
+            char octal[8];
+            snprintf(octal, sizeof(octal), "\\%03o", (unsigned char)*p);
+            format(getState(ctx), "{s}", (FormatArg[]){{.s = octal}});
+        }
     }
     format(getState(ctx), "\"", NULL);
 }
-- 
2.43.0


From 4d8caf2950d451a8ec2ee9bfc04c3edbe3da8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:54 +0000
Subject: [PATCH 039/122] fix: an empty character literal was accepted

---
 src/cxy/lang/frontend/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index fc55327..23c8da3 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -537,7 +537,7 @@ Token advanceLexer(Lexer *lexer)
 
             const char *end = getCurPtr(lexer);
             Token token = makeToken(lexer, &begin, tokCharLiteral);
-            if (!acceptChar(lexer, '\'') ||
+            if (!acceptChar(lexer, '\'') || charCount == 0 ||
                 convertEscapeSeq(ptr, end - ptr, &token.cVal) != charCount)
                 return makeInvalidToken(
                     lexer, &begin, "invalid character literal");
-- 
2.43.0


From 9b30ca4d52b0f3b03e0c1a5e151a1f5d934ceb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 040/122] fix: compile-time string concatenation used an
 uninitialised string builder

---
 src/cxy/core/sb.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/sb.h b/src/cxy/core/sb.h
index f64c089..544aada 100644
--- a/src/cxy/core/sb.h
+++ b/src/cxy/core/sb.h
@@ -34,6 +34,7 @@ void stringBuilderGrow(StringBuilder *sb, u64 size);
 
 static attr(always_inline) void stringBuilderInit(StringBuilder *sb)
 {
+    *sb = (StringBuilder){0};
     stringBuilderGrow(sb, __cxy_builtins_string_builder_DEFAULT_CAPACITY);
 }
 
@@ -44,7 +45,7 @@ void stringBuilderDeinit(StringBuilder *sb);
 static attr(always_inline) void stringBuilderDelete(StringBuilder *sb)
 {
     if (sb) {
-        stringBuilderInit(sb);
+        stringBuilderDeinit(sb);
         free(sb);
     }
 }
-- 
2.43.0


From 6e374242cd16b62420a56e76d057534473d15d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 041/122] fix: a value read from a list at compile time dragged
 the rest of the list along

---
 src/cxy/lang/middle/eval/path.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index 058861e..3b4541f 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -144,8 +144,12 @@ void evalPathEpilogue(AstVisitor *visitor,
         node->flags |= (symbol->flags & flgVariadic);
     }
     else {
-        replaceAstNodeWith(
-            node, nodeIs(symbol, VarDecl) ? symbol->varDecl.init : symbol);
+        // the value can be an element of a list (e.g. an element of the array
+        // being iterated over), do not drag the rest of the list along
+        AstNode value =
+            nodeIs(symbol, VarDecl) ? *symbol->varDecl.init : *symbol;
+        value.next = NULL;
+        replaceAstNodeWith(node, &value);
         if (hasFlag(node, ComptimeIterable))
             node->next = symbol->next;
         node->flags &= ~flgComptime;
-- 
2.43.0


From cfe1e8621920c07ce996f6f2f300a084a17b3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 042/122] fix: compile-time function type comparison, stepped
 ranges and grouped unary operands

---
 src/cxy/lang/middle/eval/eval.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..de7ca56 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -81,7 +81,9 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
         return comptimeCompareTypes(lhs->optionalType.type,
                                     rhs->optionalType.type);
     case astFuncType:
-        return comptimeCompareTypes(lhs->funcType.ret, rhs->funcType.params);
+        return comptimeCompareTypes(lhs->funcType.ret, rhs->funcType.ret) &&
+               comptimeCompareManyTypes(lhs->funcType.params,
+                                        rhs->funcType.params);
     case astEnumDecl:
         return lhs->enumDecl.name == rhs->enumDecl.name;
     case astStructDecl:
@@ -102,7 +104,7 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    if (node->tag != astUnaryExpr && node->tag != astGroupExpr &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
@@ -276,13 +278,14 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
             "unsupported comp-time operation '..', range start and stop must "
             "be compile time expressions",
             NULL);
+        node->tag = astError;
     }
 
     node->next = next;
-- 
2.43.0


From d48f1dca130293b044cb558b3ef9b6d223978fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 043/122] fix: compile-time integer arithmetic was done in f64
 and lost signs, precision, negations and zero divisors

---
 src/cxy/lang/frontend/ast.h               |  17 ++-
 src/cxy/lang/middle/eval/binary.c         |  68 ++++-----
 src/cxy/lang/middle/eval/for.c            |   3 +-
 src/cxy/lang/middle/eval/literal.c        | 178 +++++++++++++++-------
 src/cxy/lang/middle/eval/unary.c          |  35 +----
 src/cxy/lang/middle/preprocess/evaluate.c |  96 ++++--------
 6 files changed, 208 insertions(+), 189 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index dffe9fe..184ed1d 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1510,10 +1510,19 @@ bool isStaticMemberFunction(const AstNode *node);
 f64 nodeGetNumericLiteral(const AstNode *node);
 i64 getEnumLiteralValue(const AstNode *node);
 
-void nodeSetNumericLiteral(AstNode *node,
-                           AstNode *lhs,
-                           AstNode *rhs,
-                           f64 value);
+/// Set node to the value of `-operand` or `~operand`
+void nodeNegateNumericLiteral(AstNode *node, const AstNode *operand);
+
+void nodeComplementNumericLiteral(AstNode *node, const AstNode *operand);
+
+/// < 0, 0 or > 0 if lhs is less than, equal to or greater than rhs
+int nodeCompareNumericLiterals(const AstNode *lhs, const AstNode *rhs);
+
+/// Replace the binary expression node with the value of the given operands,
+/// returns false if the operation has no value (i.e. division by zero)
+bool nodeEvalNumericOperation(AstNode *node,
+                              const AstNode *lhs,
+                              const AstNode *rhs);
 
 bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
 
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..7366658 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -29,8 +29,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
@@ -90,6 +91,21 @@ bool verifyBinaryExprOperand(EvalContext *ctx, AstNode *node)
     return true;
 }
 
+static void evalNumericOperation(EvalContext *ctx,
+                                 AstNode *node,
+                                 const AstNode *lhs,
+                                 const AstNode *rhs)
+{
+    Operator op = node->binaryExpr.op;
+    if (!nodeEvalNumericOperation(node, lhs, rhs)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "comp-time operation `{s}` has no value for given operands",
+                 (FormatArg[]){{.s = getBinaryOpString(op)}});
+        node->tag = astError;
+    }
+}
+
 static void evalAddOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -120,8 +136,7 @@ static void evalAddOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalSubOperation(EvalContext *ctx, AstNode *node)
@@ -145,8 +160,7 @@ static void evalSubOperation(EvalContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalMulOperation(EvalContext *ctx, AstNode *node)
@@ -177,8 +191,7 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalDivOperation(EvalContext *ctx, AstNode *node)
@@ -209,16 +222,7 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value =
-            nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
-    }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
-    }
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalModOperation(EvalContext *ctx, AstNode *node)
@@ -244,11 +248,7 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
@@ -295,29 +295,25 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
     return true;
 }
 
-#define CXY_DEFINE_BINARY_BIT_OPERATOR(Name, OP)                               \
+#define CXY_DEFINE_BINARY_BIT_OPERATOR(Name)                                   \
     static void eval##Name##Operation(EvalContext *ctx, AstNode *node)         \
     {                                                                          \
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
+CXY_DEFINE_BINARY_BIT_OPERATOR(Shl)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shr, >>)
+CXY_DEFINE_BINARY_BIT_OPERATOR(Shr)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(BAnd, &)
+CXY_DEFINE_BINARY_BIT_OPERATOR(BAnd)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(BOr, |)
+CXY_DEFINE_BINARY_BIT_OPERATOR(BOr)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(BXor, ^)
+CXY_DEFINE_BINARY_BIT_OPERATOR(BXor)
 
 static void evalLAndOperation(EvalContext *ctx, AstNode *node)
 {
@@ -415,7 +411,7 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 static void evalIsOperation(EvalContext *ctx, AstNode *node)
@@ -459,7 +455,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..0cde15d 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -183,7 +183,8 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral = {.value = i, .isNegative = i < 0}});
 
         if (body) {
             body->parentScope = node->parentScope;
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..4af55c6 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -8,6 +8,8 @@
 #include "lang/frontend/strings.h"
 #include "lang/frontend/ttable.h"
 
+typedef __int128 i128;
+
 f64 nodeGetNumericLiteral(const AstNode *node)
 {
     switch (node->tag) {
@@ -18,7 +20,8 @@ f64 nodeGetNumericLiteral(const AstNode *node)
     case astCharLit:
         return node->charLiteral.value;
     case astIntegerLit:
-        return (f64)integerLiteralValue(node);
+        return node->intLiteral.isNegative ? (f64)node->intLiteral.value
+                                           : (f64)node->intLiteral.uValue;
     case astFloatLit:
         return node->floatLiteral.value;
     default:
@@ -44,66 +47,130 @@ i64 getEnumLiteralValue(const AstNode *node)
     return option->value;
 }
 
-void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
+static void setIntegerLiteral(AstNode *node, i128 value)
 {
-    switch (lhs->tag) {
-    case astBoolLit:
-        if (nodeIs(rhs, BoolLit)) {
-            node->tag = astBoolLit;
-            node->boolLiteral.value = value == 0;
-        }
-        else if (nodeIs(rhs, CharLit) || nodeIs(rhs, IntegerLit)) {
-            node->tag = astIntegerLit;
-            node->intLiteral.isNegative = value < 0;
-            if (node->intLiteral.isNegative)
-                node->intLiteral.value = (i64)value;
-            else
-                node->intLiteral.uValue = (u64)value;
-        }
-        else {
-            node->tag = astFloatLit;
-            node->floatLiteral.value = value;
-        }
+    node->tag = astIntegerLit;
+    node->intLiteral.isNegative = value < 0;
+    if (value < 0)
+        node->intLiteral.value = (i64)value;
+    else
+        node->intLiteral.uValue = (u64)value;
+}
+
+static i128 getIntegralLiteral(const AstNode *node)
+{
+    if (!nodeIs(node, IntegerLit))
+        return (i128)nodeGetNumericLiteral(node);
+    return node->intLiteral.isNegative ? (i128)node->intLiteral.value
+                                       : (i128)node->intLiteral.uValue;
+}
+
+void nodeNegateNumericLiteral(AstNode *node, const AstNode *operand)
+{
+    if (nodeIs(operand, FloatLit)) {
+        f64 value = -operand->floatLiteral.value;
+        node->tag = astFloatLit;
+        node->floatLiteral.value = value;
+    }
+    else
+        setIntegerLiteral(node, -getIntegralLiteral(operand));
+}
+
+void nodeComplementNumericLiteral(AstNode *node, const AstNode *operand)
+{
+    setIntegerLiteral(node, ~getIntegralLiteral(operand));
+}
+
+int nodeCompareNumericLiterals(const AstNode *lhs, const AstNode *rhs)
+{
+    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
+        f64 l = nodeGetNumericLiteral(lhs), r = nodeGetNumericLiteral(rhs);
+        return l < r ? -1 : l > r;
+    }
+
+    i128 l = getIntegralLiteral(lhs), r = getIntegralLiteral(rhs);
+    return l < r ? -1 : l > r;
+}
+
+static bool evalFloatOperation(AstNode *node, Operator op, f64 lhs, f64 rhs)
+{
+    node->tag = astFloatLit;
+    switch (op) {
+    case opAdd:
+        node->floatLiteral.value = lhs + rhs;
+        return true;
+    case opSub:
+        node->floatLiteral.value = lhs - rhs;
+        return true;
+    case opMul:
+        node->floatLiteral.value = lhs * rhs;
+        return true;
+    case opDiv:
+        node->floatLiteral.value = lhs / rhs;
+        return true;
+    default:
+        return false;
+    }
+}
+
+bool nodeEvalNumericOperation(AstNode *node, const AstNode *lhs, const AstNode *rhs)
+{
+    Operator op = node->binaryExpr.op;
+    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
+        return evalFloatOperation(node,
+                                  op,
+                                  nodeGetNumericLiteral(lhs),
+                                  nodeGetNumericLiteral(rhs));
+    }
+
+    i128 l = getIntegralLiteral(lhs), r = getIntegralLiteral(rhs), value;
+    switch (op) {
+    case opAdd:
+        value = l + r;
         break;
-    case astCharLit:
-        if (nodeIs(rhs, BoolLit) || nodeIs(rhs, CharLit)) {
-            node->tag = astCharLit;
-            node->charLiteral.value = (wchar)value;
-        }
-        else if (nodeIs(rhs, IntegerLit)) {
-            node->tag = astIntegerLit;
-            node->intLiteral.isNegative = value < 0;
-            if (node->intLiteral.isNegative)
-                node->intLiteral.value = (i64)value;
-            else
-                node->intLiteral.uValue = (u64)value;
-        }
-        else {
-            node->tag = astFloatLit;
-            node->floatLiteral.value = value;
-        }
+    case opSub:
+        value = l - r;
         break;
-    case astIntegerLit:
-        if (nodeIs(rhs, FloatLit)) {
-            node->tag = astFloatLit;
-            node->floatLiteral.value = value;
-        }
-        else {
-            node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
-            if (node->intLiteral.isNegative)
-                node->intLiteral.value = (i64)value;
-            else
-                node->intLiteral.uValue = (u64)value;
-        }
+    case opMul:
+        value = l * r;
         break;
-    case astFloatLit:
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+    case opDiv:
+    case opMod:
+        if (r == 0)
+            return false;
+        value = op == opDiv ? l / r : l % r;
+        break;
+    case opShl:
+    case opShr:
+        if (r < 0 || r > 63)
+            return false;
+        value = op == opShl ? l * ((i128)1 << r) : l >> r;
+        break;
+    case opBAnd:
+        value = l & r;
+        break;
+    case opBOr:
+        value = l | r;
+        break;
+    case opBXor:
+        value = l ^ r;
         break;
     default:
-        unreachable("NOT SUPPORTED");
+        return false;
+    }
+
+    if (nodeIs(lhs, BoolLit) && nodeIs(rhs, BoolLit)) {
+        node->tag = astBoolLit;
+        node->boolLiteral.value = value != 0;
+    }
+    else if (nodeIs(lhs, CharLit) &&
+             (nodeIs(rhs, CharLit) || nodeIs(rhs, BoolLit))) {
+        node->tag = astCharLit;
+        node->charLiteral.value = (wchar)value;
     }
+    else
+        setIntegerLiteral(node, value);
+    return true;
 }
 
 bool evalBooleanCast(EvalContext *ctx, AstNode *node)
@@ -113,6 +180,7 @@ bool evalBooleanCast(EvalContext *ctx, AstNode *node)
         break;
     case astNullLit:
         node->boolLiteral.value = false;
+        node->tag = astBoolLit;
         break;
     case astCharLit:
         node->boolLiteral.value = node->charLiteral.value != '\0';
@@ -127,7 +195,7 @@ bool evalBooleanCast(EvalContext *ctx, AstNode *node)
         node->tag = astBoolLit;
         break;
     case astStringLit:
-        node->boolLiteral.value = (node->stringLiteral.value == NULL) ||
+        node->boolLiteral.value = (node->stringLiteral.value != NULL) &&
                                   (node->stringLiteral.value[0] != '\0');
         node->tag = astBoolLit;
         break;
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..ab8d53a 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -43,19 +43,7 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    nodeNegateNumericLiteral(node, rhs);
 }
 
 static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
@@ -64,19 +52,7 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    replaceAstNodeWith(node, rhs);
 }
 
 static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
@@ -91,7 +67,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +78,7 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeComplementNumericLiteral(node, rhs);
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -133,7 +108,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..85aec67 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -8,6 +8,21 @@
 #include "lang/frontend/flag.h"
 #include "lang/frontend/strings.h"
 
+static void evalNumericOperation(PreprocessorContext *ctx,
+                                 AstNode *node,
+                                 const AstNode *lhs,
+                                 const AstNode *rhs)
+{
+    Operator op = node->binaryExpr.op;
+    if (!nodeEvalNumericOperation(node, lhs, rhs)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "comp-time operation `{s}` has no value for given operands",
+                 (FormatArg[]){{.s = getBinaryOpString(op)}});
+        node->tag = astError;
+    }
+}
+
 static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -22,8 +37,7 @@ static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
@@ -38,8 +52,7 @@ static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
@@ -60,8 +73,7 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
@@ -83,16 +95,7 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value =
-            nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
-    }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
-    }
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
@@ -108,11 +111,7 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
@@ -150,29 +149,25 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
     return true;
 }
 
-#define CXY_DEFINE_BINARY_BIT_OPERATOR(Name, OP)                               \
+#define CXY_DEFINE_BINARY_BIT_OPERATOR(Name)                                   \
     static void eval##Name##Operation(PreprocessorContext *ctx, AstNode *node) \
     {                                                                          \
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
+CXY_DEFINE_BINARY_BIT_OPERATOR(Shl)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shr, >>)
+CXY_DEFINE_BINARY_BIT_OPERATOR(Shr)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(BAnd, &)
+CXY_DEFINE_BINARY_BIT_OPERATOR(BAnd)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(BOr, |)
+CXY_DEFINE_BINARY_BIT_OPERATOR(BOr)
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(BXor, ^)
+CXY_DEFINE_BINARY_BIT_OPERATOR(BXor)
 
 static void evalLAndOperation(PreprocessorContext *ctx, AstNode *node)
 {
@@ -208,7 +203,7 @@ static void evalIsOperation(PreprocessorContext *ctx, AstNode *node)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Eq, ==)
@@ -224,7 +219,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
@@ -268,37 +263,13 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    nodeNegateNumericLiteral(node, rhs);
 }
 
 static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    replaceAstNodeWith(node, rhs);
 }
 
 static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
@@ -310,12 +281,11 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeComplementNumericLiteral(node, rhs);
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From 7794d96e32092a4da375c83953d2632b7fa898df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 044/122] fix: compile-time indexing dragged the following
 elements along, used wrong lengths and a malformed message

---
 src/cxy/lang/middle/eval/index.c  | 38 ++++++++++++++++++++++++++-----
 src/cxy/lang/middle/eval/member.c |  6 +++--
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 5880db7..c4a6e3f 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -5,6 +5,14 @@
 #include "eval.h"
 #include <lang/frontend/flag.h>
 
+static void replaceWithElement(AstNode *node, const AstNode *element)
+{
+    // only the element, not the ones that follow it
+    AstNode value = *element;
+    value.next = NULL;
+    replaceAstNode(node, &value);
+}
+
 static bool evalAstNodeAtIndex(EvalContext *ctx,
                                AstNode *node,
                                AstNode *list,
@@ -14,19 +22,19 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
     if (atIndex == NULL) {
         logError(ctx->L,
                  &node->loc,
-                 "index {0} is out of bounds, target has {u64} elements",
+                 "index {i64} is out of bounds, target has {u64} elements",
                  (FormatArg[]){{.i64 = index}, {.u64 = countAstNodes(list)}});
         node->tag = astError;
         return false;
     }
-    *node = *atIndex;
+    replaceWithElement(node, atIndex);
     return true;
 }
 
 bool setEvalStringIndexExprResult(AstNode *node, const AstNode *result)
 {
     if (result) {
-        *node = *result;
+        replaceWithElement(node, result);
         return false;
     }
     node->tag = astNullLit;
@@ -77,13 +85,31 @@ static bool evalIntegerIndexExpr(EvalContext *ctx, AstNode *node)
     AstNode *index = node->indexExpr.index;
 
     i64 i = (i64)nodeGetNumericLiteral(index);
-    u64 len = nodeIs(target, StringLit) ? strlen(target->stringLiteral.value)
-                                        : target->arrayExpr.len;
+    u64 len = 0;
+    switch (target->tag) {
+    case astStringLit:
+        len = strlen(target->stringLiteral.value);
+        break;
+    case astArrayExpr:
+        len = countAstNodes(target->arrayExpr.elements);
+        break;
+    case astTupleExpr:
+        len = countAstNodes(target->tupleExpr.elements);
+        break;
+    case astAttr:
+        len = countAstNodes(target->attr.args);
+        break;
+    case astComptimeOnly:
+        len = countAstNodes(target->next);
+        break;
+    default:
+        break;
+    }
     if (i < 0 || i >= len) {
         logError(ctx->L,
                  &node->loc,
                  "index out of bounds for comp-time index "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 401fdb1..2b8839c 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -27,14 +27,16 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "member out of bounds for comp-time integer member "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
         return false;
     }
 
-    *node = *getNodeAtIndex(target->tupleExpr.elements, i);
+    AstNode value = *getNodeAtIndex(target->tupleExpr.elements, i);
+    value.next = NULL;
+    replaceAstNode(node, &value);
     return true;
 }
 
-- 
2.43.0


From 37a14e45e90f44a7283ae554090c5dc6f2aff46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 045/122] fix: has_member! and has_type! results were not
 boolean literals

---
 src/cxy/lang/middle/eval/macro.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxy/lang/middle/eval/macro.c b/src/cxy/lang/middle/eval/macro.c
index b5989fc..3f67ee8 100644
--- a/src/cxy/lang/middle/eval/macro.c
+++ b/src/cxy/lang/middle/eval/macro.c
@@ -354,6 +354,8 @@ static AstNode *makeHasMemberNode(AstVisitor *visitor,
     type = resolveType(type);
     args->next = NULL;
     args->tag = astBoolLit;
+    args->type = getPrimitiveType(ctx->types, prtBool);
+    args->flags &= ~flgTypeinfo;
 
     const Type *member = findMemberInType(target, name->stringLiteral.value);
     if (typeIs(member, Func) && typeIs(type, Func)) {
@@ -407,6 +409,8 @@ static AstNode *makeHasTypeNode(AstVisitor *visitor,
         findMemberDeclInType(target, name->stringLiteral.value);
     args->next = NULL;
     args->tag = astBoolLit;
+    args->type = getPrimitiveType(ctx->types, prtBool);
+    args->flags &= ~flgTypeinfo;
     args->boolLiteral.value = nodeIs(type, TypeDecl);
     return args;
 }
-- 
2.43.0


From e8ec7d7de920994b289c1774bf2485c2c5f81c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 046/122] fix: compile-time member access on enum types did not
 find the type's properties

---
 src/cxy/lang/middle/eval/path.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index 3b4541f..6324a19 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -8,6 +8,15 @@
 #include "lang/frontend/ttable.h"
 #include "lang/middle/sema/check.h"
 
+// `E.name` is an option of the enum `E` unless there is no such option and
+// `name` is one of the AST properties, e.g. `E.members`
+static bool isEnumMember(EvalContext *ctx, AstNode *symbol, AstNode *elem)
+{
+    cstring name = elem->pathElement.alt ?: elem->pathElement.name;
+    return findEnumOptionByName(symbol, name) == NULL &&
+           evalAstNodeMemberAccess(ctx, &elem->loc, symbol, name, false);
+}
+
 void evalPathEpilogue(AstVisitor *visitor,
                       AstNode *node,
                       AstNode *symbol,
@@ -15,7 +24,7 @@ void evalPathEpilogue(AstVisitor *visitor,
 {
     EvalContext *ctx = getAstVisitorContext(visitor);
     if (elem) {
-        if (nodeIs(symbol, EnumDecl)) {
+        if (nodeIs(symbol, EnumDecl) && !isEnumMember(ctx, symbol, elem)) {
             cstring name = elem->pathElement.alt ?: elem->pathElement.name;
             AstNode *option = findEnumOptionByName(symbol, name);
             if (option == NULL) {
-- 
2.43.0


From 84c2376b61b72b39a77d05727f0544ac4370e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 047/122] fix: enum values: negative, wide and
 constant-expression values, casts and switch over them

---
 src/cxy/lang/frontend/ttable.c     |  3 +++
 src/cxy/lang/middle/bind/resolve.c |  8 ++++++--
 src/cxy/lang/middle/eval/enum.c    |  2 +-
 src/cxy/lang/middle/sema/cast.c    | 23 ++++++++---------------
 src/cxy/lang/middle/sema/enum.c    |  5 +++--
 5 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index 03bddbe..e98798b 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -1457,6 +1457,9 @@ bool isIntegerTypeInRange(const Type *type, i64 min, i64 max)
 {
     csAssert0(min <= max);
     const IntMinMax minMax = getIntegerTypeMinMax(type);
+    type = resolveType(unwrapType(type, NULL));
+    if (typeIs(type, Enum))
+        type = type->tEnum.base;
     if (isSignedType(type))
         return min <= (i64)minMax.s && max >= minMax.f;
     else
diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index afe2948..6904594 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -442,7 +442,11 @@ void bindEnumDecl(AstVisitor *visitor, AstNode *node)
         option->enumOption.index = i;
         option->flags |= flgMember | flgEnumLiteral;
         astVisit(visitor, option);
+    }
+    node->enumDecl.len = i;
 
+    option = node->enumDecl.options;
+    for (; option; option = option->next) {
         if (option->enumOption.value == NULL) {
             option->enumOption.value = makeIntegerLiteral(
                 ctx->pool, &option->loc, nextValue++, NULL, NULL);
@@ -455,9 +459,9 @@ void bindEnumDecl(AstVisitor *visitor, AstNode *node)
             continue;
         }
 
-        TODO("support paths when eval is implemented");
+        // not known yet, this and the options after it are evaluated later
+        break;
     }
-    node->enumDecl.len = i;
     popScope(ctx->env);
 }
 
diff --git a/src/cxy/lang/middle/eval/enum.c b/src/cxy/lang/middle/eval/enum.c
index 45bcb00..59ef212 100644
--- a/src/cxy/lang/middle/eval/enum.c
+++ b/src/cxy/lang/middle/eval/enum.c
@@ -43,7 +43,7 @@ void evalEnumDecl(AstVisitor *visitor, AstNode *node)
 
         if (option->enumOption.value == NULL) {
             option->enumOption.value =
-                makeIntegerLiteral(ctx->pool, &option->loc, value, NULL, NULL);
+                makeIntegerLiteral(ctx->pool, &option->loc, value++, NULL, NULL);
         }
         else {
             value = integerLiteralValue(option->enumOption.value) + 1;
diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6435a79..4c2b5d2 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -57,6 +57,13 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
          nodeIs(expr, CharLit) || nodeIs(expr, BoolLit) ||
          isEnumLiteral(expr)) &&
         typeIs(node->type, Primitive)) {
+        if (isEnumLiteral(expr)) {
+            i64 value = getEnumLiteralValue(expr);
+            clearAstBody(expr);
+            expr->tag = astIntegerLit;
+            expr->intLiteral.isNegative = value < 0;
+            expr->intLiteral.value = value;
+        }
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
@@ -80,18 +87,6 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
                 expr->intLiteral.isNegative = false;
                 expr->intLiteral.uValue = expr->boolLiteral.value ? 1 : 0;
             }
-            else if (isEnumLiteral(expr)) {
-                i64 value = getEnumLiteralValue(expr);
-                expr->tag = astIntegerLit;
-                if (value < 0) {
-                    expr->intLiteral.isNegative = true;
-                    expr->intLiteral.value = value;
-                }
-                else {
-                    expr->intLiteral.isNegative = false;
-                    expr->intLiteral.uValue = value;
-                }
-            }
             else {
                 csAssert0(nodeIs(expr, IntegerLit));
             }
@@ -111,9 +106,7 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
             replaceAstNodeWith(node, expr);
         }
         else if (isCharacterType(node->type)) {
-            expr->charLiteral.value =
-                isEnumLiteral(expr) ? (u32)getEnumLiteralValue(expr)
-                                    : (u32)nodeGetNumericLiteral(expr);
+            expr->charLiteral.value = (u32)nodeGetNumericLiteral(expr);
             expr->tag = astCharLit;
             if (node->primitiveType.id == prtCChar)
                 expr->charLiteral.value = (u8)expr->charLiteral.value;
diff --git a/src/cxy/lang/middle/sema/enum.c b/src/cxy/lang/middle/sema/enum.c
index bc0d58f..e275a9e 100644
--- a/src/cxy/lang/middle/sema/enum.c
+++ b/src/cxy/lang/middle/sema/enum.c
@@ -10,8 +10,9 @@
 
 static int compareEnumOptionsByValue(const void *lhs, const void *rhs)
 {
-    return (int)(((EnumOptionDecl *)lhs)->value -
-                 ((EnumOptionDecl *)rhs)->value);
+    i64 left = ((EnumOptionDecl *)lhs)->value,
+        right = ((EnumOptionDecl *)rhs)->value;
+    return left < right ? -1 : left > right;
 }
 
 void checkEnumDecl(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From 362c5e471e82176bb771b5d861f03e8227ac434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 048/122] fix: diagnostics with malformed or missing format
 arguments aborted the compiler

---
 src/cxy/driver/cxyfile.c       | 2 +-
 src/cxy/lang/frontend/parser.c | 2 +-
 src/cxy/lang/middle/eval/for.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/driver/cxyfile.c b/src/cxy/driver/cxyfile.c
index adc7cc3..95c06fd 100644
--- a/src/cxy/driver/cxyfile.c
+++ b/src/cxy/driver/cxyfile.c
@@ -201,7 +201,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
         logError(cc->L,
                  NULL,
                  "parsing '{s}' failed: {s}",
-                 (FormatArg[]){{.s = except}});
+                 (FormatArg[]){{.s = path}, {.s = except}});
         return false;
     }
 
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index c7ac96c..4fd680c 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1686,7 +1686,7 @@ static AstNode *substitute(Parser *P, bool allowStructs)
     if (match(P, tokHash, tokSubstitutue)) {
         parserError(P,
                     &previous(P)->fileLoc,
-                    "compile time markers `#` or `#{` cannot be used in "
+                    "compile time markers `#` or `#{{` cannot be used in "
                     "current context",
                     NULL);
     }
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index 0cde15d..e47a907 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -242,7 +242,7 @@ void evalForStmt(AstVisitor *visitor, AstNode *node)
                      &rangeLoc,
                      "`#for` loop range expression is not comptime iterable, "
                      "parameter '{s}' is not variadic",
-                     NULL);
+                     (FormatArg[]){{.s = node->forStmt.range->ident.value}});
             node->tag = astError;
             return;
         }
-- 
2.43.0


From e3c71c2c06cf6df73d5be9bdb67e41b5b6816ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:20 +0000
Subject: [PATCH 049/122] fix: compile-time type identity: classes, arrays and
 pointers compared wrongly, declarations by name only

---
 src/cxy/lang/middle/eval/eval.c |  4 ++--
 src/cxy/lang/middle/eval/path.c | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index de7ca56..7608653 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -85,9 +85,9 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
                comptimeCompareManyTypes(lhs->funcType.params,
                                         rhs->funcType.params);
     case astEnumDecl:
-        return lhs->enumDecl.name == rhs->enumDecl.name;
     case astStructDecl:
-        return lhs->structDecl.name == rhs->structDecl.name;
+    case astClassDecl:
+        return lhs == rhs || (lhs->type && lhs->type == rhs->type);
     case astFuncDecl:
         return lhs->funcDecl.name == rhs->funcDecl.name;
     case astTypeRef:
diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index 6324a19..aed2a26 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -85,7 +85,13 @@ void evalPathEpilogue(AstVisitor *visitor,
             node->tag = astError;
             return;
         }
-        const Type *type = stripAll(symbol->type);
+        // a pointer is not the type it points to
+        const Type *type = symbol->type;
+        while (typeIs(type, Wrapped) || typeIs(type, Reference))
+            type = typeIs(type, Wrapped) ? type->wrapped.target
+                                         : type->reference.referred;
+        if (!typeIs(resolveType(type), Pointer))
+            type = stripAll(type);
     retry:
         switch (type->tag) {
         case typPrimitive:
@@ -121,14 +127,11 @@ void evalPathEpilogue(AstVisitor *visitor,
             node->type = type;
             break;
         }
-        case typPointer:
-        case typArray:
-        case typReference:
-            *node = *symbol;
-            break;
         case typInfo:
-            type = symbol->type->info.target;
+            type = type->info.target;
             goto retry;
+        case typPointer:
+        case typArray:
         case typTuple:
         case typUnion:
         case typThis:
-- 
2.43.0


From 6aca14cfd1a7b79526dd9163e36ecd4f91497c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 050/122] fix: switch cases that assign or move a variable did
 not update its drop flags

---
 src/cxy/lang/middle/mem/manage.c | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 83e228d..deefde8 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -131,27 +131,6 @@ static void restoreVariableState(MemContext *ctx, DynArray *vars)
     }
 }
 
-static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
-{
-    bool allMaybeAssigned = true;
-    for (u32 i = 0; i < lhs->size; i++) {
-        VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
-        const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
-        csAssert0(varLhs->variable == varRhs->variable);
-        VariableState state;
-        if (varLhs->state == varRhs->state)
-            state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned)
-            state = vtsMaybeAssigned;
-        else
-            state = vtsUninitialized;
-
-        varLhs->state = state;
-        allMaybeAssigned = allMaybeAssigned && state == vtsMaybeAssigned;
-    }
-    return allMaybeAssigned;
-}
-
 static bool nodeNeedsMemMgmt(const AstNode *node)
 {
     const Type *type = resolveUnThisUnwrapType(node->type);
@@ -778,7 +757,7 @@ static void visitSwitch(AstVisitor *visitor, AstNode *node)
         DynArray rhs = captureVariableState(ctx);
         astVisit(visitor, esac);
         restoreVariableState(ctx, &rhs);
-        mergeVariableStates(&lhs, &rhs);
+        mergeUpdateVariableStates(ctx, &lhs, &rhs);
         freeDynArray(&rhs);
     }
     updateVariableStates(ctx, &lhs);
@@ -851,7 +830,9 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
         [astUnaryExpr] = visitUnaryExpr,
         [astAssignExpr] = visitAssignExpr,
         [astCallExpr] = visitCallExpr,
+    DynArray before = captureVariableState(ctx);
         [astTupleExpr] = visitTupleExpr,
+        updateVariableStates(ctx, &before);
         [astStructExpr] = visitStructExpr,
         [astArrayExpr] = visitArrayExpr,
         [astUnionValueExpr] = visitUnionValueExpr,
@@ -859,6 +840,7 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
         [astFuncDecl] = visitFuncDecl,
         [astGenericDecl] = astVisitSkip,
         [astMacroDecl] = astVisitSkip
+    freeDynArray(&before);
     }, .fallback = astVisitFallbackVisitAll, .dispatch = withSavedStack);
     // clang-format on
 
-- 
2.43.0


From a2d87755b12ead870565f6e1504a99969bdd2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 051/122] fix: assignments, conditional expressions, delete and
 jumps out of loops left owned values destroyed twice, too early or never

---
 src/cxy/lang/middle/mem/manage.c        | 161 +++++++++++++++++-------
 src/cxy/lang/middle/simplify/simplify.c |   6 +-
 2 files changed, 124 insertions(+), 43 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index deefde8..c12985a 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -238,6 +238,9 @@ static AstNode *makeDropVariable(MemContext *ctx,
         var->type);
     drop->backendCallExpr.state =
         updateInChildLoop ? vtsMaybeAssigned : vt->state;
+    // only an earlier iteration could have assigned the variable
+    if (vt->state != vtsAssigned && vt->dropFlags == NULL)
+        insertedDropFlags(ctx, vt);
     vt->lastDropScope = ctx->currentBlock;
     return makeExprStmt(
         ctx->pool, &var->loc, flgNone, drop, NULL, makeVoidType(ctx->types));
@@ -283,12 +286,6 @@ static void transformToDropExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
-static AstNode *makeCopyExpr(MemContext *ctx, AstNode *expr)
-{
-    return makeBackendCallExpr(
-        ctx->pool, &expr->loc, flgNone, bfiCopy, expr, expr->type);
-}
-
 static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
 {
     node->tag = astBackendCall;
@@ -296,7 +293,60 @@ static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
-static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
+static AstNode *makeZeromemExpr(MemContext *ctx, AstNode *expr)
+{
+    expr = makePointerOfExpr(ctx->pool,
+                             &expr->loc,
+                             flgNone,
+                             deepCloneAstNode(ctx->pool, expr),
+                             NULL,
+                             makePointerType(ctx->types, expr->type, flgNone));
+    return makeExprStmt(ctx->pool,
+                        &expr->loc,
+                        flgNone,
+                        makeBackendCallExpr(ctx->pool,
+                                            &expr->loc,
+                                            flgNone,
+                                            bfiZeromem,
+                                            expr,
+                                            makeVoidType(ctx->types)),
+                        NULL,
+                        makeVoidType(ctx->types));
+}
+
+// Whoever gets the value of the given expression becomes an owner of the value
+static void copyLeftValue(MemContext *ctx, AstNode *expr)
+{
+    if (expr == NULL)
+        return;
+    if (isLeftValueExpr(expr)) {
+        if (nodeNeedsMemMgmt(expr))
+            transformToCopyExpr(
+                ctx, expr, deepCloneAstNode(ctx->pool, expr));
+        return;
+    }
+    switch (expr->tag) {
+    case astTernaryExpr:
+        if (expr->ternaryExpr.body) {
+            copyLeftValue(ctx, expr->ternaryExpr.body);
+            copyLeftValue(ctx, expr->ternaryExpr.otherwise);
+        }
+        break;
+    case astGroupExpr:
+        copyLeftValue(ctx, expr->groupExpr.expr);
+        break;
+    case astCastExpr:
+    case astTypedExpr:
+        copyLeftValue(ctx, expr->castExpr.expr);
+        break;
+    default:
+        break;
+    }
+}
+
+static void sealCurrentJumpPoint(MemContext *ctx,
+                                 bool isReturn,
+                                 const AstNode *returned)
 {
     if (dynArrayEmpty(&ctx->scopes))
         return;
@@ -306,7 +356,7 @@ static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
         {
             VariableTrace *vt = findVariableTrace(ctx, var[0]);
             csAssert0(vt);
-            if (vtNeedsMemMgmt(ctx, vt)) {
+            if (var[0] != returned && vtNeedsMemMgmt(ctx, vt)) {
                 astModifierAdd(&ctx->blockModifier,
                                makeDropVariable(ctx, vt, false));
             }
@@ -387,14 +437,15 @@ static void visitVariableDecl(AstVisitor *visitor, AstNode *node)
     AstNode *init = node->varDecl.init;
     if (!isLocalVariable(node)) {
         astVisit(visitor, init);
+        if (hasFlag(node, Move))
+            copyLeftValue(ctx, init);
         return;
     }
 
     insertVariableTrace(ctx, node, init ? vtsAssigned : vtsUninitialized);
     pushOnDynArray(ctx->locals, &node);
     astVisit(visitor, init);
-    if (isLeftValueExpr(init) && nodeNeedsMemMgmt(init))
-        node->varDecl.init = makeCopyExpr(ctx, init);
+    copyLeftValue(ctx, init);
 }
 
 static void visitIdentifier(AstVisitor *visitor, AstNode *node)
@@ -428,10 +479,11 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
             return;
         case opDelete:
             vt->state = vtsDropped;
-            if (nodeNeedsMemMgmt(node)) {
+            if (nodeNeedsMemMgmt(operand)) {
                 transformToDropExpr(ctx, node, operand);
+                return;
             }
-            return;
+            break;
         default:
             break;
         }
@@ -440,6 +492,10 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     if (node->unaryExpr.op == opDelete) {
         if (nodeNeedsMemMgmt(operand)) {
             transformToDropExpr(ctx, node, operand);
+            if (nodeIs(operand, MemberExpr) || nodeIs(operand, IndexExpr))
+                // the owner will still be dropped
+                astModifierAddAsNext(&ctx->blockModifier,
+                                     makeZeromemExpr(ctx, operand));
         }
         else {
             node->tag = astBackendCall;
@@ -449,6 +505,27 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// The new value might depend on the value being replaced, evaluate it before
+// the old value is dropped
+static void evaluateAssignedValue(MemContext *ctx, AstNode *node)
+{
+    AstNode *rhs = node->assignExpr.rhs;
+    if (nodeIs(rhs, NullLit))
+        return;
+    const Type *type = node->assignExpr.lhs->type;
+    AstNode *value = makeVarDecl(ctx->pool,
+                                 &rhs->loc,
+                                 flgTemporary,
+                                 makeAnonymousVariable(ctx->strings, "_nv"),
+                                 NULL,
+                                 rhs,
+                                 NULL,
+                                 type);
+    astModifierAdd(&ctx->blockModifier, value);
+    node->assignExpr.rhs = makeResolvedIdentifier(
+        ctx->pool, &rhs->loc, value->_name, 0, value, NULL, type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -459,7 +536,10 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
+        if (nodeNeedsMemMgmt(lhs))
+            copyLeftValue(ctx, rhs);
         if (vtNeedsMemMgmt(ctx, vt)) {
+            evaluateAssignedValue(ctx, node);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
@@ -474,18 +554,19 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
     }
 
     lhs = node->assignExpr.lhs;
-    if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
-        astModifierAdd(&ctx->blockModifier,
-                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
-        astVisit(visitor, node->assignExpr.rhs);
-    }
-    else {
+    AstNode *rhs = node->assignExpr.rhs;
+    const bool drop = isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs);
+    if (drop)
+        astVisit(visitor, rhs);
+    else
         astVisitFallbackVisitAll(visitor, node);
-    }
 
-    AstNode *rhs = node->assignExpr.rhs;
-    if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
-        node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
+    copyLeftValue(ctx, rhs);
+
+    if (drop) {
+        evaluateAssignedValue(ctx, node);
+        astModifierAdd(&ctx->blockModifier,
+                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
     }
 }
 
@@ -512,9 +593,8 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
 
     for (; arg && param; arg = arg->next, param = param->next) {
         astVisit(visitor, arg);
-        if (isLeftValueExpr(arg) && nodeNeedsMemMgmt(param) &&
-            !hasFlag(arg, Move))
-            transformToCopyExpr(ctx, arg, deepCloneAstNode(ctx->pool, arg));
+        if (nodeNeedsMemMgmt(param) && !hasFlag(arg, Move))
+            copyLeftValue(ctx, arg);
     }
 }
 
@@ -530,8 +610,7 @@ static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
                 expr = from;
         }
 
-        if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr))
-            transformToCopyExpr(ctx, expr, deepCloneAstNode(ctx->pool, expr));
+        copyLeftValue(ctx, expr);
     }
 }
 
@@ -542,8 +621,7 @@ static void visitStructExpr(AstVisitor *visitor, AstNode *node)
     for (; field; field = field->next) {
         AstNode *value = field->fieldExpr.value;
         astVisit(visitor, value);
-        if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
-            field->fieldExpr.value = makeCopyExpr(ctx, value);
+        copyLeftValue(ctx, value);
     }
 }
 
@@ -553,8 +631,7 @@ static void visitArrayExpr(AstVisitor *visitor, AstNode *node)
     AstNode *elem = node->arrayExpr.elements;
     for (; elem; elem = elem->next) {
         astVisit(visitor, elem);
-        if (isLeftValueExpr(elem) && nodeNeedsMemMgmt(elem))
-            transformToCopyExpr(ctx, elem, deepCloneAstNode(ctx->pool, elem));
+        copyLeftValue(ctx, elem);
     }
 }
 
@@ -563,14 +640,13 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
     MemContext *ctx = getAstVisitorContext(visitor);
     AstNode *value = node->unionValue.value;
     astVisit(visitor, value);
-    if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
-        node->unionValue.value = makeCopyExpr(ctx, value);
+    copyLeftValue(ctx, value);
 }
 
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    AstNode *expr = node->returnStmt.expr;
+    AstNode *expr = node->returnStmt.expr, *returned = NULL;
 
     if (expr) {
         ctx->returnStmt = true;
@@ -581,9 +657,10 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
             VariableTrace *vt = findVariableTrace(ctx, var);
             csAssert0(vt);
             vt->state = vtsMoved;
+            returned = var;
         }
-        else if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr)) {
-            expr = makeCopyExpr(ctx, expr);
+        else {
+            copyLeftValue(ctx, expr);
         }
 
         if (!isLiteralExpr(expr)) {
@@ -615,19 +692,19 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         ctx->returnStmt = false;
     }
 
-    sealCurrentJumpPoint(ctx, true);
+    sealCurrentJumpPoint(ctx, true, returned);
 }
 
 static void visitBreakStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    sealCurrentJumpPoint(ctx, false, NULL);
 }
 
 static void visitContinueStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    sealCurrentJumpPoint(ctx, false, NULL);
 }
 
 static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
@@ -753,7 +830,9 @@ static void visitSwitch(AstVisitor *visitor, AstNode *node)
     MemContext *ctx = getAstVisitorContext(visitor);
     astVisit(visitor, node->switchStmt.cond);
     DynArray lhs = captureVariableState(ctx);
+    DynArray before = captureVariableState(ctx);
     for (AstNode *esac = node->switchStmt.cases; esac; esac = esac->next) {
+        updateVariableStates(ctx, &before);
         DynArray rhs = captureVariableState(ctx);
         astVisit(visitor, esac);
         restoreVariableState(ctx, &rhs);
@@ -761,6 +840,7 @@ static void visitSwitch(AstVisitor *visitor, AstNode *node)
         freeDynArray(&rhs);
     }
     updateVariableStates(ctx, &lhs);
+    freeDynArray(&before);
     freeDynArray(&lhs);
 }
 
@@ -830,9 +910,7 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
         [astUnaryExpr] = visitUnaryExpr,
         [astAssignExpr] = visitAssignExpr,
         [astCallExpr] = visitCallExpr,
-    DynArray before = captureVariableState(ctx);
         [astTupleExpr] = visitTupleExpr,
-        updateVariableStates(ctx, &before);
         [astStructExpr] = visitStructExpr,
         [astArrayExpr] = visitArrayExpr,
         [astUnionValueExpr] = visitUnionValueExpr,
@@ -840,7 +918,6 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
         [astFuncDecl] = visitFuncDecl,
         [astGenericDecl] = astVisitSkip,
         [astMacroDecl] = astVisitSkip
-    freeDynArray(&before);
     }, .fallback = astVisitFallbackVisitAll, .dispatch = withSavedStack);
     // clang-format on
 
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 61c0947..60ca23e 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -741,10 +741,13 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
 
         if (nodeNeedsTemporaryVar(arg)) {
             astVisit(visitor, arg);
+            // arguments passed by value are moved to the callee
+            const u64 move =
+                isReferenceType(func->type->func.params[i]) ? flgNone : flgMove;
             AstNode *var =
                 makeVarDecl(ctx->pool,
                             &arg->loc,
-                            flgTemporary | (arg->flags & flgConst),
+                            flgTemporary | move | (arg->flags & flgConst),
                             makeAnonymousVariable(ctx->strings, "_a"),
                             NULL,
                             deepCloneAstNode(ctx->pool, arg),
@@ -878,6 +881,7 @@ static void replaceWithVariable(AstNode *node, AstNode *var)
     clearAstBody(node);
     node->ident.value = var->varDecl.name;
     node->ident.resolvesTo = var;
+    node->flags |= flgMove;
 }
 
 // Statements needed to evaluate the right hand side of a logical operator must
-- 
2.43.0


From 574396f2641cb120f9f097bc18b95f89d323e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 052/122] fix: the value of a catch expression was never
 destroyed

---
 src/cxy/lang/middle/sema/exception.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 6b16774..c2e3727 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -321,16 +321,19 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
     AstNode *parent = node->parentScope;
     if (!nodeIs(parent, ExprStmt)) {
         if (catcher->variable != NULL) {
-            node->tag = astPath;
+            // the value is owned by the expression
+            AstNode *variable = catcher->variable;
+            node->tag = astUnaryExpr;
             clearAstBody(node);
-            node->path.elements =
-                makeResolvedPathElement(ctx->pool,
-                                        &node->loc,
-                                        catcher->variable->_name,
-                                        flgNone,
-                                        catcher->variable,
-                                        NULL,
-                                        catcher->variable->type);
+            node->unaryExpr.isPrefix = true;
+            node->unaryExpr.op = opMove;
+            node->unaryExpr.operand = makeResolvedPath(ctx->pool,
+                                                       &node->loc,
+                                                       variable->_name,
+                                                       flgNone,
+                                                       variable,
+                                                       NULL,
+                                                       variable->type);
             node->type = catcher->variable->type;
         }
         else {
-- 
2.43.0


From 1991ae91e09e4b1dcdd03a684d9313add9ba723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:39 +0000
Subject: [PATCH 053/122] fix: arrays initialized with array literals of a
 different element type, or in aggregates, generated invalid C

---
 src/cxy/lang/backend/c/generate.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 6486b35..c92fc94 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -878,6 +878,24 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+// C arrays can only be initialized with an initializer list
+static void generateInitializer(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (!nodeIs(node, ArrayExpr)) {
+        astConstVisit(visitor, node);
+        return;
+    }
+    format(getState(ctx), "{{", NULL);
+    const AstNode *elem = node->arrayExpr.elements;
+    for (; elem; elem = elem->next) {
+        generateInitializer(visitor, elem);
+        if (elem->next)
+            format(getState(ctx), ", ", NULL);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
 static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
@@ -887,7 +905,7 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
         generateTypeName(ctx, getState(ctx), node->type);
         format(getState(ctx), ")", NULL);
     }
-    generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
+    generateInitializer(visitor, node);
 }
 
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1108,7 +1126,7 @@ static void visitFieldExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (nullInit)
         format(getState(ctx), " {{}", NULL);
     else
-        astConstVisit(visitor, node->fieldExpr.value);
+        generateInitializer(visitor, node->fieldExpr.value);
 }
 
 static void visitStructExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1135,7 +1153,7 @@ static void visitTupleExpr(ConstAstVisitor *visitor, const AstNode *node)
         if (i)
             format(getState(ctx), ",\n", NULL);
         format(getState(ctx), "._{u64} = ", (FormatArg[]){{.u64 = i}});
-        astConstVisit(visitor, member);
+        generateInitializer(visitor, member);
     }
     format(getState(ctx), "{<}\n}", NULL);
 }
@@ -1689,7 +1707,7 @@ static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
         if (nullInit)
             format(getState(ctx), " {{}", NULL);
         else
-            astConstVisit(visitor, node->varDecl.init);
+            generateInitializer(visitor, node->varDecl.init);
     }
     else {
         format(getState(ctx), " = {{}", NULL);
-- 
2.43.0


From 823c239e840ddf8ac06ab8d7571e0e14961ad230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 054/122] fix: a member chain after a call, an index or a tuple
 element had the type of its first member

---
 src/cxy/lang/frontend/parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 4fd680c..c7af554 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -57,6 +57,8 @@ static AstNode *callExpression(Parser *P, AstNode *callee);
 
 static AstNode *parsePath(Parser *P);
 
+static AstNode *pathElement(Parser *P);
+
 static AstNode *variable(
     Parser *P, bool isPublic, bool isExport, bool isExpression, bool woInit);
 
@@ -655,8 +657,16 @@ static AstNode *member(Parser *P, const Token *begin, AstNode *operand)
     else if (flags & flgAnnotation) {
         member = parseIdentifier(P);
     }
-    else
-        member = parsePath(P);
+    else if (check(P, tokIdent) && checkPeek(P, 1, tokLNot)) {
+        member = parseIdentifier(P);
+    }
+    else {
+        // the rest of the chain, i.e `f().a.b.c`, are members of this member
+        const Token tok = *current(P);
+        AstNode *element = pathElement(P);
+        member = newAstNode(
+            P, &tok, &(AstNode){.tag = astPath, .path = {.elements = element}});
+    }
 
     return newAstNode(
         P,
-- 
2.43.0


From 4ce52eca1299ced757c9824bff25baff46646e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 055/122] fix: variable states of branches were matched by
 their order in a hash map

---
 src/cxy/lang/middle/mem/manage.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c12985a..2d8b6d2 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -196,14 +196,30 @@ static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
     vt->variable->varDecl.dropFlags = vt->dropFlags;
 }
 
+static const VariableTrace *findCapturedVariable(const DynArray *vars,
+                                                 const AstNode *variable)
+{
+    // the order in which the variables were captured is that of a hash map,
+    // it can be different if variables were added in between
+    for (u32 i = 0; i < vars->size; i++) {
+        const VariableTrace *vt = &dynArrayAt(VariableTrace *, vars, i);
+        if (vt->variable == variable)
+            return vt;
+    }
+    return NULL;
+}
+
 static void mergeUpdateVariableStates(MemContext *ctx,
                                       DynArray *lhs,
                                       const DynArray *rhs)
 {
     for (u32 i = 0; i < lhs->size; i++) {
         VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
-        const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
-        csAssert0(varLhs->variable == varRhs->variable);
+        const VariableTrace *varRhs =
+            findCapturedVariable(rhs, varLhs->variable);
+        // only exists in the scope of one of the branches
+        if (varRhs == NULL)
+            continue;
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-- 
2.43.0


From 87cad403a0c27e37bd064ed18bf247137ef5a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 056/122] fix: a variable that shadows another one was confused
 with it in the generated C

---
 src/cxy/lang/backend/c/generate.c | 33 +++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index c92fc94..cbc90a6 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -29,6 +29,8 @@ typedef struct CodegenContext {
     FormatState types;
     FormatState state;
     cstring loopUpdate;
+    // names of the variables in the scopes being generated, innermost last
+    DynArray names;
     bool loopUpdateUsed;
     bool hasTestCases;
     bool memTraceEnabled;
@@ -1525,8 +1527,10 @@ static void visitReturnStmt(ConstAstVisitor *visitor, const AstNode *node)
 static void visitBlockStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    u64 names = ctx->names.size;
     format(getState(ctx), "{{{>}\n", NULL);
     generateMany(visitor, node->blockStmt.stmts, NULL, NULL, NULL);
+    ctx->names.size = names;
     format(getState(ctx), "{<}\n}", NULL);
     EosNl(ctx, node);
 }
@@ -1683,12 +1687,34 @@ static void visitBreakStmt(ConstAstVisitor *visitor, const AstNode *node)
     EosNl(ctx, node);
 }
 
+// A variable that shadows another variable needs a name of its own. The
+// variable it shadows can still be used in the scope of this variable, i.e in
+// the variable's initializer or to drop it when jumping out of the scope
+static void declareVariableName(CodegenContext *ctx, AstNode *node)
+{
+    if (hasFlag(node, TopLevelDecl) || node->varDecl.name == NULL)
+        return;
+    dynArrayFor(name, cstring, &ctx->names)
+    {
+        if (strcmp(*name, node->varDecl.name) == 0) {
+            char suffix[32];
+            sprintf(suffix, "__%u", (u32)ctx->names.size);
+            node->varDecl.name =
+                makeStringConcat(ctx->strings, node->varDecl.name, suffix);
+            break;
+        }
+    }
+    pushOnDynArray(&ctx->names, &node->varDecl.name);
+}
+
 static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     if (hasFlag(node, Comptime))
         return;
 
+    declareVariableName(ctx, (AstNode *)node);
+
     ((AstNode *)node)->codegen = (void *)true;
     addDebugInfo(ctx, node);
     if (findAttribute(node, S_volatile))
@@ -1791,8 +1817,13 @@ static void visitFuncDecl(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), ";", NULL);
     }
     else {
+        u64 names = ctx->names.size;
+        const AstNode *param = node->funcDecl.signature->params;
+        for (; param; param = param->next)
+            pushOnDynArray(&ctx->names, &param->funcParam.name);
         format(getState(ctx), " ", NULL);
         astConstVisit(visitor, node->funcDecl.body);
+        ctx->names.size = names;
         EosNl(ctx, node);
     }
     format(getState(ctx), "\n", NULL);
@@ -1865,6 +1896,7 @@ AstNode *generateCode(CompilerDriver *driver, AstNode *node)
         .strings = driver->strings,
         .state = newFormatState("  ", true),
         .types = newFormatState("  ", true),
+        .names = newDynArray(sizeof(cstring)),
         .hasTestCases = driver->hasTestCases,
         .memTraceEnabled = driver->options.withMemoryTrace,
         .debug = {.enabled = driver->options.debug, .pos = {}}};
@@ -1929,6 +1961,7 @@ AstNode *generateCode(CompilerDriver *driver, AstNode *node)
     // clang-format on
 
     astConstVisit(&visitor, node->metadata.node);
+    freeDynArray(&context.names);
     writeFormatState(&context.types, backend->output);
     writeFormatState(&context.state, backend->output);
     freeFormatState(&context.state);
-- 
2.43.0


From a3bd121cb52075de611b2fbd4ba06d00024a5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 057/122] fix: a returned value that is not used was never
 destroyed

---
 src/cxy/lang/middle/mem/manage.c | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 2d8b6d2..52a9d4c 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -614,6 +614,45 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// The value of a statement expression is the value of its last statement
+static bool isStatementExprValue(const AstNode *node)
+{
+    const AstNode *block = node->parentScope;
+    return node->next == NULL && nodeIs(block, BlockStmt) &&
+           nodeIs(block->parentScope, StmtExpr);
+}
+
+static void visitExprStmt(AstVisitor *visitor, AstNode *node)
+{
+    MemContext *ctx = getAstVisitorContext(visitor);
+    AstNode *expr = node->exprStmt.expr;
+    astVisit(visitor, expr);
+    if (!nodeIs(expr, CallExpr) || expr->type == NULL ||
+        isReferenceType(expr->type) || !nodeNeedsMemMgmt(expr) ||
+        hasFlag(getTypeDecl(expr->callExpr.callee->type), Extern) ||
+        isStatementExprValue(node))
+        return;
+
+    // nothing gets the returned value, it is dropped right away
+    AstNode *value = makeVarDecl(ctx->pool,
+                                 &expr->loc,
+                                 flgTemporary,
+                                 makeAnonymousVariable(ctx->strings, "_dv"),
+                                 NULL,
+                                 expr,
+                                 NULL,
+                                 expr->type);
+    astModifierAdd(&ctx->blockModifier, value);
+    node->exprStmt.expr = makeBackendCallExpr(
+        ctx->pool,
+        &expr->loc,
+        flgNone,
+        bfiDrop,
+        makeResolvedIdentifier(
+            ctx->pool, &expr->loc, value->_name, 0, value, NULL, value->type),
+        value->type);
+}
+
 static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -916,6 +955,7 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
     // clang-format off
     AstVisitor visitor = makeAstVisitor(&context, {
         [astBlockStmt] = visitBlockStmt,
+        [astExprStmt] = visitExprStmt,
         [astReturnStmt] = visitReturnStmt,
         [astContinueStmt] = visitContinueStmt,
         [astBreakStmt] = visitBreakStmt,
-- 
2.43.0


From 1713a511952c1932de8080ef46edbfa0f35dfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 058/122] fix: bind the variable of a match case in the scope
 of the case

---
 src/cxy/lang/middle/bind/resolve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 6904594..092b59b 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -724,6 +724,7 @@ void bindCaseStmt(AstVisitor *visitor, AstNode *node)
 
     astVisit(visitor, node->caseStmt.match);
     if (node->caseStmt.variable) {
+        node->caseStmt.variable->parentScope = node;
         defineSymbol(ctx->env,
                      ctx->L,
                      node->caseStmt.variable->ident.value,
-- 
2.43.0


From 67e04844218e482d21bdd8c42c94c9f993f1755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 059/122] fix: return statement with an expression that has no
 value

---
 src/cxy/lang/middle/mem/manage.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 52a9d4c..d76fdd9 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -703,7 +703,19 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
     MemContext *ctx = getAstVisitorContext(visitor);
     AstNode *expr = node->returnStmt.expr, *returned = NULL;
 
-    if (expr) {
+    if (expr && isVoidType(expr->type)) {
+        // there is no value to keep, evaluate the expression then return
+        astVisit(visitor, expr);
+        astModifierAdd(&ctx->blockModifier,
+                       makeExprStmt(ctx->pool,
+                                    &expr->loc,
+                                    flgNone,
+                                    expr,
+                                    NULL,
+                                    expr->type));
+        node->returnStmt.expr = NULL;
+    }
+    else if (expr) {
         ctx->returnStmt = true;
         AstNode *var = resolveIdentifier(expr);
         astVisit(visitor, expr);
-- 
2.43.0


From 76c8d85f574f88b3ded241be56a1e20dbc19894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 060/122] fix: closures that capture a constant

---
 src/cxy/lang/middle/sema/closure.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/closure.c b/src/cxy/lang/middle/sema/closure.c
index 62ee0a0..880d191 100644
--- a/src/cxy/lang/middle/sema/closure.c
+++ b/src/cxy/lang/middle/sema/closure.c
@@ -396,7 +396,7 @@ void checkClosureExpr(AstVisitor *visitor, AstNode *node)
 
         field->structField.type =
             makeTypeReferenceNode(ctx->pool, fieldType, &capture->node->loc);
-        field->type = fieldType;
+        field->type = unwrapType(fieldType, NULL);
     }
 
     if (typeIs(type, Error)) {
-- 
2.43.0


From 338098022887dc3da9b878051f7713962315842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 061/122] fix: constants of an optional or union type are
 optionals and unions

---
 src/cxy/lang/frontend/ttable.c | 4 +++-
 src/cxy/lang/frontend/types.c  | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index e98798b..45ba287 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -1026,7 +1026,9 @@ const Type *makeWrappedType(TypeTable *table, const Type *target, u64 flags)
         return target;
 
     target = flattenWrappedType(target, &flags);
-    Type type = {.tag = typWrapped, .flags = flags, .wrapped.target = target};
+    Type type = {.tag = typWrapped,
+                 .flags = flags | (target->flags & flgOptional),
+                 .wrapped.target = target};
     return getOrInsertType(table, &type).s;
 }
 
diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index ee82b27..550e03a 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -1269,6 +1269,7 @@ const Type *getOptionalTargetType(const Type *type)
     if (!hasFlag(type, Optional))
         return NULL;
 
+    type = unwrapType(type, NULL);
     return type->tStruct.decl->structDecl.typeParams->type;
 }
 
@@ -1291,6 +1292,7 @@ const Type *getResultTargetType(const Type *type)
 
 u32 findUnionTypeIndex(const Type *tagged, const Type *type)
 {
+    tagged = unwrapType(tagged, NULL);
     if (!typeIs(tagged, Union))
         return UINT32_MAX;
     type = resolveUnThisUnwrapType(type);
-- 
2.43.0


From f6c229a58ba45abfd6f27d5fa3498e3267119b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:39 +0000
Subject: [PATCH 062/122] fix: a nested closure took captured variables from a
 scope it cannot see

---
 src/cxy/lang/frontend/capture.h    |  2 ++
 src/cxy/lang/middle/bind/resolve.c |  3 +++
 src/cxy/lang/middle/sema/closure.c | 14 ++++++++------
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/frontend/capture.h b/src/cxy/lang/frontend/capture.h
index 76e09b3..f68370e 100644
--- a/src/cxy/lang/frontend/capture.h
+++ b/src/cxy/lang/frontend/capture.h
@@ -11,6 +11,8 @@ extern "C" {
 struct Capture {
     AstNode *node;
     AstNode *field;
+    // field of the enclosing closure the value is taken from, when nested
+    AstNode *outer;
     u32 id;
     u64 flags;
 };
diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 092b59b..913f69a 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -79,6 +79,7 @@ static AstNode *captureSymbol(BindContext *ctx,
                 break;
 
             // capture in current set
+            Capture *inner = prev;
             if (prev)
                 prev->flags = flgMember;
 
@@ -96,6 +97,8 @@ static AstNode *captureSymbol(BindContext *ctx,
                                               NULL,
                                               NULL);
             }
+            if (inner)
+                inner->outer = prev->field;
             captured = prev->field;
         }
         parent = parent->parentScope;
diff --git a/src/cxy/lang/middle/sema/closure.c b/src/cxy/lang/middle/sema/closure.c
index 880d191..6847232 100644
--- a/src/cxy/lang/middle/sema/closure.c
+++ b/src/cxy/lang/middle/sema/closure.c
@@ -100,18 +100,20 @@ static void transformClosureToStructExpr(AstVisitor *visitor,
     for (u64 i = 0; i < node->closureExpr.captureCount; i++) {
         Capture *capture = &node->closureExpr.capture[i];
         cstring name = getCapturedNodeName(capture->node);
-        const Type *fieldType = capture->node->type;
+        AstNode *source = capture->outer ?: capture->node;
+        const Type *fieldType = source->type;
         AstNode *value = makeResolvedPath(
             ctx->pool,
             &node->loc,
             name,
-            capture->node->flags | capture->flags |
-                (nodeIs(capture->node, FieldDecl) ? flgAddThis : flgNone),
-            capture->node,
+            source->flags | capture->flags |
+                (nodeIs(source, FieldDecl) ? flgAddThis : flgNone),
+            source,
             NULL,
             fieldType);
-        if (isClassOrStructType(fieldType) || isUnionType(fieldType) ||
-            isTupleType(fieldType))
+        if (!isReferenceType(fieldType) &&
+            (isClassOrStructType(fieldType) || isUnionType(fieldType) ||
+             isTupleType(fieldType)))
             value = makeReferenceOfExpr(
                 ctx->pool,
                 &value->loc,
-- 
2.43.0


From df823cac0a21e08016f0d6d36937f31f4d6ed23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:39 +0000
Subject: [PATCH 063/122] fix: storing a reference in a closure destroyed what
 the field referred to before

---
 src/cxy/lang/middle/mem/manage.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index d76fdd9..9652a10 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -139,6 +139,9 @@ static bool nodeNeedsMemMgmt(const AstNode *node)
         hasFlag(type, Extern)) {
         return false;
     }
+    // a reference does not own what it refers to
+    if (isReferenceType(type))
+        return false;
     return isClassType(type) || isDestructible(type);
 }
 
-- 
2.43.0


From 74849a82813405b0aaf013acb570490f92762d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 064/122] fix: default values with nested calls aborted the
 compiler

---
 src/cxy/lang/middle/simplify/simplify.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 60ca23e..db706c7 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -1338,6 +1338,12 @@ void visitMatchStmt(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static void visitFuncParamDecl(AstVisitor *visitor, AstNode *node)
+{
+    // a default value is evaluated by the calls that use it, not here
+    astVisit(visitor, node->funcParam.type);
+}
+
 static void visitFuncDecl(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -1554,6 +1560,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astStmtExpr] = visitStmtExpr,
         [astStructExpr] = visitStructExpr,
         [astMemberExpr] = visitMemberExpr,
+        [astFuncParamDecl] = visitFuncParamDecl,
         [astReferenceOf] = visitReferenceOfExpr,
         [astPointerOf] = visitReferenceOfExpr,
         [astForStmt] = visitForStmt,
-- 
2.43.0


From d32b0f3b133afe0f2a32de38e09bd63ffd465d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:26 +0000
Subject: [PATCH 065/122] fix: members of a class three levels up the chain are
 inherited once

---
 src/cxy/lang/middle/sema/class.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..4f67f20 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -15,7 +15,8 @@
 static inline bool isInheritable(AstNode *member)
 {
     return nodeIs(member, FieldDecl) &&
-           !(hasFlag(member, Static) || hasFlag(member, VTable));
+           !(hasFlag(member, Static) || hasFlag(member, VTable) ||
+             hasFlag(member, Inherited));
 }
 
 static void inheritClassMembers(TypingContext *ctx,
-- 
2.43.0


From 1ca14d9e728b3ec3a015346984c4fee43e32008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:26 +0000
Subject: [PATCH 066/122] fix: a structure's members can refer to the structure
 itself

---
 src/cxy/lang/middle/sema/struct.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 9ebd151..ce42f77 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -452,6 +452,8 @@ void checkStructDecl(AstVisitor *visitor, AstNode *node)
             ?: makeThisType(ctx->types, node->structDecl.name, flgNone);
     const Type *this = node->structDecl.thisType;
 
+    // members can refer to the structure being checked
+    node->type = this;
     ctx->currentStruct = node;
     evaluateStructMembers(visitor, node);
     ctx->currentStruct = NULL;
-- 
2.43.0


From 1eb31b3a6ff55400d0bbcc4f124d2cf14fc59d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 067/122] fix: field defaults of a base class were lost when
 the derived class has none

---
 src/cxy/lang/middle/sema/node.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/middle/sema/node.c b/src/cxy/lang/middle/sema/node.c
index 2ecd028..10f5449 100644
--- a/src/cxy/lang/middle/sema/node.c
+++ b/src/cxy/lang/middle/sema/node.c
@@ -594,15 +594,22 @@ AstNode *transformToUnionValue(TypingContext *ctx,
     return right;
 }
 
-static void implementCallBaseInitDefaults(TypingContext *ctx,
-                                          AstNode *func,
-                                          AstNode *base)
+static AstNode *findBaseInitDefaults(AstNode *base)
 {
+    if (base == NULL)
+        return NULL;
     base = resolveAstNode(base);
     csAssert0(nodeIs(base, ClassDecl));
     const Type *type = resolveAndUnThisType(base->type);
     csAssert0(typeIs(type, Class));
-    AstNode *initDefaults = findMemberDeclInType(type, S___defaults_init);
+    return findMemberDeclInType(type, S___defaults_init);
+}
+
+static void implementCallBaseInitDefaults(TypingContext *ctx,
+                                          AstNode *func,
+                                          AstNode *base)
+{
+    AstNode *initDefaults = findBaseInitDefaults(base);
     if (initDefaults == NULL)
         return;
     AstNode *call =
@@ -664,7 +671,8 @@ AstNode *implementDefaultInitializer(AstVisitor *visitor,
         last = member;
     }
 
-    if (!isVirtual && initializers.first == NULL)
+    if (!isVirtual && initializers.first == NULL &&
+        findBaseInitDefaults(node->classDecl.base) == NULL)
         return NULL;
 
     csAssert0(last);
-- 
2.43.0


From 290b11d22edcd24cac7812e78cbfc0859e7fad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 068/122] fix: virtual tables of classes three or more levels
 down the chain

---
 src/cxy/lang/middle/sema/check.h       | 1 +
 src/cxy/lang/middle/sema/class.c       | 7 ++++---
 src/cxy/lang/middle/sema/inheritance.c | 9 ++++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index f81a935..7d4e252 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -160,6 +160,7 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
                                const AstNode *generic,
                                AstNode *node);
 
+bool inheritanceHasVTable(const AstNode *node);
 AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
                                      AstNode *node,
                                      AstNode *init);
diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 4f67f20..22db503 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -312,7 +312,7 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
         goto checkClassInterfacesError;
 
     u8 isVirtual = hasFlag(node, Virtual);
-    if (hasFlag(base, Virtual) && !isVirtual) {
+    if (base && inheritanceHasVTable(resolvePath(base)) && !isVirtual) {
         // Add - vtable: &Base_VTable member
         vTableMember = inheritanceMakeVTableMember(ctx, node, NULL);
     }
@@ -378,8 +378,9 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
     }
     else if (vTableMember != NULL) {
         csAssert0(defaultInit);
-        patchDefaultInitializer(
-            ctx, defaultInit, vTableMember, inheritanceBuildVTable(ctx, node));
+        AstNode *vTable = inheritanceBuildVTable(ctx, node);
+        vTableMember->structField.value = deepCloneAstNode(ctx->pool, vTable);
+        patchDefaultInitializer(ctx, defaultInit, vTableMember, vTable);
     }
 
     if (retype) {
diff --git a/src/cxy/lang/middle/sema/inheritance.c b/src/cxy/lang/middle/sema/inheritance.c
index 5443590..f7dfd40 100644
--- a/src/cxy/lang/middle/sema/inheritance.c
+++ b/src/cxy/lang/middle/sema/inheritance.c
@@ -21,6 +21,13 @@ AstNode *vTableMembersFind(TypingContext *ctx,
     return NULL;
 }
 
+bool inheritanceHasVTable(const AstNode *node)
+{
+    const AstNode *member =
+        nodeIs(node, ClassDecl) ? node->classDecl.members : NULL;
+    return nodeIs(member, FieldDecl) && hasFlag(member, VTable);
+}
+
 static AstNode *makeVTableVariable(TypingContext *ctx,
                                    AstNode *node,
                                    AstNode *vTableType,
@@ -86,7 +93,7 @@ static AstNode *makeVTableMember(TypingContext *ctx,
 
 static inline AstNode *getVTableMember(AstNode *node)
 {
-    csAssert0(hasFlag(node, Virtual));
+    csAssert0(inheritanceHasVTable(node));
     return node->classDecl.members;
 }
 
-- 
2.43.0


From 7b71fee63c4cc23371245b66fc55c8a3cdc8f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 069/122] fix: virtual function types are declared before the
 tables that hold them

---
 src/cxy/lang/backend/c/generate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index cbc90a6..6214e63 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -397,6 +397,9 @@ static void generateUntaggedUnionType(CodegenContext *ctx, const Type *type)
 static void generateFunctionType(CodegenContext *ctx, const Type *type)
 {
     const AstNode *decl = getTypeDecl(type);
+    // generating the types this type depends on can require this type first,
+    // for example the virtual table of the class the function belongs to
+    ((Type *)type)->generated = false;
     generateType(ctx, type->func.retType);
     bool isMember = false;
     if (decl && decl->funcDecl.this_) {
@@ -408,6 +411,10 @@ static void generateFunctionType(CodegenContext *ctx, const Type *type)
         generateType(ctx, type->func.params[i]);
     }
 
+    if (type->generated)
+        return;
+    ((Type *)type)->generated = true;
+
     format(typeState(ctx), "typedef ", NULL);
     generateTypeName(ctx, typeState(ctx), type->func.retType);
     format(typeState(ctx), "(*", NULL);
-- 
2.43.0


From 567de906522b7b3abd5f17fdde936a4ebb3469f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 070/122] fix: virtual methods called through super or
 inherited by the calling class

---
 src/cxy/lang/middle/bind/resolve.c      |  1 +
 src/cxy/lang/middle/simplify/simplify.c | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 913f69a..1f10a33 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -155,6 +155,7 @@ static AstNode *resolvePathBaseUpChain(AstVisitor *visitor, AstNode *path)
                 ctx->pool,
                 &root->loc,
                 &(AstNode){.tag = astPathElem,
+                           .flags = flgInherited,
                            .next = root,
                            .pathElement = {.isKeyword = true,
                                            .name = S_super,
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index db706c7..3f5d582 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -71,8 +71,18 @@ static bool isVirtualDispatch(const AstNode *target, const AstNode *member)
     if (!isClassOrStructType(type))
         return false;
     AstNode *decl = getTypeDecl(type), *func = getTypeDecl(member->type);
+    if (!hasFlag(func, Virtual) || !nodeIs(decl, ClassDecl))
+        return false;
+
+    if (nodeIs(target, ReferenceOf))
+        target = target->unaryExpr.operand;
+    // `super.func()` calls the implementation of the base, but `super` is also
+    // what an unqualified inherited member resolves through
+    if (nodeIs(target, Identifier) && target->ident.value == S_super &&
+        !hasFlag(target, Inherited))
+        return false;
 
-    return hasFlag(decl, Virtual) && hasFlag(func, Virtual);
+    return hasFlag(decl->classDecl.members, VTable);
 }
 
 static AstNode *virtualDispatch(SimplifyContext *ctx,
-- 
2.43.0


From 535a285b731f0486f17f4c7b03b23579bcce895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 071/122] fix: receivers of overloaded operators are evaluated
 before the operands

---
 src/cxy/lang/middle/sema/node.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cxy/lang/middle/sema/node.c b/src/cxy/lang/middle/sema/node.c
index 10f5449..0e16afa 100644
--- a/src/cxy/lang/middle/sema/node.c
+++ b/src/cxy/lang/middle/sema/node.c
@@ -377,6 +377,17 @@ void transformToMemberCallExpr(AstVisitor *visitor,
                                AstNode *args)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
+    for (AstNode *arg = args; arg; arg = arg->next) {
+        if (!nodeIs(arg, CallExpr))
+            continue;
+        // arguments are moved to temporaries before this node, the target must
+        // be evaluated before them
+        if (target->type && !isReferenceType(target->type)) {
+            target = transformRValueToLValue(visitor, target);
+            target->flags &= ~flgMove;
+        }
+        break;
+    }
     AstNode *callee = makeMemberExpr(
         ctx->pool,
         &target->loc,
-- 
2.43.0


From 386521b441af1a202211bf2ad1a338d4711eef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 072/122] fix: a string could be assigned to a bool

---
 src/cxy/lang/frontend/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 550e03a..89018d2 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -232,7 +232,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return isCharacterType(from);
 
         default:
-            return to->primitive.id == from->primitive.id;
+            return typeIs(from, Primitive) &&
+                   to->primitive.id == from->primitive.id;
         }
     case typPointer:
         if (isVoidPointer(to))
-- 
2.43.0


From da9055e39a3924d2a9fb188419e877e8c8e98432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 073/122] fix: casts between unrelated classes, structs and
 tuples were accepted

---
 src/cxy/lang/frontend/types.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 89018d2..a1abe74 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -369,6 +369,12 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
     }
 
     if (unwrappedTo->tag == unwrappedFrom->tag) {
+        // Values can only be viewed as a value of a type they are related to
+        if ((typeIs(unwrappedTo, Class) || typeIs(unwrappedTo, Struct) ||
+             typeIs(unwrappedTo, Tuple)) &&
+            !isTypeAssignableFrom(unwrappedTo, unwrappedFrom) &&
+            !isTypeAssignableFrom(unwrappedFrom, unwrappedTo))
+            return false;
         if (to->tag != typPrimitive)
             return (fromFlags & flgConst) ? (toFlags & flgConst) : true;
     }
-- 
2.43.0


From f9c88cbf83966b7868793f7ebb9d7782234cd64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 074/122] fix: catch on an expression that does not raise
 crashed the compiler

---
 src/cxy/lang/middle/sema/binary.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index ca527c2..0308253 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -224,6 +224,20 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 
     Operator op = node->binaryExpr.op;
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
+    if (op == opCatch) {
+        if (typeIs(left, Error)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+        if (!isResultType(left)) {
+            logError(ctx->L,
+                     &lhs->loc,
+                     "catch used with a statement that does not throw",
+                     NULL);
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+    }
     bool isNullEquality = opKind == optEquality && nodeIs(rhs, NullLit);
 
     if ((opKind == optComparison || opKind == optEquality) &&
-- 
2.43.0


From b300895363ddce8c0ca30fcf6fe6e422ed921850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 075/122] fix: remainder of floats and arithmetic on strings
 were accepted

---
 src/cxy/lang/middle/sema/binary.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 0308253..e1bb810 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -355,8 +355,19 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     switch (opKind) {
     case optNumeric:
 
+        if (op == opMod && isFloatType(type)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "cannot perform binary operation '{s}' on non-integeral "
+                     "type '{t}'",
+                     (FormatArg[]){{.s = getBinaryOpString(op)}, {.t = type}});
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+
         if (isNumericType(type) ||
-            (isPointerType(type) && (op == opAdd || op == opSub)))
+            (isPointerType(type) && !typeIs(type, String) &&
+             (op == opAdd || op == opSub)))
             break;
 
         logError(ctx->L,
-- 
2.43.0


From 17262ae9a18cbce0c11692bd65a7425f5f602e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 076/122] fix: constants could be modified through tuple
 members and pointers, values that are not variables could be assigned

---
 src/cxy/lang/middle/sema/assign.c | 13 +++++++++++--
 src/cxy/lang/middle/sema/member.c |  9 +++++++--
 src/cxy/lang/middle/sema/unary.c  | 23 +++++++++++++++++++++++
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 8c7170a..3acb4f5 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -53,6 +53,8 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
         target = unwrapType(target, &flags);
+        if (typeIs(target, Pointer))
+            flags |= target->flags;
         if (isPointerType(target)) {
             lhs = typeIs(target, Pointer) ? target->pointer.pointed
                                           : target->array.elementType;
@@ -103,8 +105,15 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 
     bool isLeftAuto = typeIs(lhs, Auto);
 
-    // TODO check r-value-ness
-    if ((flags & flgConst) || hasFlag(left, Const) || hasFlag(lhs, Const)) {
+    if ((!nodeIsLeftValue(left) && !isReferenceType(lhs)) ||
+        hasFlag(left, EnumLiteral)) {
+        logError(ctx->L,
+                 &left->loc,
+                 "lhs of assignment expression must be a left value",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+    }
+    else if ((flags & flgConst) || hasFlag(left, Const) || hasFlag(lhs, Const)) {
         logError(ctx->L,
                  &node->loc,
                  "lhs of assignment expressions is a constant",
diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index 8d3ff9d..ed4ed0e 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -102,6 +102,8 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
                      (FormatArg[]){{.t = target_}, {.s = member->ident.value}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (target && nodeIs(member->ident.resolvesTo, FieldDecl))
+            node->flags |= (target->flags & flgConst);
         if (member->ident.super) {
             const Type *type = makeReferenceType(
                 ctx->types,
@@ -140,6 +142,8 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
                 (FormatArg[]){{.t = target_}, {.s = name->pathElement.name}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (target && nodeIs(name->pathElement.resolvesTo, FieldDecl))
+            node->flags |= (target->flags & flgConst);
     }
     else if (nodeIs(member, IntegerLit)) {
         if (!typeIs(target_, Tuple)) {
@@ -165,7 +169,8 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
         node->type = target_->tuple.members[member->intLiteral.value];
-        node->flags =
-            (target_->flags & flgConst) | (node->type->flags & flgConst);
+        node->flags = (target_->flags & flgConst) |
+                      (node->type->flags & flgConst) |
+                      (target->flags & flgConst);
     }
 }
diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index d6365e4..be77232 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -48,6 +48,12 @@ static void spreadTupleExpr(AstVisitor *visitor,
     replaceAstNode(node, parts);
 }
 
+static inline bool isAssignableOperand(const AstNode *node, const Type *type)
+{
+    return (nodeIsLeftValue(node) || isReferenceType(type)) &&
+           !hasFlag(node, EnumLiteral);
+}
+
 static const Type *checkPrefixExpr(AstVisitor *visitor,
                                    const Type *operand,
                                    AstNode *node)
@@ -65,6 +71,15 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
             operand = ERROR_TYPE(ctx);
             break;
         }
+        if (!isAssignableOperand(node->unaryExpr.operand, operand)) {
+            logError(
+                ctx->L,
+                &node->loc,
+                "operand of prefix operation '{s}' must be a left value",
+                (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+            operand = ERROR_TYPE(ctx);
+            break;
+        }
         // fallthrough
     case opMinus:
     case opPlus:
@@ -161,6 +176,7 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
             }
         }
         else if (isPointerType(operand)) {
+            node->flags |= (operand->flags & flgConst);
             node->tag = astIndexExpr;
             node->type = operand->pointer.pointed;
             node->indexExpr.target = node->unaryExpr.operand;
@@ -274,6 +290,13 @@ void checkUnaryExpr(AstVisitor *visitor, AstNode *node)
                  (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
         operand = ERROR_TYPE(ctx);
     }
+    else if (!isAssignableOperand(node->unaryExpr.operand, operand)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "operand of postfix operation '{s}' must be a left value",
+                 (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+        operand = ERROR_TYPE(ctx);
+    }
     else if (!isNumericType(operand)) {
         logError(ctx->L,
                  &node->unaryExpr.operand->loc,
-- 
2.43.0


From 834ef30f4eed4783563fb1986cef49da228c5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 077/122] fix: array initializers that do not fit their
 variable, union constants initialised from a value

---
 src/cxy/lang/middle/sema/variables.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index bd96c28..e61af84 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -57,10 +57,14 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     if (isArrayType(type_) && nodeIs(init, ArrayExpr)) {
-        const Type *target = resolveAndUnThisType(init_->array.elementType),
+        const Type *target =
+                       resolveAndUnThisType(resolveType(type_)->array.elementType),
                    *initTarget = resolveAndUnThisType(init_->array.elementType);
-        if (!typeIs(initTarget, Auto) &&
-            !isTypeAssignableFrom(target, initTarget)) {
+        u64 len = resolveType(type_)->array.len,
+            initLen = resolveType(init_)->array.len;
+        if ((len != UINT64_MAX && initLen != UINT64_MAX && initLen > len) ||
+            (!typeIs(initTarget, Auto) &&
+             !isTypeAssignableFrom(target, initTarget))) {
             logError(ctx->L,
                      &node->loc,
                      "array initializer of type {t} cannot be assigned to "
@@ -85,7 +89,8 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     node->type = typeIs(type_, Auto) ? init_ : type_;
-    if (typeIs(type_, Union) && type_ != init_) {
+    if (typeIs(type_, Union) &&
+        unwrapType(type_, NULL) != unwrapType(init_, NULL)) {
         u32 idx = findUnionTypeIndex(type_, init_);
         csAssert0(idx != UINT32_MAX);
         node->varDecl.init = makeUnionValueExpr(
-- 
2.43.0


From baf66d4b0b2d22bdaa99ab3c4431106fc4ae7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 078/122] fix: extra type arguments of a generic type crashed
 the compiler

---
 src/cxy/lang/middle/sema/generics.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 1905543..03b4975 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -300,8 +300,13 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
         paramsCount = type->generic.paramsCount + variadicArgumentsCount;
     const Type **paramTypes = NULL;
 
-    if (argsCount > paramsCount)
+    if (argsCount > paramsCount) {
+        logError(ctx->L,
+                 &args->loc,
+                 "too many type arguments, expecting at most {u64}, got {u64}",
+                 (FormatArg[]){{.u64 = paramsCount}, {.u64 = argsCount}});
         return node->type = ERROR_TYPE(ctx);
+    }
 
     paramTypes = mallocOrDie(sizeof(Type *) * paramsCount);
     for (; arg; index++, arg = arg->next) {
-- 
2.43.0


From 42056da3c8081d1494a9fec854642f19be80d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 079/122] fix: classes that inherit abstract functions could be
 created

---
 src/cxy/lang/middle/sema/inheritance.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cxy/lang/middle/sema/inheritance.c b/src/cxy/lang/middle/sema/inheritance.c
index f7dfd40..180259e 100644
--- a/src/cxy/lang/middle/sema/inheritance.c
+++ b/src/cxy/lang/middle/sema/inheritance.c
@@ -77,6 +77,18 @@ static AstNode *makeVTableMemberInit(TypingContext *ctx,
                              type_);
 }
 
+/*
+ * A class that does not implement all the functions of its table is abstract,
+ * whether it declares those functions or inherits them
+ */
+static void markIfAbstract(AstNode *node, AstNode *fields)
+{
+    for (; fields; fields = fields->next) {
+        if (nodeIs(fields->fieldExpr.value, NullLit))
+            node->flags |= flgAbstract;
+    }
+}
+
 static AstNode *makeVTableMember(TypingContext *ctx,
                                  AstNode *node,
                                  AstNode *vTable)
@@ -222,6 +234,7 @@ AstNode *inheritanceBuildVTableType(AstVisitor *visitor, AstNode *node)
         return NULL;
     astModifierAdd(&ctx->root, vTableType);
 
+    markIfAbstract(node, init.first);
     AstNode *vTable = makeVTableVariable(ctx, node, vTableType, init.first);
     AstNode *member = makeVTableMember(ctx, node, vTable);
     member->next = node->classDecl.members;
@@ -279,6 +292,7 @@ AstNode *inheritanceBuildVTable(TypingContext *ctx, AstNode *node)
         }
     }
 
+    markIfAbstract(node, value.first);
     AstNode *vTable = makeVTableVariable(ctx, node, type, value.first);
     return makeVTableMemberInit(ctx, node, vTable);
 }
-- 
2.43.0


From ced79c419c5163b5d3c8abdc05ff42f9410eec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 080/122] fix: break and continue in a closure within a loop
 were accepted

---
 src/cxy/lang/middle/bind/scope.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/middle/bind/scope.c b/src/cxy/lang/middle/bind/scope.c
index 7d189d0..dd945d5 100644
--- a/src/cxy/lang/middle/bind/scope.c
+++ b/src/cxy/lang/middle/bind/scope.c
@@ -279,6 +279,9 @@ static inline AstNode *findEnclosingScope(Env *env,
             scope->node->tag == secondTag || //
             scope->node->tag == thirdTag)
             return scope->node;
+        // a closure is not part of the loop it is written in
+        if (firstTag == astWhileStmt && nodeIs(scope->node, ClosureExpr))
+            break;
     }
     if (L) {
         logError(L,
-- 
2.43.0


From ddb6ac78b7348119d7c4c5c07248fc1076be3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 081/122] fix: a struct with a builtin type as its base crashed
 the compiler

---
 src/cxy/lang/middle/bind/resolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 1f10a33..1a075ca 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -27,7 +27,8 @@ static void bindInheritBaseFields(AstVisitor *visitor, AstNode *node)
     AstNodeList list = {};
     AstNode *base = node->structDecl.base;
     astVisit(visitor, base);
-    AstNode *target = resolvePath(base);
+    // Builtin types, e.g. `i32`, are not declarations and don't resolve
+    AstNode *target = nodeIs(base, Path) ? resolvePath(base) : NULL;
     if (!nodeIs(target, StructDecl)) {
         logError(ctx->L,
                  &base->loc,
-- 
2.43.0


From f7f2dfc5652fb6aa148c82b23b9ffd71df82631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:26 +0000
Subject: [PATCH 082/122] fix: members of constant fields, elements of constant
 members and parenthesised constants could be modified

---
 src/cxy/lang/middle/sema/assign.c |  3 +++
 src/cxy/lang/middle/sema/check.c  |  2 ++
 src/cxy/lang/middle/sema/member.c | 11 +++++++----
 src/cxy/lang/middle/sema/path.c   |  5 ++++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 3acb4f5..ada703a 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -55,6 +55,9 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
         target = unwrapType(target, &flags);
         if (typeIs(target, Pointer))
             flags |= target->flags;
+        else
+            // elements of an array are as constant as the array
+            flags |= left->indexExpr.target->flags;
         if (isPointerType(target)) {
             lhs = typeIs(target, Pointer) ? target->pointer.pointed
                                           : target->array.elementType;
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 231fbf6..bc6aa29 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -619,6 +619,8 @@ static void checkGroupExpr(AstVisitor *visitor, AstNode *node)
         expr->flags |= flgBlockReturns;
     }
     node->type = checkType(visitor, node->stmtExpr.stmt);
+    if (nodeIs(node, GroupExpr))
+        node->flags |= (expr->flags & flgConst);
 }
 
 static void checkMacroCallExpr(AstVisitor *visitor, AstNode *node)
diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index ed4ed0e..c57b6c8 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -92,6 +92,10 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    // members of a constant are constant
+    u64 constness =
+        (target ? target->flags & flgConst : flgNone) |
+        (isConstType(resolveType(target_)) ? flgConst : flgNone);
     target_ = stripAll(target_);
     if (nodeIs(member, Identifier)) {
         node->type = checkMember(visitor, target_, member);
@@ -103,7 +107,7 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
             node->type = ERROR_TYPE(ctx);
         }
         else if (target && nodeIs(member->ident.resolvesTo, FieldDecl))
-            node->flags |= (target->flags & flgConst);
+            node->flags |= (constness | (member->flags & flgConst));
         if (member->ident.super) {
             const Type *type = makeReferenceType(
                 ctx->types,
@@ -143,7 +147,7 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
             node->type = ERROR_TYPE(ctx);
         }
         else if (target && nodeIs(name->pathElement.resolvesTo, FieldDecl))
-            node->flags |= (target->flags & flgConst);
+            node->flags |= (constness | (name->flags & flgConst));
     }
     else if (nodeIs(member, IntegerLit)) {
         if (!typeIs(target_, Tuple)) {
@@ -170,7 +174,6 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
         }
         node->type = target_->tuple.members[member->intLiteral.value];
         node->flags = (target_->flags & flgConst) |
-                      (node->type->flags & flgConst) |
-                      (target->flags & flgConst);
+                      (node->type->flags & flgConst) | constness;
     }
 }
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index f8e9ddd..cd2c096 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -193,7 +193,10 @@ void checkPath(AstVisitor *visitor, AstNode *node)
             node->type = ERROR_TYPE(ctx);
             return;
         }
-        flags = elem->flags;
+        // fields of a constant are constant
+        flags = elem->flags | (nodeIs(elem->pathElement.resolvesTo, FieldDecl)
+                                   ? flags & flgConst
+                                   : flgNone);
         prev = stripAll(type);
     }
 
-- 
2.43.0


From f4820b31bbd720433ef14b887f4e78522f39d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 083/122] fix: removing from a hash table whose probe chain
 wraps around lost other elements; rehash sized the hash array by the element

---
 src/cxy/core/htable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..7b7501e 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -63,7 +63,7 @@ static inline void rehashTable(HashTable *hashTable, size_t elemSize)
     if (new_capacity <= hashTable->capacity)
         new_capacity = hashTable->capacity * 2 + 1;
     void *new_elems = mallocOrDie(new_capacity * elemSize);
-    HashCode *new_hashes = callocOrDie(new_capacity, elemSize);
+    HashCode *new_hashes = callocOrDie(new_capacity, sizeof(HashCode));
     for (size_t i = 0, n = hashTable->capacity; i < n; ++i) {
         HashCode hash = hashTable->hashes[i];
         if (!isOccupiedHash(hash))
@@ -182,7 +182,10 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
         // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        bool moves = index < next_index
+                         ? desired_index <= index || desired_index > next_index
+                         : desired_index <= index && desired_index > next_index;
+        if (moves) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From 794e8a0c86f78b4de89bc568ea1ffafc3e7d60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 084/122] fix: hmap stored items with the same home slot twice,
 returned stale item pointers and could not be used after clearing

---
 src/cxy/core/hmap.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..51cfed1 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -135,7 +135,7 @@ static HmapStatus hmapPutInternal(Hmap *self, void *data)
         }
 
         u64 p = hmapProbe(self, i, h);
-        if (j >= p) {
+        if (j > p) {
             memcpy((char *)self->sspace1,
                    (char *)self->data + i * hmapStep(self),
                    hmapStep(self));
@@ -185,10 +185,9 @@ void hmapDestroy(Hmap *self)
 
 void hmapClear(Hmap *self)
 {
-    free(self->data);
-    self->nslots = 0;
+    if (self->data != NULL)
+        memset(self->data, 0, self->nslots * hmapStep(self));
     self->nitems = 0;
-    self->data = NULL;
 }
 
 void hmapRemove(Hmap *self, void *data)
@@ -242,6 +241,8 @@ HmapStatus hmapPut(Hmap *self, void *data)
     HmapStatus status = hmapPutInternal(self, data);
     if (status.s)
         hmapResizeMore(self);
+    // the item may have moved to a different slot
+    status.f = hmapGet(self, data);
     return status;
 }
 
-- 
2.43.0


From 4052b80791815c9a50f95b3e12a4cc6aa3b90b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 085/122] fix: reallocating tracked pool memory dropped its
 header and broke the allocation list; reset kept cached items of reclaimed
 blocks

---
 src/cxy/core/mempool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/mempool.c b/src/cxy/core/mempool.c
index 6fe365f..709badf 100644
--- a/src/cxy/core/mempool.c
+++ b/src/cxy/core/mempool.c
@@ -94,12 +94,18 @@ void *reallocTrackedMem(MemPool *pool, void *ptr, size_t size)
 {
     TrackedMemoryItem *item = ((TrackedMemoryItem *)ptr) - 1;
     pool->trackedAllocations.allocated -= item->size;
-    item = reallocOrDie(item, size);
+    item = reallocOrDie(item, size + sizeof(TrackedMemoryItem));
     item->size = size;
     pool->trackedAllocations.allocated += size;
 
     if (item->prev)
         item->prev->next = item;
+    else
+        pool->trackedAllocations.first = item;
+    if (item->next)
+        item->next->prev = item;
+    else
+        pool->trackedAllocations.last = item;
     return item + 1;
 }
 
@@ -143,6 +149,8 @@ void resetMemPool(MemPool *mem_pool)
         block = block->next;
     }
     mem_pool->cur = mem_pool->first;
+    // cached items live in the blocks that have just been reclaimed
+    memset(mem_pool->caches, 0, sizeof(mem_pool->caches));
 }
 
 void freeMemPool(MemPool *mem_pool)
-- 
2.43.0


From d59e34eda361a23eef11868bda3f1faf17ab0fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 086/122] fix: pushing on a dynamic array returned the address
 past the element

---
 src/cxy/core/array.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cxy/core/array.c b/src/cxy/core/array.c
index 698097a..4ee43a8 100644
--- a/src/cxy/core/array.c
+++ b/src/cxy/core/array.c
@@ -53,8 +53,7 @@ void *pushOnDynArrayExplicit(DynArray *array, const void *elem, size_t elemSize)
     memcpy((char *)array->elems + array->elemSize * array->size,
            elem,
            array->elemSize);
-    array->size++;
-    return array->elems + array->elemSize * array->size;
+    return (char *)array->elems + array->elemSize * array->size++;
 }
 
 void copyDynArray(DynArray *dst, const DynArray *src)
-- 
2.43.0


From 8e9dbfd3ba5857783d3d2cc629d7f79c389e3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 087/122] fix: growing an empty string builder by nothing
 looped forever; two byte characters were not terminated

---
 src/cxy/core/sb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/sb.c b/src/cxy/core/sb.c
index 90a1558..2e3b878 100644
--- a/src/cxy/core/sb.c
+++ b/src/cxy/core/sb.c
@@ -22,7 +22,7 @@ Stack_str_8 wcharToStr(wchar chr)
     else if (chr < 0x800) {
         return (Stack_str_8){.str = {[0] = (char)(0xC0 | (chr >> 6)),
                                      [1] = (char)(0x80 | (chr & 0x3F)),
-                                     [3] = '\0',
+                                     [2] = '\0',
                                      [5] = 2}};
     }
     else if (chr < 0x10000) {
@@ -48,6 +48,8 @@ Stack_str_8 wcharToStr(wchar chr)
 void stringBuilderGrow(StringBuilder *sb, u64 size)
 {
     if (sb->data == NULL) {
+        if (size == 0)
+            size = __cxy_builtins_string_builder_DEFAULT_CAPACITY;
         sb->data = mallocOrDie(size + 1);
         sb->capacity = size;
     }
-- 
2.43.0


From 3e561c1a1204c80660f599877c87bca142c9b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 088/122] fix: default anonymous names were not unique and read
 past their prefix; string concatenation overran its buffer

---
 src/cxy/core/strpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 616430d..1163434 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -95,7 +95,7 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
     u64 len;
     if (prefix == NULL) {
         prefix = "cxy_anonymous_var";
-        len = 19;
+        len = strlen(prefix);
     }
     else
         len = strlen(prefix);
@@ -119,7 +119,7 @@ const char *makeStringConcat_(StrPool *pool, const char *s1, ...)
     const char *s = va_arg(ap, const char *);
     while (s) {
         size_t sz = strlen(s);
-        csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
+        csAssert0(len + sz < sizeof(variable));
         memcpy(&variable[len], s, sz);
         s = va_arg(ap, const char *);
         len += sz;
@@ -141,7 +141,7 @@ cstring joinPath_(StrPool *pool, const char *p1, ...)
         size_t sz = strlen(s);
         const char *next = va_arg(ap, const char *);
         if (sz > 0) {
-            csAssert0(sz + len < PATH_MAX);
+            csAssert0(sz + len + 1 < PATH_MAX);
             memcpy(&path[len], s, sz);
             len += sz;
             if (next && s[sz - 1] != '/')
-- 
2.43.0


From 8f932c871f834ae6b15f70c6f83e008b535d34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 089/122] fix: command line errors overran their buffer and
 were taken as format strings; unsupported enum values were reported without a
 message

---
 src/cxy/core/args.c      | 145 ++++++++++++++++++++++-----------------
 src/cxy/driver/options.c |  47 +++++++------
 2 files changed, 108 insertions(+), 84 deletions(-)

diff --git a/src/cxy/core/args.c b/src/cxy/core/args.c
index d16f364..e9e7e58 100644
--- a/src/cxy/core/args.c
+++ b/src/cxy/core/args.c
@@ -330,10 +330,11 @@ static bool cmdParseCommandArguments(CmdParser *P,
                 (dst)[reWrite++] = (char *)arg;
             }
             else if (npos >= cmd->npos) {
-                sprintf(cmd->P->error,
-                        "error: unexpected number of positional arguments "
-                        "passed, expecting %u\n",
-                        cmd->npos);
+                snprintf(cmd->P->error,
+                         sizeof(cmd->P->error),
+                         "error: unexpected number of positional arguments "
+                         "passed, expecting %u\n",
+                         cmd->npos);
                 return false;
             }
             else {
@@ -352,9 +353,10 @@ static bool cmdParseCommandArguments(CmdParser *P,
 
         // parse argument value if any
         if (flag == NULL) {
-            sprintf(cmd->P->error,
-                    "error: unrecognized command argument '%s'\n",
-                    og);
+            snprintf(cmd->P->error,
+                     sizeof(cmd->P->error),
+                     "error: unrecognized command argument '%s'\n",
+                     og);
             return false;
         }
 
@@ -364,9 +366,10 @@ static bool cmdParseCommandArguments(CmdParser *P,
                 --argc;
             }
             if (val == NULL) {
-                sprintf(cmd->P->error,
-                        "error: command flag '%s' expects a value\n",
-                        flag->name);
+                snprintf(cmd->P->error,
+                         sizeof(cmd->P->error),
+                         "error: command flag '%s' expects a value\n",
+                         flag->name);
                 return false;
             }
             if (!flag->validator(P, &flag->val, val, flag->name)) {
@@ -374,9 +377,10 @@ static bool cmdParseCommandArguments(CmdParser *P,
             }
         }
         else if (val != NULL) {
-            sprintf(cmd->P->error,
-                    "error: unexpected value passed to flag '%s'\n",
-                    flag->name);
+            snprintf(cmd->P->error,
+                     sizeof(cmd->P->error),
+                     "error: unexpected value passed to flag '%s'\n",
+                     flag->name);
             return false;
         }
         else {
@@ -442,11 +446,11 @@ bool cmdParseBoolean(CmdParser *P,
     return true;
 
 parseBoolError:
-    sprintf(
-        P->error,
-        "error: value '%s' passed to flag '%s' cannot be parsed as a boolean\n",
-        str,
-        name);
+    snprintf(P->error,
+             sizeof(P->error),
+             "error: value '%s' passed to flag '%s' cannot be parsed as a boolean\n",
+             str,
+             name);
     return false;
 }
 
@@ -456,13 +460,15 @@ bool cmdParseDouble(CmdParser *P,
                     const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = strtod(str, &end);
     if (errno == ERANGE || *end != '\0') {
-        sprintf(P->error,
-                "error: value '%s' passed to flag '%s' cannot be parsed as a "
-                "double\n",
-                str,
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
+                 "double\n",
+                 str,
+                 name);
         return false;
     }
     dst->state = cmdNumber;
@@ -475,13 +481,15 @@ bool cmdParseInteger(CmdParser *P,
                      const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = (double)strtoll(str, &end, 0);
     if (errno == ERANGE || *end != '\0') {
-        sprintf(P->error,
-                "error: value '%s' passed to flag '%s' cannot be parsed as a "
-                "number\n",
-                str,
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
+                 "number\n",
+                 str,
+                 name);
         return false;
     }
 
@@ -495,13 +503,15 @@ bool cmdParseByteSize(CmdParser *P,
                       const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = (double)strtoull(str, &end, 0);
     if (errno == ERANGE) {
-        sprintf(P->error,
-                "error: value '%s' passed to flag '%s' cannot be parsed as a "
-                "number\n",
-                str,
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
+                 "number\n",
+                 str,
+                 name);
         return false;
     }
     if (end) {
@@ -527,11 +537,12 @@ bool cmdParseByteSize(CmdParser *P,
             break;
         default:
         unsupportedDataSizeUnit:
-            sprintf(P->error,
-                    "'%s' is not a supported data len unit "
-                    "(use g,G for gigabytes, m,M for megabytes, "
-                    "k,K for kilobytes or b, B for bytes)",
-                    end);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "'%s' is not a supported data len unit "
+                     "(use g,G for gigabytes, m,M for megabytes, "
+                     "k,K for kilobytes or b, B for bytes)",
+                     end);
             return false;
         }
     }
@@ -583,12 +594,12 @@ bool cmdParseBitFlags(CmdParser *P,
         }
 
         if (!parsed) {
-            int n = sprintf(
-                P->error,
-                "'%.*s' is not a supported bit flags for argument '%s'\n",
-                size,
-                str,
-                name);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "'%.*s' is not a supported bit flags for argument '%s'\n",
+                     size,
+                     str,
+                     name);
             return false;
         }
 
@@ -606,11 +617,9 @@ bool cmdParseEnumValue(CmdParser *P,
                        const CmdEnumValueDesc *enums,
                        u32 len)
 {
-    while (*str == '\0')
+    while (isspace(*str))
         str++;
-    u64 size = 0;
-    while (str[size])
-        size++;
+    u64 size = strlen(str);
 
     for (u64 i = 0; i < len; i++) {
         if (strlen(enums[i].str) == size &&
@@ -621,6 +630,11 @@ bool cmdParseEnumValue(CmdParser *P,
         }
     }
 
+    snprintf(P->error,
+             sizeof(P->error),
+             "error: value '%s' is not supported by flag '%s'\n",
+             str,
+             name);
     return false;
 }
 
@@ -753,7 +767,9 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
     }
 
     if (cmd == NULL) {
-        sprintf(P->error, "error: missing required command to execute\n");
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: missing required command to execute\n");
         return -1;
     }
 
@@ -785,10 +801,11 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
-                    "Missing flag '%s' required by command '%s'\n",
-                    flag->name,
-                    cmd->name);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "Missing flag '%s' required by command '%s'\n",
+                     flag->name,
+                     cmd->name);
             return -1;
         }
     }
@@ -815,10 +832,11 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
-                    "Missing flag '%s' required by command '%s'\n",
-                    flag->name,
-                    cmd->name);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "Missing flag '%s' required by command '%s'\n",
+                     flag->name,
+                     cmd->name);
             return -1;
         }
     }
@@ -836,12 +854,13 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
-                    "Missing positional argument %d ('%s') required by command "
-                    "'%s'\n",
-                    i,
-                    pos->name,
-                    cmd->name);
+            snprintf(P->error,
+                     sizeof(P->error),
+                     "Missing positional argument %d ('%s') required by command "
+                     "'%s'\n",
+                     i,
+                     pos->name,
+                     cmd->name);
             return -1;
         }
     }
diff --git a/src/cxy/driver/options.c b/src/cxy/driver/options.c
index 0bf43e5..181a17a 100644
--- a/src/cxy/driver/options.c
+++ b/src/cxy/driver/options.c
@@ -84,18 +84,19 @@ static bool cmdOptimizationLevel(CmdParser *P,
             dst->num = O3;
             return true;
         case 's':
-            dst->num = O3;
+            dst->num = Os;
             return true;
         default:
             dst->state = cmdNoValue;
             break;
         }
     }
-    sprintf(P->error,
-            "error: value '%s' passed to flag '%s' cannot be parsed as an "
-            "optimization flag, supported values -O1, -O2, -O3 -Os -Od\n",
-            str ?: "null",
-            name);
+    snprintf(P->error,
+             sizeof(P->error),
+             "error: value '%s' passed to flag '%s' cannot be parsed as an "
+             "optimization flag, supported values -O1, -O2, -O3 -Os -Od\n",
+             str ?: "null",
+             name);
     return false;
 }
 
@@ -105,9 +106,10 @@ static bool cmdCompilerDefine(CmdParser *P,
                               const char *name)
 {
     if (str == NULL || str[0] == '\0') {
-        sprintf(P->error,
-                "error: command line argument '%s' is missing a value",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: command line argument '%s' is missing a value",
+                 name);
         return false;
     }
     if (dst->array.elems == NULL)
@@ -118,10 +120,11 @@ static bool cmdCompilerDefine(CmdParser *P,
         it++;
     cstring variable = it, value = NULL;
     if (!isalpha(it[0]) && it[0] != '_') {
-        sprintf(P->error,
-                "error: define variable '%s' does not conform to cxy variable "
-                "specification",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: define variable '%s' does not conform to cxy variable "
+                 "specification",
+                 name);
         return false;
     }
 
@@ -132,10 +135,11 @@ static bool cmdCompilerDefine(CmdParser *P,
         ((char *)it)[0] = '\0';
     }
     else if (it[0] != '\0') {
-        sprintf(P->error,
-                "error: define variable '%s' does not conform to cxy variable "
-                "specification",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: define variable '%s' does not conform to cxy variable "
+                 "specification",
+                 name);
         return false;
     }
 
@@ -150,9 +154,10 @@ static bool cmdArrayArgument(CmdParser *P,
                              const char *name)
 {
     if (str == NULL || str[0] == '\0') {
-        sprintf(P->error,
-                "error: command line argument '%s' is missing a value",
-                name);
+        snprintf(P->error,
+                 sizeof(P->error),
+                 "error: command line argument '%s' is missing a value",
+                 name);
         return false;
     }
     if (dst->array.elems == NULL)
@@ -480,7 +485,7 @@ bool parseCommandLineOptions(
         goto error;
     }
     else if (selected == -1) {
-        logError(log, NULL, P->error, NULL);
+        logError(log, NULL, "{s}", (FormatArg[]){{.s = P->error}});
         goto error;
     }
 
-- 
2.43.0


From bb4a730d40149e36431fe4d3708009a33d36b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 090/122] fix: lists of warnings on the command line were cut
 at the wrong place

---
 src/cxy/core/log.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/log.c b/src/cxy/core/log.c
index d1f4a5f..2d8bd0c 100644
--- a/src/cxy/core/log.c
+++ b/src/cxy/core/log.c
@@ -74,10 +74,10 @@ static WarningId parseNextWarningId(Log *L, char *start, char *end)
 
     u64 len;
     if (end) {
-        while (isspace(*end))
+        while (end >= p && isspace(*end))
             end--;
         end[1] = '\0';
-        len = end - p;
+        len = end - p + 1;
     }
     else
         len = strlen(p);
@@ -424,7 +424,7 @@ u64 parseWarningLevels(Log *L, cstring str)
     if (str == NULL)
         return warnings;
     char *copy = strdup(str);
-    char *start = copy, *end = strchr(str, '|');
+    char *start = copy, *end = strchr(copy, '|');
 
     while (start && start[0] != '\0') {
         char *last = end;
@@ -455,7 +455,7 @@ u64 parseWarningLevels(Log *L, cstring str)
             end++;
 
         start = end;
-        end = last ? strchr(last, '|') : NULL;
+        end = start ? strchr(start, '|') : NULL;
     }
 
     free(copy);
-- 
2.43.0


From 9de455187bb107a39111390aee6f578328368332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:41 +0000
Subject: [PATCH 091/122] fix: the list of pass plugins was used before it was
 initialised

---
 src/cxy/driver/options.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/driver/options.c b/src/cxy/driver/options.c
index 181a17a..66007f8 100644
--- a/src/cxy/driver/options.c
+++ b/src/cxy/driver/options.c
@@ -289,6 +289,7 @@ static void initializeOptions(StrPool *strings, Options *options)
     options->importSearchPaths = newDynArray(sizeof(char *));
     options->frameworkSearchPaths = newDynArray(sizeof(char *));
     options->libraries = newDynArray(sizeof(char *));
+    options->loadPassPlugins = newDynArray(sizeof(char *));
     options->defines = newDynArray(sizeof(CompilerDefine));
     options->operatingSystem = getenv("CXY_OS");
     bool isAlpine = options->operatingSystem &&
@@ -563,5 +564,6 @@ void deinitCommandLineOptions(Options *options)
     freeDynArray(&options->importSearchPaths);
     freeDynArray(&options->librarySearchPaths);
     freeDynArray(&options->libraries);
+    freeDynArray(&options->loadPassPlugins);
     freeDynArray(&options->defines);
 }
-- 
2.43.0


From 6d8a894aebee45ce3a14023ca8f3e9810b317663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 092/122] fix: range loops ran past an end they did not hit
 exactly and evaluated their end and step on every round; the step was not
 type checked

---
 src/cxy/lang/middle/sema/for.c          |  10 +-
 src/cxy/lang/middle/simplify/simplify.c | 133 ++++++++++++++++++++----
 2 files changed, 117 insertions(+), 26 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index dc9655d..52deb49 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -339,13 +339,17 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (node->rangeExpr.step) {
-        const Type *step = checkType(visitor, node->rangeExpr.end);
+        const Type *step = checkType(visitor, node->rangeExpr.step);
+        if (typeIs(step, Error)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
         if (!isNumericType(step)) {
             logError(ctx->L,
-                     &node->rangeExpr.start->loc,
+                     &node->rangeExpr.step->loc,
                      "`range` step type '{t}' is not supported, expecting a "
                      "numeric type",
-                     (FormatArg[]){{.t = start}, {.t = end}});
+                     (FormatArg[]){{.t = step}});
             node->type = ERROR_TYPE(ctx);
             return;
         }
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 3f5d582..8f9ad5d 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -129,6 +129,101 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
+// Moves an operand of a range into a variable, so that it is evaluated once
+static AstNode *makeRangeVariable(SimplifyContext *ctx,
+                                  cstring prefix,
+                                  AstNode **operand)
+{
+    AstNode *value = *operand;
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &value->loc,
+                               flgConst,
+                               makeAnonymousVariable(ctx->strings, prefix),
+                               NULL,
+                               value,
+                               NULL,
+                               value->type);
+    *operand = makeResolvedIdentifier(ctx->pool,
+                                      &value->loc,
+                                      var->varDecl.name,
+                                      0,
+                                      var,
+                                      NULL,
+                                      value->type);
+    return var;
+}
+
+static bool isConstantStep(const AstNode *node)
+{
+    if (nodeIs(node, GroupExpr))
+        return isConstantStep(node->groupExpr.expr);
+    if (nodeIs(node, UnaryExpr))
+        return node->unaryExpr.op == opMinus &&
+               isConstantStep(node->unaryExpr.operand);
+    return nodeIs(node, IntegerLit) || nodeIs(node, FloatLit);
+}
+
+static bool isNegativeStep(const AstNode *node)
+{
+    if (nodeIs(node, GroupExpr))
+        return isNegativeStep(node->groupExpr.expr);
+    if (nodeIs(node, UnaryExpr))
+        return !isNegativeStep(node->unaryExpr.operand);
+    return nodeIs(node, FloatLit) ? node->floatLiteral.value < 0
+                                  : node->intLiteral.isNegative;
+}
+
+static AstNode *makeRangeComparison(SimplifyContext *ctx,
+                                    AstNode *range,
+                                    AstNode *lhs,
+                                    Operator op,
+                                    AstNode *rhs)
+{
+    return makeBinaryExpr(ctx->pool,
+                          &range->loc,
+                          flgNone,
+                          lhs,
+                          op,
+                          rhs,
+                          NULL,
+                          getPrimitiveType(ctx->types, prtBool));
+}
+
+// A range goes up (down, if its step is negative) to its end, exclusively
+static AstNode *makeRangeCondition(SimplifyContext *ctx,
+                                   AstNode *range,
+                                   AstNode *var,
+                                   AstNode *end,
+                                   AstNode *step)
+{
+    AstNode *x = makeResolvedIdentifier(ctx->pool,
+                                        &range->loc,
+                                        var->varDecl.names->ident.value,
+                                        0,
+                                        var,
+                                        NULL,
+                                        var->type);
+    if (step == NULL || isConstantStep(step))
+        return makeRangeComparison(
+            ctx, range, x, step && isNegativeStep(step) ? opGt : opLt, end);
+
+    AstNode *up = makeRangeComparison(
+        ctx,
+        range,
+        makeRangeComparison(
+            ctx,
+            range,
+            step,
+            opGt,
+            makeIntegerLiteral(ctx->pool, &range->loc, 0, NULL, step->type)),
+        opLAnd,
+        makeRangeComparison(ctx, range, x, opLt, end));
+    AstNode *down = deepCloneAstNode(ctx->pool, up);
+    down->binaryExpr.lhs->binaryExpr.op = opLt;
+    down->binaryExpr.rhs->binaryExpr.op = opGt;
+    return makeRangeComparison(ctx, range, up, opLOr, down);
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -138,28 +233,20 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
     // var x = range.start
     var->varDecl.init = range->rangeExpr.start;
     var->parentScope = body;
-    // while (x < range.end) { ...; x += range.step; }
-    var->next = makeWhileStmt(
+
+    // const end = range.end, step = range.step
+    AstNode *last = var, *end = range->rangeExpr.end,
+            *step = range->rangeExpr.step;
+    last = last->next = makeRangeVariable(ctx, "_end", &end);
+    if (step && !isConstantStep(step))
+        last = last->next = makeRangeVariable(ctx, "_step", &step);
+
+    // while (x < end) { ...; x += step; }
+    last->next = makeWhileStmt(
         ctx->pool,
         &node->loc,
         node->flags,
-        // x < range.end
-        makeBinaryExpr(ctx->pool,
-                       &range->loc,
-                       flgNone,
-                       // x
-                       makeResolvedIdentifier(ctx->pool,
-                                              &range->loc,
-                                              var->varDecl.names->ident.value,
-                                              0,
-                                              var,
-                                              NULL,
-                                              var->type),
-                       opNe,
-                       // range.end
-                       range->rangeExpr.end,
-                       NULL,
-                       getPrimitiveType(ctx->types, prtBool)),
+        makeRangeCondition(ctx, range, var, end, step),
         // ...
         body,
         NULL,
@@ -183,18 +270,18 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                        var->type),
                 opAdd,
                 // range.step
-                range->rangeExpr.step
-                    ?: makeIntegerLiteral(
+                step ? copyAstNode(ctx->pool, step)
+                     : makeIntegerLiteral(
                            ctx->pool, &range->loc, 1, NULL, range->type),
                 NULL,
                 range->type),
             NULL,
             range->type));
-    body->parentScope = var->next;
+    body->parentScope = last->next;
     node->tag = astBlockStmt;
     node->flags = flgScoping;
     node->blockStmt.stmts = var;
-    node->blockStmt.last = var->next;
+    node->blockStmt.last = last->next;
     astVisit(visitor, node);
 }
 
-- 
2.43.0


From 542fcbe184ba7d33bb8af46c58c9da58123b5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 093/122] fix: loops over a string did nothing

---
 src/cxy/lang/middle/simplify/simplify.c | 64 +++++++++++++++++--------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 8f9ad5d..88ed188 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -334,25 +334,51 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                             : makePointerType(ctx->types, elem, flgNone));
     index->next = range;
 
-    AstNode *condition = makeBinaryExpr(
-        ctx->pool,
-        &range->loc,
-        flgNone,
-        makeResolvedIdentifier(ctx->pool,
-                               &range->loc,
-                               index->varDecl.name,
-                               0,
-                               index,
-                               NULL,
-                               index->type),
-        opLt,
-        makeUnsignedIntegerLiteral(ctx->pool,
-                                   &range->loc,
-                                   rangeType->array.len,
-                                   NULL,
-                                   getPrimitiveType(ctx->types, prtU64)),
-        NULL,
-        getPrimitiveType(ctx->types, prtBool));
+    // an array ends at its length, a string at its terminator
+    AstNode *position = makeResolvedIdentifier(ctx->pool,
+                                               &range->loc,
+                                               index->varDecl.name,
+                                               0,
+                                               index,
+                                               NULL,
+                                               index->type);
+    AstNode *condition =
+        typeIs(rangeType, String)
+            ? makeBinaryExpr(
+                  ctx->pool,
+                  &range->loc,
+                  flgNone,
+                  makeIndexExpr(ctx->pool,
+                                &range->loc,
+                                elem->flags,
+                                makeResolvedIdentifier(ctx->pool,
+                                                       &range->loc,
+                                                       range->varDecl.name,
+                                                       0,
+                                                       range,
+                                                       NULL,
+                                                       range->type),
+                                position,
+                                NULL,
+                                elem),
+                  opNe,
+                  makeCharLiteral(ctx->pool, &range->loc, 0, NULL, elem),
+                  NULL,
+                  getPrimitiveType(ctx->types, prtBool))
+            : makeBinaryExpr(
+                  ctx->pool,
+                  &range->loc,
+                  flgNone,
+                  position,
+                  opLt,
+                  makeUnsignedIntegerLiteral(
+                      ctx->pool,
+                      &range->loc,
+                      rangeType->array.len,
+                      NULL,
+                      getPrimitiveType(ctx->types, prtU64)),
+                  NULL,
+                  getPrimitiveType(ctx->types, prtBool));
 
     AstNode *assign = makeExprStmt(
         ctx->pool,
-- 
2.43.0


From 513368eea6a795a221424cd11e2e2e950bd8ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 094/122] fix: range cases were emitted as one number

---
 src/cxy/lang/backend/c/generate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 6214e63..8aa3029 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1654,7 +1654,13 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
             }
         }
         else {
-            astConstVisit(visitor, node->caseStmt.match);
+            const AstNode *match = node->caseStmt.match;
+            if (nodeIs(match, RangeExpr)) {
+                astConstVisit(visitor, match->rangeExpr.start);
+                format(getState(ctx), " ... ", NULL);
+                match = match->rangeExpr.end;
+            }
+            astConstVisit(visitor, match);
             format(getState(ctx), ": {{{>}\n", NULL);
         }
     }
-- 
2.43.0


From 00de4275aba9b083745f51c31fd853587666c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 095/122] fix: a range used as a value and an empty case range
 were accepted; a switch over a bool aborted

---
 src/cxy/lang/middle/sema/binary.c |  3 +++
 src/cxy/lang/middle/sema/check.h  |  1 +
 src/cxy/lang/middle/sema/for.c    | 22 ++++++++++++++++++++++
 src/cxy/lang/middle/sema/switch.c | 12 ++++++++++++
 4 files changed, 38 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e1bb810..3e3572d 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -440,6 +440,9 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
         node->type = getPrimitiveType(ctx->types, prtBool);
         break;
     case optRange: {
+        if (!checkRangeContext(ctx, node))
+            return;
+
         if (!isIntegralType(left)) {
             logError(ctx->L,
                      &node->loc,
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index 7d4e252..29b76e6 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -237,6 +237,7 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node);
 void checkTypedExpr(AstVisitor *visitor, AstNode *node);
 
 void checkForStmt(AstVisitor *visitor, AstNode *node);
+bool checkRangeContext(TypingContext *ctx, AstNode *node);
 void checkRangeExpr(AstVisitor *visitor, AstNode *node);
 void checkCaseStmt(AstVisitor *visitor, AstNode *node);
 void checkSwitchStmt(AstVisitor *visitor, AstNode *node);
diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 52deb49..2385398 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -310,9 +310,30 @@ static void transformForCustomRange(AstVisitor *visitor,
     checkType(visitor, node);
 }
 
+bool checkRangeContext(TypingContext *ctx, AstNode *node)
+{
+    const AstNode *parent = node->parentScope;
+    const AstNode *range = nodeIs(parent, ForStmt)    ? parent->forStmt.range
+                           : nodeIs(parent, CaseStmt) ? parent->caseStmt.match
+                                                      : NULL;
+    if (range == node)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "a range is not a value, it can only be used in `for` statements "
+             "and `switch` cases",
+             NULL);
+    node->type = ERROR_TYPE(ctx);
+    return false;
+}
+
 void checkRangeExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
+    if (!checkRangeContext(ctx, node))
+        return;
+
     const Type *start = checkType(visitor, node->rangeExpr.start);
     if (typeIs(start, Error)) {
         node->type = ERROR_TYPE(ctx);
@@ -363,6 +384,7 @@ void checkForStmt(AstVisitor *visitor, AstNode *node)
     AstNode *variable = node->forStmt.var;
     u64 numVariables = countAstNodes(variable);
 
+    node->forStmt.range->parentScope = node;
     const Type *range = checkType(visitor, node->forStmt.range);
     if (typeIs(range, Error)) {
         node->type = ERROR_TYPE(ctx);
diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..2899cd0 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -30,6 +30,8 @@ static i64 getLiteralValue(const AstNode *node)
         return getEnumLiteralValue(node);
     else if (isCharacterType(node->type))
         return node->charLiteral.value;
+    else if (nodeIs(node, BoolLit))
+        return node->boolLiteral.value;
     return integerLiteralValue(node);
 }
 
@@ -139,6 +141,7 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
         getParentScopeWithTag(node, astSwitchStmt)->switchStmt.cond->type;
 
     if (node->caseStmt.match) {
+        node->caseStmt.match->parentScope = node;
         const Type *match = checkType(visitor, node->caseStmt.match);
         if (!isTypeAssignableFrom(match, cond)) {
             logError(
@@ -165,6 +168,15 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
             }
 
             i64 iMin = getLiteralValue(min), iMax = getLiteralValue(max);
+            if (iMin > iMax) {
+                logError(ctx->L,
+                         &node->caseStmt.match->loc,
+                         "switch case statement range ({i64} - {i64}) is empty",
+                         (FormatArg[]){{.i64 = iMin}, {.i64 = iMax}});
+                node->type = ERROR_TYPE(ctx);
+                return;
+            }
+
             if (!isIntegerTypeInRange(cond, iMin, iMax)) {
                 logError(
                     ctx->L,
-- 
2.43.0


From 91820b53fd3ac1648d6dce3bed22490ae67383e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 096/122] fix: an empty spread argument was rejected, and
 spread arguments overran the list of argument types

---
 src/cxy/lang/middle/sema/generics.c | 47 +++++++++++++++++------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 03b4975..6b82afe 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -116,6 +116,24 @@ static const Type *closureArgToClosureParamType(TypingContext *ctx,
     return paramType;
 }
 
+// Checks the arguments of a call. A spread argument is replaced with what it
+// stands for, which can be nothing.
+static bool checkCallArguments(AstVisitor *visitor, AstNode *call)
+{
+    bool status = true;
+    AstNode **link = &call->callExpr.args;
+    while (*link) {
+        AstNode *arg = *link;
+        if (typeIs(checkType(visitor, arg), Error))
+            status = false;
+        if (nodeIs(arg, Noop))
+            *link = arg->next;
+        else
+            link = &arg->next;
+    }
+    return status;
+}
+
 static bool inferGenericFunctionTypes(AstVisitor *visitor,
                                       const AstNode *generic,
                                       const Type **paramTypes,
@@ -124,9 +142,13 @@ static bool inferGenericFunctionTypes(AstVisitor *visitor,
     TypingContext *ctx = getAstVisitorContext(visitor);
     csAssert0(ctx->currentCall);
     AstNode *decl = generic->genericDecl.decl, *call = ctx->currentCall,
-            *arg = call->callExpr.args, *params = generic->genericDecl.params,
+            *params = generic->genericDecl.params,
             *param = getNodeAtIndex(params, index);
 
+    if (!checkCallArguments(visitor, call))
+        return false;
+
+    AstNode *arg = call->callExpr.args;
     u64 argsCount = countAstNodes(arg);
     if (argsCount < decl->funcDecl.requiredParamsCount) {
         if (!hasFlag(generic, Variadic))
@@ -134,17 +156,8 @@ static bool inferGenericFunctionTypes(AstVisitor *visitor,
     }
 
     const Type **argTypes = mallocOrDie(sizeof(Type *) * argsCount);
-    bool status = true;
-    for (u64 i = 0; arg; arg = arg->next, i++) {
-        argTypes[i] = checkType(visitor, arg);
-        if (typeIs(argTypes[i], Error))
-            status = false;
-    }
-
-    if (!status) {
-        free(argTypes);
-        return false;
-    }
+    for (u64 i = 0; arg; arg = arg->next, i++)
+        argTypes[i] = arg->type;
 
     for (; param; param = param->next, index++) {
         if (hasFlag(param, Variadic)) {
@@ -198,14 +211,10 @@ static bool transformVariadicFunctionCallArgs(AstVisitor *visitor,
                                               u64 *variadicArgsCount)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
-    AstNode *args = ctx->currentCall->callExpr.args, *arg = args;
-    while (arg) {
-        checkType(visitor, arg);
-        if (typeIs(arg->type, Error))
-            return false;
-        arg = arg->next;
-    }
+    if (!checkCallArguments(visitor, ctx->currentCall))
+        return false;
 
+    AstNode *args = ctx->currentCall->callExpr.args;
     u64 requiredCount = func->funcDecl.requiredParamsCount,
         totalParams = func->funcDecl.paramsCount;
     u64 argsCount = countAstNodes(args);
-- 
2.43.0


From cd6d2800501fa649d19d543ae71a5530a73e69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:08 +0000
Subject: [PATCH 097/122] fix: a range operator that does not return an
 iterator crashed the compiler

---
 src/cxy/lang/middle/sema/for.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 2385398..a9f6bee 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -41,12 +41,19 @@ static const Type *findIteratorType(TypingContext *ctx, AstNode *range)
         return NULL;
     }
 
-    csAssert0(typeIs(rangeOp, Func) && typeIs(rangeOp->func.retType, Class) &&
-              hasFlag(rangeOp->func.retType, Closure));
+    csAssert0(typeIs(rangeOp, Func));
+    const Type *closure = rangeOp->func.retType, *iterator = NULL;
+    if (typeIs(closure, Class) && hasFlag(closure, Closure))
+        iterator = findStructMemberType(closure, S_CallOverload);
 
-    const Type *iterator =
-        findStructMemberType(rangeOp->func.retType, S_CallOverload);
-    csAssert0(typeIs(iterator, Func));
+    if (iterator == NULL || !hasFlag(iterator->func.retType, Optional)) {
+        logError(ctx->L,
+                 &range->loc,
+                 "range overload operator of type `{t}` does not return an "
+                 "iterator",
+                 (FormatArg[]){{.t = range->type}});
+        return NULL;
+    }
 
     return iterator;
 }
-- 
2.43.0


From 2036f416689a6f446b88c0e698f6d38fa0131091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:08 +0000
Subject: [PATCH 098/122] fix: elements without a value were accepted in array
 and tuple literals

---
 src/cxy/lang/middle/sema/array.c | 8 ++++++++
 src/cxy/lang/middle/sema/tuple.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/cxy/lang/middle/sema/array.c b/src/cxy/lang/middle/sema/array.c
index 2b6ffa8..9a5e907 100644
--- a/src/cxy/lang/middle/sema/array.c
+++ b/src/cxy/lang/middle/sema/array.c
@@ -156,6 +156,14 @@ void checkArrayExpr(AstVisitor *visitor, AstNode *node)
     for (AstNode *elem = node->arrayExpr.elements; elem;
          elem = elem->next, count++) {
         const Type *type = checkType(visitor, elem);
+        if (isVoidType(type)) {
+            logError(ctx->L,
+                     &elem->loc,
+                     "array element cannot be of type '{t}'",
+                     (FormatArg[]){{.t = type}});
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
         isLiteral = isLiteral && isLiteralExpr(elem);
         if (elementType == NULL) {
             elementType = type;
diff --git a/src/cxy/lang/middle/sema/tuple.c b/src/cxy/lang/middle/sema/tuple.c
index b9d9494..d3fac8d 100644
--- a/src/cxy/lang/middle/sema/tuple.c
+++ b/src/cxy/lang/middle/sema/tuple.c
@@ -70,6 +70,14 @@ void checkTupleExpr(AstVisitor *visitor, AstNode *node)
             node->type = element->type;
             continue;
         }
+        if (isVoidType(type) && !nodeIs(element, Noop)) {
+            logError(ctx->L,
+                     &element->loc,
+                     "tuple element cannot be of type '{t}'",
+                     (FormatArg[]){{.t = type}});
+            node->type = ERROR_TYPE(ctx);
+            continue;
+        }
 
         type = unwrapType(type, NULL);
         if (isClassType(type)) {
-- 
2.43.0


From 0a878ec52ec6220286a43275ac91904fe2317529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:08 +0000
Subject: [PATCH 099/122] fix: elements and members of a constant, and its call
 operator, could be used to change it

---
 src/cxy/lang/middle/sema/call.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 8205d47..3d3ff9f 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -171,6 +171,8 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
     const Type *callee_ = checkType(visitor, callee);
 
     ctx->currentCall = currentCall;
+    // the check reveals whether the target of a member expression is constant
+    flags |= getCalleeContextFlags(callee);
 
     if (callee_ == NULL || typeIs(callee_, Error)) {
         node->type = ERROR_TYPE(ctx);
@@ -209,7 +211,11 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
             overload = findStructMemberType(rawType, S_InitOverload);
         }
         else {
-            flags &= ~flgConst;
+            u64 constness = callee->flags;
+            stripPointerOrReferenceOnce(callee_, &constness);
+            flags |= constness & flgConst;
+            if (hasFlag(rawType, Closure))
+                flags &= ~flgConst;
             overload = findStructMemberType(rawType, S_CallOverload);
         }
 
-- 
2.43.0


From a91fe78b8d6df3809c6b308931027c8d1fd42e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:09 +0000
Subject: [PATCH 100/122] fix: indexing a pointer to an array crashed the
 compiler

---
 src/cxy/lang/middle/sema/index.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/index.c b/src/cxy/lang/middle/sema/index.c
index 747407c..c7920ec 100644
--- a/src/cxy/lang/middle/sema/index.c
+++ b/src/cxy/lang/middle/sema/index.c
@@ -59,9 +59,8 @@ void checkIndexExpr(AstVisitor *visitor, AstNode *node)
     }
 
     node->flags |= node->indexExpr.target->flags;
-    const Type *unwrapped = stripReference(resolveUnThisUnwrapType(target)),
-               *stripped = stripAll(target);
-    if (typeIs(stripped, Array)) {
+    const Type *unwrapped = stripReference(resolveUnThisUnwrapType(target));
+    if (typeIs(unwrapped, Array)) {
         if (!isIntegerType(index)) {
             logError(ctx->L,
                      &node->indexExpr.index->loc,
-- 
2.43.0


From e7e7c86da83a645094356a8fead335060ab24993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:09 +0000
Subject: [PATCH 101/122] fix: the index assignment operator was not found
 through a reference

---
 src/cxy/lang/middle/sema/assign.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index ada703a..98cdcc4 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -15,7 +15,7 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
     const Type *lhs = left->indexExpr.target->type;
     const Type *target = stripPointer(lhs);
 
-    const Type *func = findMemberInType(lhs, S_IndexAssignOverload);
+    const Type *func = findMemberInType(stripReference(lhs), S_IndexAssignOverload);
     if (func == NULL) {
         logError(ctx->L,
                  &node->assignExpr.rhs->loc,
@@ -48,7 +48,7 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
 
-        if (isClassOrStructType(target)) {
+        if (isClassOrStructType(stripReference(target))) {
             checkIndexExprAssignment(visitor, node);
             return;
         }
-- 
2.43.0


From dcc2185e20d8541efffeb119b35a191e465eedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 102/122] fix: a closure called its object's functions on
 itself, static functions called through an object or a derived class emitted
 invalid C, and members used without an object were accepted

---
 src/cxy/lang/middle/bind/resolve.c      | 50 +++++++++++++++++++++++++
 src/cxy/lang/middle/sema/path.c         | 14 +++++++
 src/cxy/lang/middle/simplify/simplify.c |  6 +++
 3 files changed, 70 insertions(+)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 1a075ca..af221bb 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -57,6 +57,33 @@ static inline bool shouldCaptureSymbol(const AstNode *closure,
             nodeIs(symbol, FieldDecl));
 }
 
+static bool isOwnMemberFunction(BindContext *ctx, const AstNode *symbol)
+{
+    const AstNode *decl =
+        nodeIs(symbol, GenericDecl) ? symbol->genericDecl.decl : symbol;
+    if (!nodeIs(decl, FuncDecl) || hasFlag(decl, Static))
+        return false;
+    const AstNode *parent =
+        findEnclosingClassOrStruct(ctx->env, NULL, NULL, NULL);
+    const AstNode *member = parent ? parent->structDecl.members : NULL;
+    while (member && member != symbol)
+        member = member->next;
+    return member != NULL;
+}
+
+static void resolveThroughThis(AstVisitor *visitor, AstNode *path)
+{
+    BindContext *ctx = getAstVisitorContext(visitor);
+    AstNode *root = path->path.elements;
+    path->path.elements = makeAstNode(
+        ctx->pool,
+        &root->loc,
+        &(AstNode){.tag = astPathElem,
+                   .next = root,
+                   .pathElement = {.isKeyword = true, .name = S_this}});
+    astVisit(visitor, path);
+}
+
 static AstNode *captureSymbol(BindContext *ctx,
                               AstNode *closure,
                               AstNode *node,
@@ -149,6 +176,12 @@ static AstNode *resolvePathBaseUpChain(AstVisitor *visitor, AstNode *path)
         else
             resolved = findInAstNode(
                 base, root->pathElement.alt ?: root->pathElement.name);
+        if (resolved && hasFlag(resolved, Static))
+            return resolved;
+        if (resolved && ctx->currentClosure) {
+            resolveThroughThis(visitor, path);
+            return NULL;
+        }
         if (resolved) {
             path->path.inheritanceDepth = i;
 
@@ -220,6 +253,23 @@ void bindPath(AstVisitor *visitor, AstNode *node)
             return;
         }
 
+        bool ownFunction = isOwnMemberFunction(ctx, resolved);
+        if ((ownFunction || nodeIs(resolved, FieldDecl)) &&
+            hasFlag(findEnclosingFunction(ctx->env, NULL, NULL, NULL),
+                    Static)) {
+            logError(ctx->L,
+                     &base->loc,
+                     "member '{s}' cannot be used in a static function, which "
+                     "has no object",
+                     (FormatArg[]){{.s = base->pathElement.name}});
+            return;
+        }
+
+        if (ctx->currentClosure && ownFunction) {
+            resolveThroughThis(visitor, node);
+            return;
+        }
+
         // capture symbol if in closure
         base->pathElement.resolvesTo = resolved;
         resolved = captureSymbol(
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index cd2c096..5e137aa 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -187,12 +187,26 @@ void checkPath(AstVisitor *visitor, AstNode *node)
 
     u64 flags = base->flags | base->pathElement.resolvesTo->flags;
     const Type *prev = stripAll(type);
+    const AstNode *owner =
+        base->pathElement.isKeyword ? NULL : base->pathElement.resolvesTo;
     for (; elem; elem = elem->next) {
         type = checkMember(visitor, prev, elem);
         if (typeIs(type, Error)) {
             node->type = ERROR_TYPE(ctx);
             return;
         }
+        if ((isClassOrStructAstNode(owner) || nodeIs(owner, TypeDecl)) &&
+            (nodeIs(elem->pathElement.resolvesTo, FieldDecl) ||
+             isMemberFunction(elem->pathElement.resolvesTo))) {
+            logError(ctx->L,
+                     &elem->loc,
+                     "member '{s}' of type '{t}' can only be accessed through "
+                     "an object",
+                     (FormatArg[]){{.s = elem->pathElement.name}, {.t = prev}});
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+        owner = elem->pathElement.resolvesTo;
         // fields of a constant are constant
         flags = elem->flags | (nodeIs(elem->pathElement.resolvesTo, FieldDecl)
                                    ? flags & flgConst
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 88ed188..ed55590 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -894,6 +894,12 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
 
     csAssert0(func);
     AstNode *this = getMemberFunctionThis(func);
+    if (this == NULL && nodeIs(callee, MemberExpr) && hasFlag(func, Static)) {
+        // called through an object, which is not passed on
+        node->callExpr.callee = callee->memberExpr.member;
+        node->callExpr.callee->type = callee->type;
+        return;
+    }
     if (this == NULL || !nodeIs(callee, MemberExpr))
         return;
 
-- 
2.43.0


From 93c68056fd1057d1ab5e3fe9120bb6a71fac7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 103/122] fix: a loop over an array literal read through its
 first elements

---
 src/cxy/lang/middle/simplify/simplify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index ed55590..429745d 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -329,7 +329,7 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                         NULL,
                         range,
                         NULL,
-                        typeIs(rangeType, String)
+                        typeIs(rangeType, String) || nodeIs(range, ArrayExpr)
                             ? range->type
                             : makePointerType(ctx->types, elem, flgNone));
     index->next = range;
-- 
2.43.0


From 036e5770e4353ddf3898a8928569a848e3d63541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 104/122] fix: a global without an initial value crashed the
 compiler, and calls within a global's struct literal were taken for constants

---
 src/cxy/lang/frontend/ast.c             | 7 ++++---
 src/cxy/lang/middle/simplify/simplify.c | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index ccd0d27..47753f3 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -1759,6 +1759,8 @@ bool isStaticExpr(const AstNode *node)
         return true;
     case astIdentifier:
         return nodeIs(node->ident.resolvesTo, FuncDecl);
+    case astPath:
+        return nodeIs(resolvePath(node), FuncDecl);
     case astMemberExpr:
         return isStaticExpr(node->memberExpr.target);
     case astTupleExpr:
@@ -1770,9 +1772,8 @@ bool isStaticExpr(const AstNode *node)
         return true;
     case astStructExpr:
         for (AstNode *elem = node->structExpr.fields; elem; elem = elem->next) {
-            if (!nodeIs(elem, FieldDecl))
-                continue;
-            if (!isStaticExpr(elem->structField.value))
+            if (!isStaticExpr(nodeIs(elem, FieldExpr) ? elem->fieldExpr.value
+                                                      : elem))
                 return false;
         }
         return true;
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 429745d..618dd00 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -1513,7 +1513,7 @@ static void visitVarDecl(AstVisitor *visitor, AstNode *node)
         return;
     }
 
-    if (!isStaticExpr(init)) {
+    if (init && !isStaticExpr(init)) {
         if (typeIs(init->type, Class)) {
             node->varDecl.init =
                 makeNullLiteral(ctx->pool, &init->loc, NULL, init->type);
-- 
2.43.0


From a67832ce16f2df960cddb000507de2695aaee5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:25 +0000
Subject: [PATCH 105/122] fix: closures and pointers were taken for function
 and pointer types with differently stored values, three http callbacks
 returned i8 for i32

---
 src/cxy/lang/frontend/types.c | 58 +++++++++++++++++++++++++++++++----
 src/cxy/stdlib/fetch.cxy      |  4 +--
 src/cxy/stdlib/http.cxy       |  6 ++--
 3 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index a1abe74..2fbd358 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -156,6 +156,51 @@ bool isTypeConst(const Type *type)
     return flags & flgConst;
 }
 
+// Values reached through a pointer or passed through a function type are not
+// converted, their types must not only be assignable but be stored the same way
+static bool isStoredTypeAssignableFrom(const Type *to, const Type *from)
+{
+    if (!isTypeAssignableFrom(to, from))
+        return false;
+
+    to = unThisType(unwrapType(resolveType(to), NULL));
+    from = unThisType(unwrapType(resolveType(from), NULL));
+    if (to == from)
+        return true;
+
+    if (typeIs(to, Enum))
+        to = to->tEnum.base;
+    if (typeIs(from, Enum))
+        from = from->tEnum.base;
+
+    if (typeIs(to, Primitive) || typeIs(from, Primitive))
+        return to->tag == from->tag && to->size == from->size &&
+               isFloatType(to) == isFloatType(from);
+
+    if (hasFlag(to, Optional) || hasFlag(from, Optional))
+        return hasFlag(to, Optional) && hasFlag(from, Optional) &&
+               isStoredTypeAssignableFrom(getOptionalTargetType(to),
+                                          getOptionalTargetType(from));
+
+    if (typeIs(to, Result) || typeIs(from, Result))
+        return to->tag == from->tag &&
+               isStoredTypeAssignableFrom(to->result.target,
+                                          from->result.target);
+
+    if (typeIs(to, Tuple) && typeIs(from, Tuple)) {
+        for (u64 i = 0; i < to->tuple.count; i++) {
+            if (!isStoredTypeAssignableFrom(to->tuple.members[i],
+                                            from->tuple.members[i]))
+                return false;
+        }
+    }
+    else if (typeIs(to, Array) && typeIs(from, Array))
+        return isStoredTypeAssignableFrom(to->array.elementType,
+                                          from->array.elementType);
+
+    return true;
+}
+
 bool isTypeAssignableFrom(const Type *to, const Type *from)
 {
     to = resolveType(to);
@@ -192,7 +237,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
         if (typeIs(from->pointer.pointed, Null))
             return true;
 
-        return isTypeAssignableFrom(to->pointer.pointed, from->pointer.pointed);
+        return isStoredTypeAssignableFrom(to->pointer.pointed,
+                                          from->pointer.pointed);
     }
 
     if (typeIs(from, Result) && !typeIs(to, Result)) {
@@ -241,8 +287,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
                    typeIs(from, Array) || typeIs(stripAll(from), Class);
 
         if (typeIs(from, Array))
-            return isTypeAssignableFrom(to->pointer.pointed,
-                                        from->array.elementType);
+            return isStoredTypeAssignableFrom(to->pointer.pointed,
+                                              from->array.elementType);
 
         return typeIs(from, Pointer) && isVoidPointer(from);
 
@@ -300,7 +346,7 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return true;
         if (!typeIs(from, Func))
             return false;
-        if (!isTypeAssignableFrom(to->func.retType, from->func.retType))
+        if (!isStoredTypeAssignableFrom(to->func.retType, from->func.retType))
             return false;
         bool isNameFuncParam =
             (to->flags & flgFuncTypeParam) && !(from->flags & flgClosure);
@@ -310,8 +356,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return false;
         }
         for (u64 i = 0; i < count; i++) {
-            if (!isTypeAssignableFrom(to->func.params[i + isNameFuncParam],
-                                      from->func.params[i]))
+            if (!isStoredTypeAssignableFrom(
+                    to->func.params[i + isNameFuncParam], from->func.params[i]))
                 return false;
         }
         return true;
diff --git a/src/cxy/stdlib/fetch.cxy b/src/cxy/stdlib/fetch.cxy
index bcff22b..ac723a6 100644
--- a/src/cxy/stdlib/fetch.cxy
+++ b/src/cxy/stdlib/fetch.cxy
@@ -511,7 +511,7 @@ func responseParserOnHeadersComplete(p: ^parser.llhttp_t) {
         resp._s1 = null
         resp._s2 = null
     }
-    return 0
+    return 0`i32
 }
 
 func responseParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
@@ -522,7 +522,7 @@ func responseParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
 func responseParserOnMessageComplete(p: ^parser.llhttp_t) {
     var resp = p.data !: Response;
     resp._isComplete = true;
-    return 0
+    return 0`i32
 }
 
 const HTTP_PARSER_SETTINGS = parser.llhttp_settings_t{
diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 0418276..16d71a6 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -570,7 +570,7 @@ func requestParserOnHeadersComplete(p: ^parser.llhttp_t) {
         req._s1 = null
         req._s2 = null
     }
-    return 0
+    return 0`i32
 }
 
 func requestParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
@@ -581,13 +581,13 @@ func requestParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
     else {
         req._body << __string(at !: string, len)
     }
-    return 0
+    return 0`i32
 }
 
 func requestParserOnMessageComplete(p: ^parser.llhttp_t) {
     var req = p.data !: Request;
     req._isComplete = true;
-    return 0
+    return 0`i32
 }
 
 const HTTP_PARSER_SETTINGS = parser.llhttp_settings_t{
-- 
2.43.0


From f6e40c0e5ba07dc9f221c6d1e8124cfc87f83130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:09 +0000
Subject: [PATCH 106/122] fix: compound assignment was not checked, and through
 an overloaded index assignment dropped its operator

---
 src/cxy/lang/middle/sema/assign.c | 94 +++++++++++++++++++++++++++++++
 1 file changed, 94 insertions(+)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 98cdcc4..10205f9 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -7,6 +7,65 @@
 #include "lang/frontend/flag.h"
 #include "lang/frontend/strings.h"
 
+static bool canEvaluateTwice(const AstNode *node)
+{
+    switch (node->tag) {
+    case astPath:
+    case astIdentifier:
+    case astIntegerLit:
+    case astFloatLit:
+    case astBoolLit:
+    case astCharLit:
+    case astStringLit:
+        return true;
+    case astGroupExpr:
+        return canEvaluateTwice(node->groupExpr.expr);
+    case astCastExpr:
+        return canEvaluateTwice(node->castExpr.expr);
+    case astTypedExpr:
+        return canEvaluateTwice(node->typedExpr.expr);
+    case astMemberExpr:
+        return canEvaluateTwice(node->memberExpr.target);
+    case astReferenceOf:
+        return canEvaluateTwice(node->unaryExpr.operand);
+    case astBinaryExpr:
+        return canEvaluateTwice(node->binaryExpr.lhs) &&
+               canEvaluateTwice(node->binaryExpr.rhs);
+    case astIndexExpr:
+        return canEvaluateTwice(node->indexExpr.target) &&
+               canEvaluateTwice(node->indexExpr.index);
+    case astUnaryExpr:
+        return node->unaryExpr.op == opDeref &&
+               canEvaluateTwice(node->unaryExpr.operand);
+    default:
+        return false;
+    }
+}
+
+static bool isCompoundAssignable(const Type *lhs, Operator op, const Type *rhs)
+{
+    lhs = resolveUnThisUnwrapType(stripReference(unwrapType(lhs, NULL)));
+    rhs = resolveUnThisUnwrapType(stripReference(unwrapType(rhs, NULL)));
+    if ((op == opAdd || op == opSub) && typeIs(lhs, Pointer))
+        return isIntegerType(rhs);
+    if (!typeIs(lhs, Primitive) && !typeIs(lhs, Enum))
+        return false;
+    if (!typeIs(rhs, Primitive) && !typeIs(rhs, Enum))
+        return false;
+
+    switch (op) {
+    case opMod:
+    case opBAnd:
+    case opBOr:
+    case opBXor:
+    case opShl:
+    case opShr:
+        return !isFloatType(lhs) && !isFloatType(rhs);
+    default:
+        return true;
+    }
+}
+
 static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
 {
     // change X.[a] = y to X.op_idx_assign(a, y);
@@ -26,6 +85,31 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (node->assignExpr.op != opAssign) {
+        // x.[i] += v => x.[i] = x.[i] + v
+        if (!canEvaluateTwice(left)) {
+            logError(ctx->L,
+                     &left->loc,
+                     "compound assignment through the index assignment `[]=` "
+                     "operator evaluates target and index twice, this is only "
+                     "supported for variables, members and literals",
+                     NULL);
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+        AstNode *current = deepCloneAstNode(ctx->pool, left);
+        current->type = NULL;
+        node->assignExpr.rhs = makeBinaryExpr(ctx->pool,
+                                              &node->loc,
+                                              flgNone,
+                                              current,
+                                              node->assignExpr.op,
+                                              node->assignExpr.rhs,
+                                              NULL,
+                                              NULL);
+        node->assignExpr.op = opAssign;
+    }
+
     AstNode *args = left->indexExpr.index;
     args->next = node->assignExpr.rhs;
 
@@ -145,6 +229,16 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
         node->type = ERROR_TYPE(ctx);
     }
 
+    else if (node->assignExpr.op != opAssign &&
+             !isCompoundAssignable(lhs, node->assignExpr.op, rhs)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "compound assignment is not supported between types '{t}' "
+                 "and '{t}'",
+                 (FormatArg[]){{.t = lhs}, {.t = rhs}});
+        node->type = ERROR_TYPE(ctx);
+    }
+
     if (node->type == ERROR_TYPE(ctx))
         return;
 
-- 
2.43.0


From 0eaffc345034f6cb65d357c1ca0b8d32cb1e40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:09 +0000
Subject: [PATCH 107/122] fix: an optional as the condition of a ternary
 emitted invalid C

---
 src/cxy/lang/middle/sema/check.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index bc6aa29..0746d6e 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -786,6 +786,11 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (node->ternaryExpr.body &&
+        isClassOrStructType(stripReference(unwrapType(cond, NULL))) &&
+        transformToTruthyOperator(visitor, node->ternaryExpr.cond))
+        cond = node->ternaryExpr.cond->type;
+
     if (!isTruthyType(cond)) {
         logError(ctx->L,
                  &node->ternaryExpr.cond->loc,
-- 
2.43.0


From 96ad37310dc202b231bac0559281e4e1ce34794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:09 +0000
Subject: [PATCH 108/122] fix: reading through a constant pointer gave the
 pointer, and dereferencing a string or an array crashed the compiler

---
 src/cxy/lang/middle/sema/unary.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index be77232..f8a0f64 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -175,7 +175,8 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
                 operand = ERROR_TYPE(ctx);
             }
         }
-        else if (isPointerType(operand)) {
+        else if (typeIs(unwrapType(operand, NULL), Pointer)) {
+            operand = unwrapType(operand, NULL);
             node->flags |= (operand->flags & flgConst);
             node->tag = astIndexExpr;
             node->type = operand->pointer.pointed;
-- 
2.43.0


From 061c746ff6ec804e78690947c9d253e54283d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:32 +0000
Subject: [PATCH 109/122] fix: operands put together by the compiler lost their
 grouping in the generated C

---
 src/cxy/lang/backend/c/generate.c | 77 +++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 13 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 8aa3029..192fa42 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -917,20 +917,66 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
     generateInitializer(visitor, node);
 }
 
+// How tightly the C code generated for `node` holds together: 0 for primary
+// and postfix expressions, 1 for prefix expressions, then the precedence of
+// binary operators. The tree has no group for operands that replaced a macro
+// call or were put together by the compiler
+static int getGeneratedPrecedence(const AstNode *node)
+{
+    switch (node->tag) {
+    case astBinaryExpr:
+        return getBinaryOpPrecedence(node->binaryExpr.op);
+    case astTernaryExpr:
+    case astAssignExpr:
+        return getMaxBinaryOpPrecedence() + 1;
+    case astUnaryExpr:
+        if (!node->unaryExpr.isPrefix)
+            return 0;
+        return node->unaryExpr.op == opMove
+                   ? getGeneratedPrecedence(node->unaryExpr.operand)
+                   : 1;
+    case astPointerOf:
+    case astTypedExpr:
+        return 1;
+    case astReferenceOf:
+        return isClassType(node->type->reference.referred)
+                   ? getGeneratedPrecedence(node->unaryExpr.operand)
+                   : 1;
+    case astCastExpr:
+        return MAX(1, getGeneratedPrecedence(node->castExpr.expr));
+    default:
+        return 0;
+    }
+}
+
+static void generateOperand(ConstAstVisitor *visitor,
+                            const AstNode *operand,
+                            int precedence)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    bool group = getGeneratedPrecedence(operand) > precedence;
+    if (group)
+        format(getState(ctx), "(", NULL);
+    astConstVisit(visitor, operand);
+    if (group)
+        format(getState(ctx), ")", NULL);
+}
+
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->binaryExpr.lhs);
+    int precedence = getBinaryOpPrecedence(node->binaryExpr.op);
+    generateOperand(visitor, node->binaryExpr.lhs, precedence);
     format(getState(ctx),
            " {s} ",
            (FormatArg[]){{.s = getBinaryOpString(node->assignExpr.op)}});
-    astConstVisit(visitor, node->binaryExpr.rhs);
+    generateOperand(visitor, node->binaryExpr.rhs, precedence - 1);
 }
 
 static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->assignExpr.lhs);
+    generateOperand(visitor, node->assignExpr.lhs, 1);
     format(getState(ctx),
            " {s} ",
            (FormatArg[]){{.s = getAssignOpString(node->assignExpr.op)}});
@@ -940,7 +986,8 @@ static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
 static void visitTernaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->ternaryExpr.cond);
+    generateOperand(
+        visitor, node->ternaryExpr.cond, getMaxBinaryOpPrecedence());
     format(getState(ctx), "?", NULL);
     if (node->ternaryExpr.body) {
         format(getState(ctx), " ", NULL);
@@ -969,10 +1016,14 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
                    "{s}",
                    (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
         }
-        astConstVisit(visitor, node->unaryExpr.operand);
+        generateOperand(visitor,
+                        node->unaryExpr.operand,
+                        node->unaryExpr.op == opMove
+                            ? getMaxBinaryOpPrecedence() + 1
+                            : 1);
     }
     else {
-        astConstVisit(visitor, node->unaryExpr.operand);
+        generateOperand(visitor, node->unaryExpr.operand, 0);
         format(getState(ctx),
                "{s}",
                (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
@@ -985,7 +1036,7 @@ static void visitTypedExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), node->type);
     format(getState(ctx), ")", NULL);
-    astConstVisit(visitor, node->typedExpr.expr);
+    generateOperand(visitor, node->typedExpr.expr, 1);
 }
 
 static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1010,7 +1061,7 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (hasFlag(node, UnionCast) || typeIs(from, Union)) {
         if (isReferenceType(to) && !isClassType(stripReference(to)))
             format(getState(ctx), "&", NULL);
-        astConstVisit(visitor, expr);
+        generateOperand(visitor, expr, 0);
         if (isPointerOrReferenceType(from))
             format(getState(ctx),
                    "->_{i64}",
@@ -1033,7 +1084,7 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), to);
     format(getState(ctx), ")", NULL);
-    astConstVisit(visitor, expr);
+    generateOperand(visitor, expr, 1);
 }
 
 static void visitGroupExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1076,7 +1127,7 @@ static void visitMemberExpr(ConstAstVisitor *visitor, const AstNode *node)
     }
 
     if (!isImportDeclReference(target)) {
-        astConstVisit(visitor, target);
+        generateOperand(visitor, target, 0);
         if (isPointerType(target->type) || isClassType(target->type) ||
             isReferenceType(target->type))
             format(getState(ctx), "->", NULL);
@@ -1103,7 +1154,7 @@ static void visitPointerOfExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     format(getState(ctx), "&", NULL);
-    astConstVisit(visitor, node->unaryExpr.operand);
+    generateOperand(visitor, node->unaryExpr.operand, 1);
 }
 
 static void visitReferenceOfExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1112,13 +1163,13 @@ static void visitReferenceOfExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (!isClassType(node->type->reference.referred))
         format(getState(ctx), "&", NULL);
 
-    astConstVisit(visitor, node->unaryExpr.operand);
+    generateOperand(visitor, node->unaryExpr.operand, 1);
 }
 
 static void visitIndexExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->indexExpr.target);
+    generateOperand(visitor, node->indexExpr.target, 0);
     format(getState(ctx), "[", NULL);
     astConstVisit(visitor, node->indexExpr.index);
     format(getState(ctx), "]", NULL);
-- 
2.43.0


From 53c8439c967889fc89a6b9f200aae721b314fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:32 +0000
Subject: [PATCH 110/122] fix: a macro of several statements lost all but the
 first, and a parenthesised macro used as a value emitted invalid C

---
 src/cxy/lang/middle/preprocess/preprocessor.c | 58 +++++++++++++++++--
 src/cxy/lang/middle/preprocess/preprocessor.h |  4 ++
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index 028f516..718d0fe 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -24,14 +24,32 @@ static void substituteAstNode(AstVisitor *visitor,
                         ? with->blockStmt.stmts
                         : with;
     AstNodeList replacements = {};
+    bool isStatement = node == ctx->statement;
     for (; body;) {
         AstNode *substitute = clone ? deepCloneAstNode(ctx->pool, body) : body;
         body = body->next;
         substitute->parentScope = node->parentScope;
         substitute->next = NULL;
+        if (isStatement)
+            ctx->statement = substitute;
+        if (isStatement || !nodeIs(node, MacroCallExpr))
+            ctx->listed = substitute;
         astVisit(visitor, substitute);
         insertAstNode(&replacements, substitute);
     }
+    if (!isStatement && nodeIs(replacements.first, ExprStmt) &&
+        nodeIs(node, MacroCallExpr)) {
+        // `macro name(x) (x!)`, used for its value
+        if (replacements.first->next) {
+            logError(ctx->L,
+                     &node->loc,
+                     "macro expands to many statements, it cannot be used as "
+                     "an expression",
+                     NULL);
+            return;
+        }
+        replacements.first = replacements.first->exprStmt.expr;
+    }
     replaceAstNode(node, replacements.first);
 }
 
@@ -166,25 +184,57 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
     popScope(ctx->env);
 }
 
+static bool isStatement(const AstNode *node)
+{
+    switch (node->tag) {
+    case astExprStmt:
+    case astVarDecl:
+    case astIfStmt:
+    case astForStmt:
+    case astWhileStmt:
+    case astSwitchStmt:
+    case astMatchStmt:
+    case astReturnStmt:
+    case astBreakStmt:
+    case astContinueStmt:
+    case astDeferStmt:
+        return true;
+    default:
+        return false;
+    }
+}
+
 static void visitExprStmt(AstVisitor *visitor, AstNode *node)
 {
     PreprocessorContext *ctx = getAstVisitorContext(visitor);
     AstNode *expr = node->exprStmt.expr;
+    const AstNode *statement = ctx->statement;
+    bool listed = ctx->listed == node;
+    ctx->statement = expr;
     astVisit(visitor, expr);
-    // if (hasFlag(expr, Substituted))
-    //     replaceAstNode(node, expr);
+    ctx->statement = statement;
+    if (!hasFlag(expr, Substituted))
+        return;
+    if (expr->next && !listed)
+        replaceAstNode(
+            node,
+            makeBlockStmt(ctx->pool, &node->loc, expr, NULL, NULL));
+    else if (isStatement(expr) || expr->next)
+        replaceAstNode(node, expr);
 }
 
 static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
 {
+    PreprocessorContext *ctx = getAstVisitorContext(visitor);
     AstNode *stmt = node->blockStmt.stmts;
     AstNodeList stmts = {};
     for (; stmt;) {
         AstNode *tmp = stmt;
         stmt = stmt->next;
-        astVisitManyNodes(visitor, tmp);
-
         tmp->next = NULL;
+        ctx->listed = tmp;
+        astVisit(visitor, tmp);
+
         if (!nodeIsNoop(tmp))
             insertAstNode(&stmts, tmp);
     }
diff --git a/src/cxy/lang/middle/preprocess/preprocessor.h b/src/cxy/lang/middle/preprocess/preprocessor.h
index 59be08c..887af02 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.h
+++ b/src/cxy/lang/middle/preprocess/preprocessor.h
@@ -18,6 +18,10 @@ typedef struct PreprocessorContext {
     StrPool *strings;
     Env *env;
     CompilerPreprocessor *preprocessor;
+    // the expression that makes up the expression statement being visited
+    const AstNode *statement;
+    // the statement being visited, when it is in a list of statements
+    const AstNode *listed;
     union {
         struct {
             FileLoc loc;
-- 
2.43.0


From 68b17bd2d74a6221701ffafa0bafb3ab7875cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 111/122] fix: a string expression in a macro or outside
 functions, and a catch outside functions, aborted the compiler

---
 src/cxy/lang/middle/sema/exception.c | 9 +++++++++
 src/cxy/lang/middle/shake/shake.c    | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index c2e3727..61386dd 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -259,6 +259,15 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
         return;
     }
 
+    if (!nodeIs(ctx->blockModifier.parent, BlockStmt)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "catch can only be used within a function",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     if (!ctx->returnState) {
         if (isVoidType(rhsType) && !isVoidResultType(lhsType)) {
             logError(ctx->L,
diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index d41a4a7..955abf7 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -1103,6 +1103,14 @@ static void shakeStringExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (!nodeIs(ctx->block.parent, BlockStmt)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "a string expression can only be used within a function",
+                 NULL);
+        return;
+    }
+
     AstNode *var = makeStrExprBuilder(ctx, node),
             *sb = makeResolvedPath(ctx->pool,
                                    &node->loc,
@@ -1211,6 +1219,7 @@ AstNode *shakeAstNode(CompilerDriver *driver, AstNode *node)
     // clang-format off
     AstVisitor visitor = makeAstVisitor(&context, {
         [astProgram] = shakeProgram,
+        [astMacroDecl] = astVisitSkip,
         [astVarDecl] = shakeVariableDecl,
         [astIfStmt] = shakeIfStmt,
         [astWhileStmt] = shakeWhileStmt,
-- 
2.43.0


From 2b23a5003ef2b0f57e4e58fee761807ea1b9b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:13 +0000
Subject: [PATCH 112/122] fix: modules importing each other in a circle
 overflowed the compiler, and an empty import path aborted it

---
 src/cxy/driver/driver.c | 24 +++++++++++++++++++++++-
 src/cxy/driver/driver.h |  7 +++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 60a68a0..605cbfb 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -343,7 +343,14 @@ static cstring getModuleLocation(CompilerDriver *driver,
 {
     cstring importer = source->loc.fileName,
             modulePath = source->stringLiteral.value;
-    csAssert0(modulePath && modulePath[0] != '\0');
+    csAssert0(modulePath);
+    if (modulePath[0] == '\0') {
+        logError(driver->L,
+                 &source->loc,
+                 "the path of a module/include cannot be empty",
+                 NULL);
+        return NULL;
+    }
     char path[PATH_MAX];
     u64 modulePathLen = strlen(modulePath);
     if (modulePath[0] == '.' && modulePath[1] == '/') {
@@ -424,7 +431,22 @@ const Type *compileModule(CompilerDriver *driver,
                 return NULL;
             }
 
+            for (ModuleImport *it = driver->importing; it; it = it->importer) {
+                if (strcmp(it->path, path) != 0)
+                    continue;
+                logError(driver->L,
+                         &source->loc,
+                         "module '{s}' imports itself, modules cannot import "
+                         "each other in a circle",
+                         (FormatArg[]){{.s = path}});
+                return NULL;
+            }
+
+            ModuleImport importing = {.path = path,
+                                      .importer = driver->importing};
+            driver->importing = &importing;
             program = parseFile(driver, path, false);
+            driver->importing = importing.importer;
             if (program == NULL)
                 return NULL;
 
diff --git a/src/cxy/driver/driver.h b/src/cxy/driver/driver.h
index 811bf00..412dec9 100644
--- a/src/cxy/driver/driver.h
+++ b/src/cxy/driver/driver.h
@@ -40,11 +40,18 @@ typedef struct {
     HashTable binaries;
 } CxyPackage;
 
+// A module being compiled, for the modules that import it
+typedef struct ModuleImport {
+    cstring path;
+    struct ModuleImport *importer;
+} ModuleImport;
+
 typedef struct CompilerDriver {
     Options options;
     MemPool *pool;
     StrPool *strings;
     HashTable moduleCache;
+    ModuleImport *importing;
     HashTable nativeSources;
     HashTable linkLibraries;
     cstring currentDir; // Directory that cxy was executed from
-- 
2.43.0


From ca6157529f78fed706bb79cc98e31e823dbe727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:13 +0000
Subject: [PATCH 113/122] fix: a module's private declarations were reachable
 through its alias

---
 src/cxy/lang/middle/sema/path.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index 5e137aa..1f1390a 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -61,6 +61,25 @@ static AstNode *resolveMemberUpInheritance(TypingContext *ctx,
     return decl;
 }
 
+static bool isPrivateDeclaration(const AstNode *decl)
+{
+    switch (decl->tag) {
+    case astFuncDecl:
+    case astGenericDecl:
+    case astStructDecl:
+    case astClassDecl:
+    case astInterfaceDecl:
+    case astEnumDecl:
+    case astUnionDecl:
+    case astTypeDecl:
+    case astVarDecl:
+    case astException:
+        return !hasFlag(decl, Public);
+    default:
+        return false;
+    }
+}
+
 const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -91,8 +110,22 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
         resolved = decl ? decl->type : NULL;
         break;
     case typInterface:
+        decl = resolveMember(ctx, parent, node, &flags, name);
+        resolved = decl ? decl->type : NULL;
+        break;
     case typModule:
         decl = resolveMember(ctx, parent, node, &flags, name);
+        if (decl && isPrivateDeclaration(decl)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "'{s}' is not a public declaration of '{t}'",
+                     (FormatArg[]){{.s = name}, {.t = parent}});
+            logNote(ctx->L,
+                    &decl->loc,
+                    "`{s}` declared here",
+                    (FormatArg[]){{.s = name}});
+            break;
+        }
         resolved = decl ? decl->type : NULL;
         break;
     case typException:
-- 
2.43.0


From 983249af0b9bf5c5c710f74463ba7b7f8db32956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:13 +0000
Subject: [PATCH 114/122] fix: a function named like an imported one crashed
 the compiler

---
 src/cxy/lang/middle/bind/scope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/bind/scope.c b/src/cxy/lang/middle/bind/scope.c
index dd945d5..39e689c 100644
--- a/src/cxy/lang/middle/bind/scope.c
+++ b/src/cxy/lang/middle/bind/scope.c
@@ -196,7 +196,9 @@ void defineFunctionDecl(Env *env, Log *L, const char *name, AstNode *node)
         &env->scope->symbols, &symbol, hash, sizeof(Symbol), compareSymbols);
     csAssert0(sym);
 
-    if (!wasInserted && L && !nodeIs(sym->node, FuncDecl)) {
+    // an imported function is not an overload of those declared here
+    bool isOverload = nodeIs(sym->node, FuncDecl) && sym->last != NULL;
+    if (!wasInserted && L && !isOverload) {
         logError(L,
                  &node->loc,
                  "symbol '{s}' already defined in current scope",
@@ -204,7 +206,7 @@ void defineFunctionDecl(Env *env, Log *L, const char *name, AstNode *node)
 
         logNote(L, &sym->node->loc, "previously declared here", NULL);
     }
-    else if (!wasInserted) {
+    else if (!wasInserted && isOverload) {
         node->funcDecl.index = sym->index;
         sym->last->list.link = node;
         sym->last = node;
-- 
2.43.0


From 42430c5312d4043a1bef1425d1ed05c2ea79343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:13 +0000
Subject: [PATCH 115/122] fix: a class whose base is named through a module, or
 whose parent class lies in another module, aborted the compiler

---
 src/cxy/lang/frontend/ast.c      | 15 ++++++++++++---
 src/cxy/lang/middle/sema/class.c | 16 +++++++++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index 47753f3..3e22056 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -1745,6 +1745,14 @@ bool isSizeofExpr(const AstNode *node)
     }
 }
 
+static inline bool isFunctionDecl(const AstNode *node)
+{
+    // also the function of another module
+    return nodeIs(node, FuncDecl) ||
+           (nodeIs(node, ExternDecl) &&
+            nodeIs(node->externDecl.func, FuncDecl));
+}
+
 bool isStaticExpr(const AstNode *node)
 {
     if (node == NULL)
@@ -1758,11 +1766,12 @@ bool isStaticExpr(const AstNode *node)
     case astNullLit:
         return true;
     case astIdentifier:
-        return nodeIs(node->ident.resolvesTo, FuncDecl);
+        return isFunctionDecl(node->ident.resolvesTo);
     case astPath:
-        return nodeIs(resolvePath(node), FuncDecl);
+        return isFunctionDecl(resolvePath(node));
     case astMemberExpr:
-        return isStaticExpr(node->memberExpr.target);
+        return isStaticExpr(node->memberExpr.target) ||
+               isStaticExpr(node->memberExpr.member);
     case astTupleExpr:
         for (AstNode *elem = node->tupleExpr.elements; elem;
              elem = elem->next) {
diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 22db503..f07a396 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -66,6 +66,19 @@ void checkBaseDecl(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    const Type *type = resolveAndUnThisType(base);
+    AstNode *decl = type->tClass.decl;
+    if (resolveAstNode(node->classDecl.base) != decl) {
+        // named through a module or an alias
+        node->classDecl.base = makeResolvedPath(ctx->pool,
+                                                &node->classDecl.base->loc,
+                                                decl->classDecl.name,
+                                                node->classDecl.base->flags,
+                                                decl,
+                                                NULL,
+                                                type);
+    }
+
     AstNodeList inheritedMembers = {NULL};
     inheritClassMembers(
         ctx, &inheritedMembers, resolvePath(node->classDecl.base));
@@ -286,7 +299,8 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
         checkBaseDecl(visitor, node);
         if (typeIs(node->type, Error))
             return;
-        baseType = node->classDecl.base->type;
+        base = node->classDecl.base;
+        baseType = base->type;
     }
 
     u64 implementsCount = countAstNodes(node->classDecl.implements);
-- 
2.43.0


From d18948186ba6bc49956fe814c3e602e0dd20732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:22 +0000
Subject: [PATCH 116/122] fix: a class whose base is named through a type alias
 lacked the members of the base

---
 src/cxy/lang/middle/sema/class.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index f07a396..846586a 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -68,7 +68,8 @@ void checkBaseDecl(AstVisitor *visitor, AstNode *node)
 
     const Type *type = resolveAndUnThisType(base);
     AstNode *decl = type->tClass.decl;
-    if (resolveAstNode(node->classDecl.base) != decl) {
+    if (resolveAstNode(node->classDecl.base) != decl ||
+        resolvePath(node->classDecl.base) != decl) {
         // named through a module or an alias
         node->classDecl.base = makeResolvedPath(ctx->pool,
                                                 &node->classDecl.base->loc,
-- 
2.43.0


From 33f27fb5ac2038ce503c305acd9a2f338f5678ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:14 +0000
Subject: [PATCH 117/122] fix: the enumerations and type names of a local C
 header could not be named

---
 src/cxy/driver/c-import/import.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/cxy/driver/c-import/import.cpp b/src/cxy/driver/c-import/import.cpp
index 0168f98..36fee75 100644
--- a/src/cxy/driver/c-import/import.cpp
+++ b/src/cxy/driver/c-import/import.cpp
@@ -154,16 +154,22 @@ static FilePos toCxy(IncludeContext &ctx, const clang::SourceLocation &loc)
             .byteOffset = ctx.SM.getFileOffset(ctx.SM.getFileLoc(loc))};
 }
 
+// Headers are known by their real path, however they were included
+static cstring toRealPath(IncludeContext &ctx, clang::StringRef filename)
+{
+    llvm::SmallString<1024> path;
+    if (llvm::sys::fs::real_path(filename, path))
+        path = filename;
+    return makeStringSized(ctx.strings, path.data(), path.size());
+}
+
 static FileLoc toCxy(IncludeContext &ctx, const clang::Decl &decl)
 {
     if (decl.getLocation().isValid()) {
         auto start = toCxy(ctx, decl.getSourceRange().getBegin());
         auto end = toCxy(ctx, decl.getSourceRange().getEnd());
         auto filename = ctx.SM.getFilename(decl.getLocation());
-        llvm::SmallString<1024> RealPath;
-        llvm::sys::fs::real_path(filename, RealPath);
-        ctx.loc = FileLoc{.fileName = makeStringSized(
-                              ctx.strings, RealPath.data(), RealPath.size()),
+        ctx.loc = FileLoc{.fileName = toRealPath(ctx, filename),
                           .begin = start,
                           .end = end};
     };
@@ -176,8 +182,7 @@ static FileLoc toCxy(IncludeContext &ctx, const clang::SourceRange &range)
         auto start = toCxy(ctx, range.getBegin());
         auto end = toCxy(ctx, range.getEnd());
         auto filename = ctx.SM.getFilename(range.getBegin());
-        ctx.loc = FileLoc{.fileName = makeStringSized(
-                              ctx.strings, filename.data(), filename.size()),
+        ctx.loc = FileLoc{.fileName = toRealPath(ctx, filename),
                           .begin = start,
                           .end = end};
     }
@@ -190,8 +195,7 @@ static FileLoc toCxy(IncludeContext &ctx, const clang::Token &token)
         auto start = toCxy(ctx, token.getLocation());
         auto end = toCxy(ctx, token.getEndLoc());
         auto filename = ctx.SM.getFilename(token.getLocation());
-        ctx.loc = FileLoc{.fileName = makeStringSized(
-                              ctx.strings, filename.data(), filename.size()),
+        ctx.loc = FileLoc{.fileName = toRealPath(ctx, filename),
                           .begin = start,
                           .end = end};
     }
@@ -625,7 +629,7 @@ struct CToCxyConverter : clang::ASTConsumer {
     {
         for (clang::Decl *decl : declGroup) {
             auto loc = ctx.SM.getPresumedLoc(decl->getLocation());
-            if (ctx.importer.find(loc.getFilename()))
+            if (ctx.importer.find(toRealPath(ctx, loc.getFilename())))
                 continue;
 
             switch (decl->getKind()) {
@@ -674,7 +678,7 @@ struct MacroImporter : clang::PPCallbacks {
         if (macro->getMacroInfo()->getNumTokens() != 1)
             return;
         auto loc = ctx.SM.getPresumedLoc(name.getLocation());
-        if (ctx.importer.find(loc.getFilename()))
+        if (ctx.importer.find(toRealPath(ctx, loc.getFilename())))
             return;
 
         auto &token = macro->getMacroInfo()->getReplacementToken(0);
-- 
2.43.0


From 0d64d822c573eff2f902aea7a3e501b2d08460b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 118/122] fix: importing a second C header could give the first
 one's module

---
 src/cxy/driver/c-import/import.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/driver/c-import/import.hpp b/src/cxy/driver/c-import/import.hpp
index 5e72c0e..dc5697d 100644
--- a/src/cxy/driver/c-import/import.hpp
+++ b/src/cxy/driver/c-import/import.hpp
@@ -20,16 +20,16 @@ public:
 
     AstNode *find(clang::StringRef path)
     {
-        auto module = modules.find(path);
+        auto module = modules.find(path.str());
         return module == modules.end() ? nullptr : module->second;
     }
 
     void add(clang::StringRef path, AstNode *module)
     {
-        modules.try_emplace(path, module);
+        modules.try_emplace(path.str(), module);
     }
 
 private:
-    std::unordered_map<std::string_view, AstNode *> modules{};
+    std::unordered_map<std::string, AstNode *> modules{};
 };
 } // namespace cxy
-- 
2.43.0


From 4c0d519cfa3d7f7749c891110151887d8305e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:41 +0000
Subject: [PATCH 119/122] fix: a switch on an enumeration rejected cases whose
 values are not in ascending order

---
 src/cxy/lang/frontend/types.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 2fbd358..4b47b3f 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -1136,9 +1136,14 @@ IntMinMax getIntegerTypeMinMax(const Type *type)
     csAssert0(isIntegralType(type));
     if (typeIs(type, Enum)) {
         csAssert0(type->tEnum.optionsCount);
-        return (IntMinMax){
-            .f = type->tEnum.options[0].value,
-            type->tEnum.options[type->tEnum.optionsCount - 1].value};
+        // options are not necessarily declared in the order of their values
+        i64 min = type->tEnum.options[0].value, max = min;
+        for (u64 i = 1; i < type->tEnum.optionsCount; i++) {
+            i64 value = type->tEnum.options[i].value;
+            min = MIN(min, value);
+            max = MAX(max, value);
+        }
+        return (IntMinMax){.f = min, .s = max};
     }
     return minMaxTable[type->primitive.id];
 }
-- 
2.43.0


From 9a81f81ed43055f7d634b6d6575f750ad21bca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:39 +0000
Subject: [PATCH 120/122] fix: the constants of a typedef'd anonymous
 enumeration and unsigned macros of C were lost

---
 src/cxy/driver/c-import/import.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxy/driver/c-import/import.cpp b/src/cxy/driver/c-import/import.cpp
index 36fee75..a716438 100644
--- a/src/cxy/driver/c-import/import.cpp
+++ b/src/cxy/driver/c-import/import.cpp
@@ -341,7 +341,7 @@ static const Type *toCxy(IncludeContext &ctx, const clang::QualType qualtype)
                      llvm::cast<clang::DecayedType>(type).getDecayedType());
     case clang::Type::Enum: {
         auto &enumType = llvm::cast<clang::EnumType>(type);
-        if (enumType.getDecl()->getName().empty()) {
+        if (getCDeclName(ctx, *enumType.getDecl())[0] == '\0') {
             return withFlags(
                 ctx, toCxy(ctx, enumType.getDecl()->getIntegerType()), flags);
         }
@@ -749,8 +749,13 @@ private:
                 flgPublic | flgExtern,
                 makeStringSized(ctx.strings, name.data(), name.size()),
                 NULL,
-                makeIntegerLiteral(
-                    ctx.pool, &valueLoc, value.getSExtValue(), NULL, type),
+                makeIntegerLiteral(ctx.pool,
+                                   &valueLoc,
+                                   value.isUnsigned()
+                                       ? (i64)value.getZExtValue()
+                                       : value.getSExtValue(),
+                                   NULL,
+                                   type),
                 NULL);
             defineMacro(macro);
         }
-- 
2.43.0


From daa2b0e1110a89aed3f7857c06aaa4e17f7688f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:04 +0000
Subject: [PATCH 121/122] fix: a C structure with a bool in it had another
 layout in cxy

---
 src/cxy/lang/backend/c/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 192fa42..841ff4b 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -2161,7 +2161,7 @@ void *initCompilerBackend(CompilerDriver *driver, int argc, char **argv)
     appendCode(f, "#define true  1\n");
     appendCode(f, "#define false  0\n");
     appendCode(f, "\n");
-    appendCode(f, "typedef int bool;\n");
+    appendCode(f, "typedef _Bool bool;\n");
     appendCode(f, "typedef unsigned int wchar_t;\n");
     appendCode(f, "typedef signed char int8_t;\n");
     appendCode(f, "typedef unsigned char uint8_t;\n");
-- 
2.43.0


From c245b80e397784f3000d1dae048f326c47a7da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:58 +0000
Subject: [PATCH 122/122] fix: unsigned constants of C above the signed range
 were negative

---
 src/cxy/driver/c-import/import.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cxy/driver/c-import/import.cpp b/src/cxy/driver/c-import/import.cpp
index a716438..45c8427 100644
--- a/src/cxy/driver/c-import/import.cpp
+++ b/src/cxy/driver/c-import/import.cpp
@@ -749,13 +749,14 @@ private:
                 flgPublic | flgExtern,
                 makeStringSized(ctx.strings, name.data(), name.size()),
                 NULL,
-                makeIntegerLiteral(ctx.pool,
-                                   &valueLoc,
-                                   value.isUnsigned()
-                                       ? (i64)value.getZExtValue()
-                                       : value.getSExtValue(),
-                                   NULL,
-                                   type),
+                value.isUnsigned()
+                    ? makeUnsignedIntegerLiteral(
+                          ctx.pool, &valueLoc, value.getZExtValue(), NULL, type)
+                    : makeIntegerLiteral(ctx.pool,
+                                         &valueLoc,
+                                         value.getSExtValue(),
+                                         NULL,
+                                         type),
                 NULL);
             defineMacro(macro);
         }
-- 
2.43.0

