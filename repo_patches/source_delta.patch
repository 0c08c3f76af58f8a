From cfa10c90dccad7485d937a41ae9462ac21256ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:47 +0000
Subject: [PATCH 001/110] fix: keep linear-probe chains intact when a removal
 wraps around the hash table

removeFromHashTable() back-shifts entries after a removal. When the hole and
the candidate are on different sides of the end of the table, the test for
'may this entry move into the hole' must be the conjunction of the two bounds,
not the disjunction: entries were moved in front of their home bucket and could
no longer be found. In the type table this showed up as duplicate generic
instantiations ('redefinition of ...') depending on the address space layout.
---
 src/cxy/core/htable.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..6ec5c7b 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -182,7 +182,11 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
         // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        bool movable =
+            index < next_index
+                ? (desired_index <= index || desired_index > next_index)
+                : (desired_index <= index && desired_index > next_index);
+        if (movable) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From b25ecb39ebdb436ca95cd3188b0973f28632fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:14 +0000
Subject: [PATCH 002/110] fix: zero-initialise the type table so builtin types
 get no garbage namespace

---
 src/cxy/lang/frontend/ttable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index 03bddbe..78fae99 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -485,7 +485,7 @@ static bool countTypesWrapper(void *ctx, const void *elem)
 
 TypeTable *newTypeTable(MemPool *pool, StrPool *strPool)
 {
-    TypeTable *table = mallocOrDie(sizeof(TypeTable));
+    TypeTable *table = callocOrDie(1, sizeof(TypeTable));
     table->types = newHashTable(sizeof(Type *));
     table->strPool = strPool;
     table->memPool = pool;
-- 
2.43.0


From 7823dd6ec8610316341da43616f0579cac69af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 003/110] fix: set the sign of integer literals folded at
 compile time

The sign flag was left holding whatever bytes of the folded expression node
overlapped it, so comptime results such as 3 - 5 depended on heap addresses.
---
 src/cxy/lang/middle/eval/literal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..37e8bed 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -90,7 +90,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
         }
         else {
             node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
+            node->intLiteral.isNegative = value < 0;
             if (node->intLiteral.isNegative)
                 node->intLiteral.value = (i64)value;
             else
-- 
2.43.0


From 5db60f9f18af7792317a4c86cd5eae7f75a62e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:39 +0000
Subject: [PATCH 004/110] verification hook: show pool allocation boundaries to
 the address sanitizer (CXY_VP_HOOKS)

---
 src/cxy/core/mempool.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/mempool.c b/src/cxy/core/mempool.c
index 6fe365f..421446b 100644
--- a/src/cxy/core/mempool.c
+++ b/src/cxy/core/mempool.c
@@ -6,6 +6,19 @@
 #include <stdlib.h>
 #include <string.h>
 
+#ifdef CXY_VP_HOOKS
+// Verification builds only: make the address sanitizer see the boundaries of
+// individual pool allocations.
+#include <sanitizer/asan_interface.h>
+#define POOL_RED_ZONE 32
+#define POOL_POISON(P, N) ASAN_POISON_MEMORY_REGION((P), (N))
+#define POOL_UNPOISON(P, N) ASAN_UNPOISON_MEMORY_REGION((P), (N))
+#else
+#define POOL_RED_ZONE 0
+#define POOL_POISON(P, N)
+#define POOL_UNPOISON(P, N)
+#endif
+
 typedef struct MemBlock {
     size_t size;
     size_t capacity;
@@ -36,6 +49,7 @@ static MemBlock *allocMemBlock(MemBlock *prev, size_t capacity)
     block->capacity = capacity;
     block->size = 0;
     block->next = NULL;
+    POOL_POISON(block->data, block->capacity);
     if (prev)
         prev->next = block;
     return block;
@@ -51,7 +65,10 @@ void *allocFromMemPool(MemPool *mem_pool, size_t size)
 {
     if (size == 0)
         return NULL;
-    size = alignTo(size, sizeof(max_align_t));
+#ifdef CXY_VP_HOOKS
+    const size_t requested = size;
+#endif
+    size = alignTo(size, sizeof(max_align_t)) + POOL_RED_ZONE;
     if (!mem_pool->cur) {
         mem_pool->first = mem_pool->cur = allocMemBlock(NULL, size);
     }
@@ -70,6 +87,7 @@ void *allocFromMemPool(MemPool *mem_pool, size_t size)
     assert(remainingMem(mem_pool->cur) >= size);
     void *ptr = ((char *)mem_pool->cur->data) + mem_pool->cur->size;
     mem_pool->cur->size += size;
+    POOL_UNPOISON(ptr, requested);
     return ptr;
 }
 
@@ -140,6 +158,7 @@ void resetMemPool(MemPool *mem_pool)
     MemBlock *block = mem_pool->first;
     while (block) {
         block->size = 0;
+        POOL_POISON(block->data, block->capacity);
         block = block->next;
     }
     mem_pool->cur = mem_pool->first;
-- 
2.43.0


From d24785a4c56cf8a31820fc3151d7f17b3fd05ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 005/110] fix: unwind the parser's try frame when recovering
 from a syntax error in a block

Leaving the catch clause with break/return skipped the frame pop, so the next
syntax error jumped through the buffer of a function that had returned.
---
 src/cxy/lang/frontend/parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..d2e1b34 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1398,7 +1398,6 @@ static AstNode *block(Parser *P)
                 match(P, tokSemicolon);
             } E4C_CATCH(ParserException) {
                 synchronizeUntil(P, tokRBrace);
-                break;
             })
     }
     consume0(P, tokRBrace);
@@ -3679,6 +3678,7 @@ AstNode *parseProgram(Parser *P)
     AstNodeList decls = {NULL};
     AstNode *module = NULL;
     AstNodeList topLevel = {NULL};
+    bool aborted = false;
 
     if (check(P, tokModule))
         module = parseModuleDecl(P);
@@ -3695,7 +3695,9 @@ AstNode *parseProgram(Parser *P)
                     listAddAstNode(&topLevel, node);
             } E4C_CATCH(ParserException) {
                 synchronize(E4C_EXCEPTION.ctx);
-            } E4C_CATCH(ParserAbort) { return NULL; })
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+        if (aborted)
+            return NULL;
     }
 
     while (!isEoF(P)) {
-- 
2.43.0


From 1d6a1f154bf689127aebed585613bc4eacf06f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:16 +0000
Subject: [PATCH 006/110] fix: decode every escape sequence of string and
 character literals

An escaped backslash was decoded as the start of another escape, hex escapes
failed on a stale errno, and non-ASCII or quote literals gave unusable C.
---
 src/cxy/core/utils.c              | 42 ++++++++++++++++++++++++++++---
 src/cxy/lang/backend/c/generate.c | 27 ++++++++++----------
 2 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..d3d7728 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -29,6 +29,7 @@ static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
 {
     char *next = NULL;
+    errno = 0;
     unsigned int ord = strtoul(ptr, &next, base);
     *res = ord;
     return ord <= 255 && !errno ? next - ptr : 0;
@@ -143,6 +144,19 @@ size_t readChar(cstring str, size_t len, u32 *res)
     return convertEscapeSeq(str, len, res);
 }
 
+// Decodes the digits of a hexadecimal or octal escape sequence
+static char decodeDigits(const char *str, size_t n, u64 *i, int base, int max)
+{
+    u32 value = 0;
+    for (; max > 0 && *i < n; max--, (*i)++) {
+        char c = str[*i];
+        if (base == 16 ? !isxdigit(c) : !isodigit(c))
+            break;
+        value = value * base + (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10);
+    }
+    return (char)value;
+}
+
 size_t escapeString(const char *str, size_t n, char *dst, size_t size)
 {
     csAssert0(size >= n);
@@ -192,12 +206,32 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
             dst[j++] = '"';
             i++;
             break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
+        case '\'':
+            dst[j++] = '\'';
+            i++;
+            break;
+        case '\\':
+            dst[j++] = '\\';
+            i++;
+            break;
+        case 'x':
+            if (n - i < 2 || !isxdigit(str[i + 1])) {
+                dst[j++] = '\\';
                 break;
             }
+            i++;
+            dst[j++] = decodeDigits(str, n, &i, 16, 2);
+            break;
+        case '0':
+        case '1':
+        case '2':
+        case '3':
+        case '4':
+        case '5':
+        case '6':
+        case '7':
+            dst[j++] = decodeDigits(str, n, &i, 8, 3);
+            break;
         default:
             dst[j++] = '\\';
             break;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..eac544a 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -781,16 +781,14 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
-    else {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
+    u32 value = (u32)node->charLiteral.value;
+    if (value == '\'')
+        format(getState(ctx), "'\\''", NULL);
+    else if (value < 0x80)
+        format(getState(ctx), "'{cE}'", (FormatArg[]){{.c = value}});
+    else
+        // Not representable by an unprefixed C character literal
+        format(getState(ctx), "{u32}", (FormatArg[]){{.u32 = value}});
 }
 
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
@@ -824,9 +822,12 @@ static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
     cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
     while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
+        // the bytes of multibyte UTF-8 characters are copied as they are
+        if ((u8)*p >= 0x80)
+            append(getState(ctx), p, 1);
+        else
+            printUtf8(getState(ctx), *p, true);
+        p++;
     }
     format(getState(ctx), "\"", NULL);
 }
-- 
2.43.0


From 925f4fbf13e692ddd659329c3eb8c1b60ab3d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:16 +0000
Subject: [PATCH 007/110] fix: encode the lead byte of four byte UTF-8
 characters correctly

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..846a986 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -606,7 +606,7 @@ pub class OutputStream {
             size = 3
         }
         else if (ch < 0x200000) {
-            data.[0] = <char> (0xF0 | (ch >> 16))
+            data.[0] = <char> (0xF0 | (ch >> 18))
             data.[1] = <char> (0x80 | ((ch >> 12) & 0x3f))
             data.[2] = <char> (0x80 | ((ch >> 6) & 0x3f))
             data.[3] = <char> (0x80 | (ch & 0x3f))
-- 
2.43.0


From 5aaa0174007df19cc6df8d26ad8791d574cad243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:11 +0000
Subject: [PATCH 008/110] fix: do not hang or abort on literals that are cut
 short or hold invalid UTF-8

---
 src/cxy/core/utils.c          | 8 ++++----
 src/cxy/lang/frontend/lexer.c | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index d3d7728..4928737 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -51,7 +51,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     if (len == 0) {
         return (u32_u32_pair){1, (u32)s[0]};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
+    if (len > count)
+        return (u32_u32_pair){0, 0};
 
     switch (len) {
     case 2:
@@ -64,10 +65,9 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
     default:
-        csAssert(false, "invalid UTF-8 sequence");
+        // not the first byte of a character
+        return (u32_u32_pair){0, 0};
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..d0181e0 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -147,7 +147,7 @@ static inline bool isSpaceOrPunctuation(char c)
 
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
+    while (!isEofReached(lexer) && !isSpaceOrPunctuation(getCurChar(lexer)))
         advanceLexer(lexer);
 }
 
@@ -477,7 +477,7 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
                 if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
@@ -520,7 +520,8 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '\'')) {
             const char *ptr = getCurPtr(lexer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
-- 
2.43.0


From 3c79b2b7cc45f7cf79458804aa4cf93c1e67ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:53 +0000
Subject: [PATCH 009/110] fix: report compile time division by zero instead of
 dying on it

---
 src/cxy/lang/middle/eval/binary.c         | 20 +++++++++++++++++++-
 src/cxy/lang/middle/preprocess/evaluate.c | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..d385e62 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -181,6 +181,21 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
 
+static bool checkIntegerDivision(EvalContext *ctx, AstNode *node)
+{
+    f64 lhs = nodeGetNumericLiteral(node->binaryExpr.lhs),
+        rhs = nodeGetNumericLiteral(node->binaryExpr.rhs);
+    if ((i64)rhs == 0 || ((i64)rhs == -1 && (i64)lhs == INT64_MIN)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "comp-time integer division by zero or overflow",
+                 NULL);
+        node->tag = astError;
+        return false;
+    }
+    return true;
+}
+
 static void evalDivOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -214,7 +229,7 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
+    else if (checkIntegerDivision(ctx, node)) {
         i64 value =
             (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
         nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
@@ -244,6 +259,9 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
+    if (!checkIntegerDivision(ctx, node))
+        return;
+
     nodeSetNumericLiteral(node,
                           lhs,
                           rhs,
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..c641a6f 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -64,6 +64,21 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
     nodeSetNumericLiteral(node, lhs, rhs, value);
 }
 
+static bool checkIntegerDivision(PreprocessorContext *ctx, AstNode *node)
+{
+    f64 lhs = nodeGetNumericLiteral(node->binaryExpr.lhs),
+        rhs = nodeGetNumericLiteral(node->binaryExpr.rhs);
+    if ((i64)rhs == 0 || ((i64)rhs == -1 && (i64)lhs == INT64_MIN)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "comp-time integer division by zero or overflow",
+                 NULL);
+        node->tag = astError;
+        return false;
+    }
+    return true;
+}
+
 static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -88,7 +103,7 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
+    else if (checkIntegerDivision(ctx, node)) {
         i64 value =
             (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
         nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
@@ -108,6 +123,9 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
+    if (!checkIntegerDivision(ctx, node))
+        return;
+
     nodeSetNumericLiteral(node,
                           lhs,
                           rhs,
-- 
2.43.0


From a79dafb29d781c4c9711b823b9b65ea63e7e5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:53 +0000
Subject: [PATCH 010/110] fix: reject malformed macro calls and ex! after a
 failed expression without crashing

---
 src/cxy/lang/middle/eval/macro.c              | 2 ++
 src/cxy/lang/middle/preprocess/preprocessor.c | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/cxy/lang/middle/eval/macro.c b/src/cxy/lang/middle/eval/macro.c
index b5989fc..7e7e0b9 100644
--- a/src/cxy/lang/middle/eval/macro.c
+++ b/src/cxy/lang/middle/eval/macro.c
@@ -282,6 +282,8 @@ static AstNode *makeExNode(AstVisitor *visitor,
     if (typer->catcher.result == NULL) {
         AstNode *lhs = typer->catcher.expr;
         const Type *type = resolveUnThisUnwrapType(lhs->type);
+        if (type == NULL || !isResultType(type))
+            return NULL;
         typer->catcher.result = makeVarDecl(
             ctx->pool,
             &node->loc,
diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index 028f516..90a6ed0 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -87,6 +87,15 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
 {
     PreprocessorContext *ctx = getAstVisitorContext(visitor);
     AstNode *callee = node->callExpr.callee, *args = node->callExpr.args;
+    if (!nodeIs(callee, Identifier)) {
+        logError(ctx->L,
+                 &callee->loc,
+                 "macro call expects the name of a macro",
+                 NULL);
+        node->tag = astError;
+        return;
+    }
+
     AstNode *macro =
         preprocessorFindMacro(ctx->preprocessor, callee->ident.value)
             ?: findSymbolOnly(ctx->env, callee->ident.value);
-- 
2.43.0


From 3fc2ba35de70e8f40ba236931f6674416876bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:33 +0000
Subject: [PATCH 011/110] fix: let nested closures capture through the
 enclosing closure's fields

---
 src/cxy/lang/frontend/capture.h    | 2 ++
 src/cxy/lang/middle/bind/resolve.c | 8 +++++---
 src/cxy/lang/middle/sema/closure.c | 9 +++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cxy/lang/frontend/capture.h b/src/cxy/lang/frontend/capture.h
index 76e09b3..86e9359 100644
--- a/src/cxy/lang/frontend/capture.h
+++ b/src/cxy/lang/frontend/capture.h
@@ -11,6 +11,8 @@ extern "C" {
 struct Capture {
     AstNode *node;
     AstNode *field;
+    // The captured field of the enclosing closure, when closures are nested
+    AstNode *outer;
     u32 id;
     u64 flags;
 };
diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index afe2948..907cfe4 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -79,9 +79,7 @@ static AstNode *captureSymbol(BindContext *ctx,
                 break;
 
             // capture in current set
-            if (prev)
-                prev->flags = flgMember;
-
+            Capture *inner = prev;
             prev = addClosureCapture(&parent->closureExpr.captureSet, symbol);
             root->flags |= flgMember;
             if (nodeIs(symbol, FieldDecl))
@@ -96,6 +94,10 @@ static AstNode *captureSymbol(BindContext *ctx,
                                               NULL,
                                               NULL);
             }
+            if (inner) {
+                inner->flags = flgMember;
+                inner->outer = prev->field;
+            }
             captured = prev->field;
         }
         parent = parent->parentScope;
diff --git a/src/cxy/lang/middle/sema/closure.c b/src/cxy/lang/middle/sema/closure.c
index 62ee0a0..5029151 100644
--- a/src/cxy/lang/middle/sema/closure.c
+++ b/src/cxy/lang/middle/sema/closure.c
@@ -100,14 +100,15 @@ static void transformClosureToStructExpr(AstVisitor *visitor,
     for (u64 i = 0; i < node->closureExpr.captureCount; i++) {
         Capture *capture = &node->closureExpr.capture[i];
         cstring name = getCapturedNodeName(capture->node);
-        const Type *fieldType = capture->node->type;
+        AstNode *source = capture->outer ?: capture->node;
+        const Type *fieldType = source->type;
         AstNode *value = makeResolvedPath(
             ctx->pool,
             &node->loc,
             name,
-            capture->node->flags | capture->flags |
-                (nodeIs(capture->node, FieldDecl) ? flgAddThis : flgNone),
-            capture->node,
+            source->flags | capture->flags |
+                (nodeIs(source, FieldDecl) ? flgAddThis : flgNone),
+            source,
             NULL,
             fieldType);
         if (isClassOrStructType(fieldType) || isUnionType(fieldType) ||
-- 
2.43.0


From 4b023aa431a712bf002c998a35a801cfe84b8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:03 +0000
Subject: [PATCH 012/110] fix: let #for loop variables be used like other
 compile time variables

---
 src/cxy/lang/middle/eval/for.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..33a3f6c 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -221,6 +221,7 @@ void evalForStmt(AstVisitor *visitor, AstNode *node)
     }
 
     AstNodeList nodes = {NULL};
+    node->forStmt.var->flags |= flgComptime;
 
     switch (node->forStmt.range->tag) {
     case astRangeExpr:
@@ -241,7 +242,7 @@ void evalForStmt(AstVisitor *visitor, AstNode *node)
                      &rangeLoc,
                      "`#for` loop range expression is not comptime iterable, "
                      "parameter '{s}' is not variadic",
-                     NULL);
+                     (FormatArg[]){{.s = node->forStmt.range->ident.value}});
             node->tag = astError;
             return;
         }
-- 
2.43.0


From 487fc1d4aeebe392d61e7769c6db1561a5a515ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:22 +0000
Subject: [PATCH 013/110] fix: unroll #for over arrays, negative and stepped
 ranges correctly

---
 src/cxy/lang/middle/eval/eval.c |  3 ++-
 src/cxy/lang/middle/eval/for.c  | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..ad7547b 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -276,13 +276,14 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
             "unsupported comp-time operation '..', range start and stop must "
             "be compile time expressions",
             NULL);
+        node->tag = astError;
     }
 
     node->next = next;
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index 33a3f6c..54db054 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -61,7 +61,7 @@ static bool evalExprForStmtArray(AstVisitor *visitor,
     for (; elem; elem = elem->next) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         body->parentScope = node->parentScope;
-        variable->varDecl.init = elem;
+        variable->varDecl.init = copyAstNode(ctx->pool, elem);
 
         const Type *type = evalType(ctx, body);
 
@@ -178,12 +178,23 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
                    ? integerLiteralValue(range->rangeExpr.step)
                    : 1;
 
-    for (; i < count; i += step) {
+    if (step == 0) {
+        logError(ctx->L,
+                 &range->loc,
+                 "the step of a compile time range cannot be zero",
+                 NULL);
+        node->tag = astError;
+        return false;
+    }
+
+    for (; step > 0 ? i < count : i > count; i += step) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral.isNegative = i < 0,
+                       .intLiteral.value = i});
 
         if (body) {
             body->parentScope = node->parentScope;
-- 
2.43.0


From 49e21b198b4b00d9df3e803a9265adad530ed483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:11 +0000
Subject: [PATCH 014/110] fix: end range loops at the first value past the
 bound

---
 src/cxy/lang/middle/simplify/simplify.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..80f44f8 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -119,6 +119,22 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
+static bool isNegativeLiteral(const AstNode *node)
+{
+    if (nodeIs(node, UnaryExpr))
+        return node->unaryExpr.op == opMinus;
+    return nodeIs(node, IntegerLit) && node->intLiteral.isNegative;
+}
+
+static Operator getRangeConditionOp(const AstNode *range)
+{
+    const AstNode *step = range->rangeExpr.step;
+    if (range->rangeExpr.down || (step && isNegativeLiteral(step)))
+        return opGt;
+    // the direction of a step only known at runtime cannot be determined here
+    return step == NULL || nodeIs(step, IntegerLit) ? opLt : opNe;
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -145,7 +161,7 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                               var,
                                               NULL,
                                               var->type),
-                       opNe,
+                       getRangeConditionOp(range),
                        // range.end
                        range->rangeExpr.end,
                        NULL,
-- 
2.43.0


From 96cff9495660d791adaec51d6a1ca78ea37c6fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 015/110] fix: evaluate grouped, typed, negated and string
 operands at compile time

---
 src/cxy/lang/middle/eval/binary.c  | 51 ++++++++++++++++++++++++++----
 src/cxy/lang/middle/eval/eval.c    |  5 ++-
 src/cxy/lang/middle/eval/eval.h    |  2 ++
 src/cxy/lang/middle/eval/literal.c |  1 +
 src/cxy/lang/middle/eval/unary.c   | 13 +++++---
 5 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index d385e62..b727bbe 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -15,6 +15,28 @@ static inline bool isSupportedBinaryOperand(AstNode *node)
            nodeIs(node, GenericParam);
 }
 
+AstNode *getEvaluatedOperand(AstNode *node)
+{
+    while (nodeIs(node, TypedExpr) || nodeIs(node, GroupExpr))
+        node = nodeIs(node, TypedExpr) ? node->typedExpr.expr
+                                       : node->groupExpr.expr;
+    return node;
+}
+
+static bool isLiteralOperand(const AstNode *node)
+{
+    switch (node->tag) {
+    case astStringLit:
+    case astIntegerLit:
+    case astBoolLit:
+    case astFloatLit:
+    case astCharLit:
+        return true;
+    default:
+        return false;
+    }
+}
+
 static inline bool isArgumentTypeThis(const AstNode *node)
 {
     return nodeIs(node, Path) &&
@@ -29,8 +51,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
@@ -57,10 +80,14 @@ void evalStringConcatenation(EvalContext *ctx,
                              AstNode *lhs,
                              AstNode *rhs)
 {
-    StringBuilder sb;
+    StringBuilder sb = {};
     stringBuilderInit(&sb);
-    evalStringBuilderAppend(ctx, &sb, lhs);
-    csAssert0(evalStringBuilderAppend(ctx, &sb, rhs));
+    if (!evalStringBuilderAppend(ctx, &sb, lhs) ||
+        !evalStringBuilderAppend(ctx, &sb, rhs)) {
+        stringBuilderDeinit(&sb);
+        node->tag = astError;
+        return;
+    }
 
     char *str = stringBuilderRelease(&sb);
     node->tag = astStringLit;
@@ -77,7 +104,17 @@ bool verifyBinaryExprOperand(EvalContext *ctx, AstNode *node)
     if (op == opLAnd || op == opLOr)
         return true;
 
-    if (!isSupportedBinaryOperand(lhs) || !isSupportedBinaryOperand(rhs)) {
+    // types and null can only be compared for equality, every other operation
+    // needs the values of its operands
+    bool isEquality = op == opEq || op == opNe;
+    bool isSupported =
+        isEquality ? isSupportedBinaryOperand(lhs) &&
+                         isSupportedBinaryOperand(rhs) &&
+                         (isTypeExpr(lhs) || isTypeExpr(rhs) ||
+                          ((isLiteralOperand(lhs) || nodeIs(lhs, NullLit)) &&
+                           (isLiteralOperand(rhs) || nodeIs(rhs, NullLit))))
+                   : isLiteralOperand(lhs) && isLiteralOperand(rhs);
+    if (!isSupported) {
         logError(ctx->L,
                  &lhs->loc,
                  "operands of `{s}` must be either a literal or type at "
@@ -531,6 +568,8 @@ void evalBinaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    node->binaryExpr.lhs = getEvaluatedOperand(node->binaryExpr.lhs);
+    node->binaryExpr.rhs = getEvaluatedOperand(node->binaryExpr.rhs);
     if (!verifyBinaryExprOperand(ctx, node))
         return;
 
diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index ad7547b..8233c4f 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -102,7 +102,7 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    if (node->tag != astUnaryExpr && node->tag != astGroupExpr &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
@@ -275,6 +275,9 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    node->rangeExpr.start = start = getEvaluatedOperand(start);
+    node->rangeExpr.end = end = getEvaluatedOperand(end);
+    node->rangeExpr.step = step = getEvaluatedOperand(step);
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
         (step && !nodeIs(step, IntegerLit))) {
         logError(
diff --git a/src/cxy/lang/middle/eval/eval.h b/src/cxy/lang/middle/eval/eval.h
index 08b9369..8bc22b2 100644
--- a/src/cxy/lang/middle/eval/eval.h
+++ b/src/cxy/lang/middle/eval/eval.h
@@ -41,6 +41,8 @@ AstNode *evalAstNodeMemberAccess(EvalContext *ctx,
                                  bool annotation);
 
 bool verifyBinaryExprOperand(EvalContext *ctx, AstNode *node);
+AstNode *getEvaluatedOperand(AstNode *node);
+
 bool evalBooleanCast(EvalContext *ctx, AstNode *node);
 
 void evalPath(AstVisitor *visitor, AstNode *node);
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index 37e8bed..2f7a0bf 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -113,6 +113,7 @@ bool evalBooleanCast(EvalContext *ctx, AstNode *node)
         break;
     case astNullLit:
         node->boolLiteral.value = false;
+        node->tag = astBoolLit;
         break;
     case astCharLit:
         node->boolLiteral.value = node->charLiteral.value != '\0';
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..ecf7529 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -44,7 +44,7 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
         return;
 
     f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
@@ -65,7 +65,7 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
         return;
 
     f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
@@ -91,7 +91,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +102,10 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
+    i64 value = ~((i64)nodeGetNumericLiteral(rhs));
     node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    node->intLiteral.isNegative = value < 0;
+    node->intLiteral.value = value;
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -115,6 +117,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    node->unaryExpr.operand = getEvaluatedOperand(node->unaryExpr.operand);
     if (!node->unaryExpr.isPrefix) {
         logError(ctx->L,
                  &node->loc,
@@ -133,7 +136,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
-- 
2.43.0


From 0fe0ca562f386f7521ab923560e29f34401163c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 016/110] fix: type check the step of a range

---
 src/cxy/lang/middle/sema/for.c          | 10 +++++++---
 src/cxy/lang/middle/simplify/simplify.c | 23 +++++++++++++++--------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index da96f7f..a8e511f 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -336,13 +336,17 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (node->rangeExpr.step) {
-        const Type *step = checkType(visitor, node->rangeExpr.end);
+        const Type *step = checkType(visitor, node->rangeExpr.step);
+        if (typeIs(step, Error)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
         if (!isNumericType(step)) {
             logError(ctx->L,
-                     &node->rangeExpr.start->loc,
+                     &node->rangeExpr.step->loc,
                      "`range` step type '{t}' is not supported, expecting a "
                      "numeric type",
-                     (FormatArg[]){{.t = start}, {.t = end}});
+                     (FormatArg[]){{.t = step}});
             node->type = ERROR_TYPE(ctx);
             return;
         }
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 80f44f8..14ac507 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -119,17 +119,24 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
-static bool isNegativeLiteral(const AstNode *node)
-{
-    if (nodeIs(node, UnaryExpr))
-        return node->unaryExpr.op == opMinus;
-    return nodeIs(node, IntegerLit) && node->intLiteral.isNegative;
-}
-
 static Operator getRangeConditionOp(const AstNode *range)
 {
     const AstNode *step = range->rangeExpr.step;
-    if (range->rangeExpr.down || (step && isNegativeLiteral(step)))
+    bool isNegative = range->rangeExpr.down;
+    while (nodeIs(step, TypedExpr) || nodeIs(step, GroupExpr) ||
+           nodeIs(step, UnaryExpr)) {
+        if (nodeIs(step, TypedExpr))
+            step = step->typedExpr.expr;
+        else if (nodeIs(step, GroupExpr))
+            step = step->groupExpr.expr;
+        else {
+            isNegative |= step->unaryExpr.op == opMinus;
+            step = step->unaryExpr.operand;
+        }
+    }
+    if (nodeIs(step, IntegerLit))
+        isNegative |= step->intLiteral.isNegative;
+    if (isNegative)
         return opGt;
     // the direction of a step only known at runtime cannot be determined here
     return step == NULL || nodeIs(step, IntegerLit) ? opLt : opNe;
-- 
2.43.0


From 54b6687ba8cc6389d5ec6762570ee16d039f3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:39 +0000
Subject: [PATCH 017/110] fix: report variables whose type cannot be inferred

---
 src/cxy/lang/middle/sema/check.c     | 13 +++++++++++++
 src/cxy/lang/middle/sema/variables.c |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..b8de069 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -168,6 +168,19 @@ static void checkBlockStmt(AstVisitor *visitor, AstNode *node)
     if (stmt && ctx->returnState)
         reportUnreachable(ctx, stmt);
 
+    for (AstNode *it = stmts; it; it = it->next) {
+        if (nodeIs(it, VarDecl) && !hasFlag(it, Comptime) &&
+            typeIs(it->type, Auto)) {
+            logError(ctx->L,
+                     &it->loc,
+                     "the type of variable '{s}' cannot be inferred, it has "
+                     "neither a type nor an initializer",
+                     (FormatArg[]){{.s = it->varDecl.name}});
+            node->type = ERROR_TYPE(ctx);
+            goto restoreBlock;
+        }
+    }
+
     if (node->type == NULL)
         node->type = makeVoidType(ctx->types);
 
diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index bd96c28..185e7e5 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -52,6 +52,13 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     if (init_ == NULL) {
+        if (typeIs(type_, Auto) && hasFlag(node, TopLevelDecl)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "global variable '{s}' needs a type or an initializer",
+                     (FormatArg[]){{.s = node->varDecl.name}});
+            type_ = ERROR_TYPE(ctx);
+        }
         node->type = type_;
         return;
     }
-- 
2.43.0


From bf54e105ad56901d3e61e20deb8c4e6a62d39ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:07 +0000
Subject: [PATCH 018/110] fix: let structs name their own type and report those
 that contain themselves

---
 src/cxy/lang/frontend/types.h     |  1 +
 src/cxy/lang/middle/sema/struct.c | 27 +++++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/cxy/lang/frontend/types.h b/src/cxy/lang/frontend/types.h
index e99e325..ff2989b 100644
--- a/src/cxy/lang/frontend/types.h
+++ b/src/cxy/lang/frontend/types.h
@@ -188,6 +188,7 @@ typedef struct Type {
 
         struct {
             bool trackReferences;
+            bool isStruct;
             DynArray references;
             const Type *that;
         } _this;
diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 9ebd151..8fd21c2 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -13,6 +13,23 @@
 #include "core/alloc.h"
 #include "lang/middle/shake/shake.h"
 
+// whether values of the given type embed a struct that is still being checked
+static bool isIncompleteStruct(const Type *type)
+{
+    type = unwrapType(type, NULL);
+    if (typeIs(type, Array))
+        return isIncompleteStruct(type->array.elementType);
+    if (typeIs(type, Tuple)) {
+        for (u64 i = 0; i < type->tuple.count; i++) {
+            if (isIncompleteStruct(type->tuple.members[i]))
+                return true;
+        }
+        return false;
+    }
+    return typeIs(type, This) && type->_this.isStruct &&
+           type->_this.that == NULL;
+}
+
 static void evaluateStructMembers(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -43,6 +60,14 @@ static void evaluateStructMembers(AstVisitor *visitor, AstNode *node)
         }
         else {
             type = checkType(visitor, member);
+            if (nodeIs(member, FieldDecl) && isIncompleteStruct(type)) {
+                logError(ctx->L,
+                         &member->loc,
+                         "field '{s}' makes its struct contain itself",
+                         (FormatArg[]){{.s = member->structField.name}});
+                node->type = ERROR_TYPE(ctx);
+                return;
+            }
             type = unwrapType(type, NULL);
             if (isClassType(type)) {
                 node->flags |= flgReferenceMembers;
@@ -451,7 +476,9 @@ void checkStructDecl(AstVisitor *visitor, AstNode *node)
         node->structDecl.thisType
             ?: makeThisType(ctx->types, node->structDecl.name, flgNone);
     const Type *this = node->structDecl.thisType;
+    ((Type *)this)->_this.isStruct = true;
 
+    node->type = this;
     ctx->currentStruct = node;
     evaluateStructMembers(visitor, node);
     ctx->currentStruct = NULL;
-- 
2.43.0


From 76f4ded6557a43982cdc763669341b540129b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 019/110] fix: stop runaway macro expansion

---
 src/cxy/lang/middle/preprocess/preprocessor.c | 13 +++++++++++++
 src/cxy/lang/middle/preprocess/preprocessor.h |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index 90a6ed0..c3018c2 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -83,6 +83,8 @@ static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
         substituteAstNode(visitor, node, els, false);
 }
 
+#define MAX_MACRO_DEPTH 64
+
 static void visitMacroCall(AstVisitor *visitor, AstNode *node)
 {
     PreprocessorContext *ctx = getAstVisitorContext(visitor);
@@ -117,6 +119,15 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (ctx->macroDepth >= MAX_MACRO_DEPTH) {
+        logError(ctx->L,
+                 &node->loc,
+                 "expansion of macro '{s}' is nested too deeply",
+                 (FormatArg[]){{.s = macro->macroDecl.name}});
+        node->tag = astError;
+        return;
+    }
+
     u64 paramsCount = countAstNodes(macro->macroDecl.params);
     u64 argumentsCount = countAstNodes(args);
     u64 requiredArguments = paramsCount - hasFlag(macro, Variadic);
@@ -168,7 +179,9 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
     if (ok && macro->macroDecl.body) {
         typeof(ctx->stack) stack = ctx->stack;
         ctx->stack = (typeof(ctx->stack)){node->loc, true};
+        ctx->macroDepth++;
         substituteAstNode(visitor, node, macro, true);
+        ctx->macroDepth--;
         ctx->stack = stack;
         node->flags |= flgSubstituted;
     }
diff --git a/src/cxy/lang/middle/preprocess/preprocessor.h b/src/cxy/lang/middle/preprocess/preprocessor.h
index 59be08c..5c92899 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.h
+++ b/src/cxy/lang/middle/preprocess/preprocessor.h
@@ -18,6 +18,7 @@ typedef struct PreprocessorContext {
     StrPool *strings;
     Env *env;
     CompilerPreprocessor *preprocessor;
+    u32 macroDepth;
     union {
         struct {
             FileLoc loc;
-- 
2.43.0


From a467d7bdbff5291df8bb1d267d649b0700972388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 020/110] fix: report uncalled generic functions, interface
 calls and stray this instead of crashing

---
 src/cxy/lang/middle/bind/resolve.c      |  3 ++-
 src/cxy/lang/middle/sema/generics.c     | 21 ++++++++++++++++++++-
 src/cxy/lang/middle/simplify/simplify.c |  7 +++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 907cfe4..2d0dad8 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -243,7 +243,8 @@ void bindPath(AstVisitor *visitor, AstNode *node)
         else {
             AstNode *func =
                 findEnclosingFunction(ctx->env, NULL, keyword, NULL);
-            if (keyword == S_this && nodeIs(func->parentScope, Exception)) {
+            if (keyword == S_this && func &&
+                nodeIs(func->parentScope, Exception)) {
                 base->pathElement.resolvesTo =
                     findSymbol(ctx->env, ctx->L, S_this, &base->loc);
             }
diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 1905543..f95f3f6 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -284,6 +284,20 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
 
     TypingContext *ctx = getAstVisitorContext(visitor);
     u64 variadicArgumentsCount = 0;
+    if (nodeIs(generic->genericDecl.decl, FuncDecl) &&
+        ctx->currentCall == NULL &&
+        (hasFlag(generic, Variadic) ||
+         countAstNodes(node->pathElement.args) <
+             generic->type->generic.paramsCount)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "the type parameters of generic function '{s}' can only be "
+                 "inferred when it is called",
+                 (FormatArg[]){
+                     {.s = getDeclarationName(generic->genericDecl.decl)}});
+        return node->type = ERROR_TYPE(ctx);
+    }
+
     if (hasFlag(generic, Variadic)) {
         const AstNode *decl = generic->genericDecl.decl;
         // transform function call params
@@ -300,8 +314,13 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
         paramsCount = type->generic.paramsCount + variadicArgumentsCount;
     const Type **paramTypes = NULL;
 
-    if (argsCount > paramsCount)
+    if (argsCount > paramsCount) {
+        logError(ctx->L,
+                 &node->loc,
+                 "too many type arguments, got {u64}, expecting at most {u64}",
+                 (FormatArg[]){{.u64 = argsCount}, {.u64 = paramsCount}});
         return node->type = ERROR_TYPE(ctx);
+    }
 
     paramTypes = mallocOrDie(sizeof(Type *) * paramsCount);
     for (; arg; index++, arg = arg->next) {
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 14ac507..af41c81 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -750,6 +750,13 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *callee = node->callExpr.callee, *args = node->callExpr.args;
     AstNode *func = callee->type->func.decl;
+    if (func == NULL) {
+        logError(ctx->L,
+                 &node->loc,
+                 "calls through interfaces are not supported",
+                 NULL);
+        return;
+    }
 
     astVisit(visitor, callee);
     AstNode *arg = args,
-- 
2.43.0


From 547f9b6bd8a5a77ec0068fcc52dbbe8ce435bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 021/110] fix: report classes that inherit from themselves

---
 src/cxy/lang/middle/sema/class.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..900018d 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -281,6 +281,13 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
     if (node->type)
         return;
 
+    node->classDecl.thisType =
+        node->classDecl.thisType
+            ?: makeThisType(ctx->types, node->classDecl.name, flgNone);
+    const Type *this = node->classDecl.thisType;
+
+    node->type = this;
+
     if (node->classDecl.base) {
         checkBaseDecl(visitor, node);
         if (typeIs(node->type, Error))
@@ -298,12 +305,6 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
             goto checkClassInterfacesError;
     }
 
-    node->classDecl.thisType =
-        node->classDecl.thisType
-            ?: makeThisType(ctx->types, node->classDecl.name, flgNone);
-    const Type *this = node->classDecl.thisType;
-
-    node->type = this;
     ctx->currentClass = node;
     evalClassMembers(visitor, node);
     ctx->currentClass = NULL;
-- 
2.43.0


From eca53c4c3a93ffa4fb9b245755dfe7a41f4c2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:58 +0000
Subject: [PATCH 022/110] fix: do not search a cyclic chain of base classes
 forever

---
 src/cxy/lang/middle/bind/resolve.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 2d0dad8..daf2b49 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -137,10 +137,16 @@ static AstNode *resolvePathBaseUpChain(AstVisitor *visitor, AstNode *path)
     }
 
     AstNode *base = resolvePath(parent->classDecl.base);
+    // last visited class at a power of 2, seen again if the chain is cyclic
+    AstNode *mark = NULL;
 
     // lookup symbol upstream
     for (u64 i = 1; isClassDeclaration(base);
          base = resolvePath(underlyingDeclaration(base)->classDecl.base), i++) {
+        if (base == mark)
+            break;
+        if ((i & (i - 1)) == 0)
+            mark = base;
         if (base->type)
             resolved = findMemberDeclInType(
                 base->type, root->pathElement.alt ?: root->pathElement.name);
-- 
2.43.0


From be5042fc70bb0608d9e126a95d1b5fb8940eb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 023/110] fix: cast grouped and enum literals, and keep the
 sign of cast literals

---
 src/cxy/lang/middle/sema/cast.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..82f0275 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -9,11 +9,14 @@
 
 static void castIntegerLiteral(const Type *to, AstNode *expr)
 {
+    u64 value = expr->intLiteral.isNegative ? (u64)expr->intLiteral.value
+                                            : expr->intLiteral.uValue;
 #define CAST_INTEGER(TYP)                                                      \
+    expr->intLiteral.isNegative = (TYP)value < (TYP)1 && (TYP)value != 0;      \
     if (expr->intLiteral.isNegative)                                           \
-        expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;             \
+        expr->intLiteral.value = (i64)(TYP)value;                              \
     else                                                                       \
-        expr->intLiteral.uValue = (u64)(TYP)expr->intLiteral.uValue;
+        expr->intLiteral.uValue = (u64)(TYP)value;
 
     switch (to->primitive.id) {
     case prtU8:
@@ -48,8 +51,14 @@ static void castIntegerLiteral(const Type *to, AstNode *expr)
 
 static void castLiteral(TypingContext *ctx, AstNode *node)
 {
-    if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
-        AstNode *expr = node->castExpr.expr;
+    AstNode *expr = node->castExpr.expr;
+    while (nodeIs(expr, GroupExpr))
+        expr = expr->groupExpr.expr;
+
+    bool isEnum = isEnumLiteral(expr);
+    if ((isEnum || isNumericLiteral(expr)) && typeIs(node->type, Primitive) &&
+        !isBooleanType(node->type)) {
+        i64 enumValue = isEnum ? getEnumLiteralValue(expr) : 0;
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
@@ -73,8 +82,8 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
                 expr->intLiteral.isNegative = false;
                 expr->intLiteral.uValue = expr->boolLiteral.value ? 1 : 0;
             }
-            else if (isEnumLiteral(expr)) {
-                i64 value = getEnumLiteralValue(expr);
+            else if (isEnum) {
+                i64 value = enumValue;
                 expr->tag = astIntegerLit;
                 if (value < 0) {
                     expr->intLiteral.isNegative = true;
@@ -93,7 +102,8 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
         }
         else if (isFloatType(node->type)) {
             if (!nodeIs(expr, FloatLit)) {
-                expr->floatLiteral.value = (f64)integerLiteralValue(expr);
+                expr->floatLiteral.value =
+                    isEnum ? (f64)enumValue : nodeGetNumericLiteral(expr);
                 expr->tag = astFloatLit;
             }
             if (node->type->primitive.id == prtF32)
@@ -101,8 +111,9 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
             replaceAstNodeWith(node, expr);
         }
         else if (isCharacterType(node->type)) {
+            expr->charLiteral.value =
+                isEnum ? (i32)enumValue : (i32)nodeGetNumericLiteral(expr);
             expr->tag = astCharLit;
-            expr->charLiteral.value = (i32)nodeGetNumericLiteral(expr);
             if (node->primitiveType.id == prtCChar)
                 expr->charLiteral.value = (u8)expr->charLiteral.value;
             replaceAstNodeWith(node, expr);
@@ -123,6 +134,8 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
                  &node->loc,
                  "type '{t}' cannot be cast to type '{t}'",
                  (FormatArg[]){{.t = expr}, {.t = target}});
+        node->type = ERROR_TYPE(ctx);
+        return;
     }
     node->type = target;
     if (typeIs(expr, Union)) {
-- 
2.43.0


From 704b3af659d5c3f3478ae174d0135ad5be1067fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:51 +0000
Subject: [PATCH 024/110] fix: print unsigned integers as unsigned

---
 src/cxy/runtime/builtins.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 846a986..2690ae3 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -643,6 +643,8 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
+        else #if (U.isUnsigned)
+            appendUnSignedInt(<u64>val)
         else #if (U.isInteger)
             appendSignedInt(<i64>val)
         else #if (U.isFloat)
-- 
2.43.0


From 9fb25abc21569eef1b18ce2d2c4c6db8dea36857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:25 +0000
Subject: [PATCH 025/110] fix: give range cases their range and shared cases
 their body

---
 src/cxy/lang/backend/c/generate.c       | 11 +++++++++--
 src/cxy/lang/frontend/ast.h             |  1 +
 src/cxy/lang/frontend/parser.c          | 15 +++++++++++----
 src/cxy/lang/middle/dump/cxy.c          |  5 ++++-
 src/cxy/lang/middle/simplify/simplify.c |  7 +++++--
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index eac544a..33231f9 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1597,7 +1597,14 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
             }
         }
         else {
-            astConstVisit(visitor, node->caseStmt.match);
+            const AstNode *match = node->caseStmt.match;
+            if (nodeIs(match, RangeExpr)) {
+                astConstVisit(visitor, match->rangeExpr.start);
+                format(getState(ctx), " ... ", NULL);
+                astConstVisit(visitor, match->rangeExpr.end);
+            }
+            else
+                astConstVisit(visitor, match);
             format(getState(ctx), ": {{{>}\n", NULL);
         }
     }
@@ -1608,7 +1615,7 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
     astConstVisit(visitor, body);
     if (nodeIs(body, BlockStmt))
         body = getLastAstNode(body->blockStmt.stmts);
-    if (!nodeIs(body, ReturnStmt))
+    if (!node->caseStmt.sharesBody && !nodeIs(body, ReturnStmt))
         format(getState(ctx), "\nbreak;{<}\n}", NULL);
     else
         format(getState(ctx), "{<}\n}", NULL);
diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index dffe9fe..2fbfb6c 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -780,6 +780,7 @@ struct AstNode {
             AstNode *body;
             AstNode *variable;
             u32 idx;
+            bool sharesBody; // `case A, B => body`, A uses the body of B
         } caseStmt;
 
         struct {
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index d2e1b34..c335aea 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2433,7 +2433,8 @@ static AstNode *caseStatement(Parser *P)
         flags |= flgDefault;
     }
 
-    if (!match(P, tokComma)) {
+    bool sharesBody = match(P, tokComma) != NULL;
+    if (!sharesBody) {
         consume0(P, tokFatArrow);
         if (!check(P, tokCase, tokRBrace)) {
             body = statement(P, false);
@@ -2444,7 +2445,9 @@ static AstNode *caseStatement(Parser *P)
                       &tok,
                       &(AstNode){.tag = astCaseStmt,
                                  .flags = flags,
-                                 .caseStmt = {.match = match, .body = body}});
+                                 .caseStmt = {.match = match,
+                                              .body = body,
+                                              .sharesBody = sharesBody}});
 }
 
 static AstNode *switchStatement(Parser *P)
@@ -2498,7 +2501,8 @@ static AstNode *matchCaseStatement(Parser *P)
         flags |= flgDefault;
     }
 
-    if (!match(P, tokComma)) {
+    bool sharesBody = match(P, tokComma) != NULL;
+    if (!sharesBody) {
         // either case X { or case =>
         if (!check(P, tokLBrace))
             consume0(P, tokFatArrow);
@@ -2513,7 +2517,10 @@ static AstNode *matchCaseStatement(Parser *P)
         &(AstNode){
             .tag = astCaseStmt,
             .flags = flags,
-            .caseStmt = {.match = match, .body = body, .variable = variable}});
+            .caseStmt = {.match = match,
+                         .body = body,
+                         .variable = variable,
+                         .sharesBody = sharesBody}});
 }
 
 static AstNode *matchStatement(Parser *P)
diff --git a/src/cxy/lang/middle/dump/cxy.c b/src/cxy/lang/middle/dump/cxy.c
index a571b66..ffcee8d 100644
--- a/src/cxy/lang/middle/dump/cxy.c
+++ b/src/cxy/lang/middle/dump/cxy.c
@@ -874,7 +874,10 @@ static void dumpCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
         AddSpace();
         astConstVisit(visitor, node->caseStmt.variable);
     }
-    if (node->caseStmt.body) {
+    if (node->caseStmt.sharesBody) {
+        format(ctx->state, ",", NULL);
+    }
+    else if (node->caseStmt.body) {
         format(ctx->state, " => ", NULL);
         astConstVisit(visitor, node->caseStmt.body);
     }
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index af41c81..c2257c1 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -1212,7 +1212,10 @@ void visitMatchStmt(AstVisitor *visitor, AstNode *node)
                                  NULL,
                                  cond->type);
                 variable->varDecl.init->castExpr.idx = esac->caseStmt.idx;
-                if (nodeIs(body, BlockStmt)) {
+                if (body == NULL) {
+                    esac->caseStmt.variable = NULL;
+                }
+                else if (nodeIs(body, BlockStmt)) {
                     variable->next = body->blockStmt.stmts;
                     body->blockStmt.stmts = variable;
                 }
@@ -1228,7 +1231,7 @@ void visitMatchStmt(AstVisitor *visitor, AstNode *node)
                 esac->caseStmt.variable = NULL;
             }
         }
-        else if (!nodeIs(body, BlockStmt)) {
+        else if (body && !nodeIs(body, BlockStmt)) {
             esac->caseStmt.body = makeBlockStmt(
                 ctx->pool, &body->loc, body, NULL, makeVoidType(ctx->types));
         }
-- 
2.43.0


From b1b34f45de417445da1e2c99414bda0fcfee0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:53 +0000
Subject: [PATCH 026/110] fix: keep expression statements whose operands have
 side effects

---
 src/cxy/lang/middle/simplify/simplify.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index c2257c1..540c078 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -448,22 +448,22 @@ static bool isRedundantExpressionMany(AstNode *node)
 {
     AstNode *it = node;
     for (; it; it = it->next) {
-        if (isRedundantExpression(it))
-            return true;
+        if (!isRedundantExpression(it))
+            return false;
     }
 
-    return false;
+    return true;
 }
 
 static bool isRedundantStructExpression(AstNode *node)
 {
     AstNode *it = node->structExpr.fields;
     for (; it; it = it->next) {
-        if (isRedundantExpression(it->fieldExpr.value))
-            return true;
+        if (!isRedundantExpression(it->fieldExpr.value))
+            return false;
     }
 
-    return false;
+    return true;
 }
 
 static bool isRedundantExpression(AstNode *node)
@@ -487,7 +487,8 @@ static bool isRedundantExpression(AstNode *node)
     case astMemberExpr:
         return isRedundantExpression(node->memberExpr.target);
     case astIndexExpr:
-        return isRedundantExpression(node->indexExpr.target);
+        return isRedundantExpression(node->indexExpr.target) &&
+               isRedundantExpression(node->indexExpr.index);
     case astArrayExpr:
         return isRedundantExpressionMany(node->arrayExpr.elements);
     case astTupleExpr:
@@ -506,12 +507,12 @@ static bool isRedundantExpression(AstNode *node)
     }
 
     case astBinaryExpr:
-        return isRedundantExpression(node->binaryExpr.lhs) ||
+        return isRedundantExpression(node->binaryExpr.lhs) &&
                isRedundantExpression(node->binaryExpr.rhs);
 
     case astTernaryExpr:
-        return isRedundantExpression(node->ternaryExpr.cond) ||
-               isRedundantExpression(node->ternaryExpr.body) ||
+        return isRedundantExpression(node->ternaryExpr.cond) &&
+               isRedundantExpression(node->ternaryExpr.body) &&
                isRedundantExpression(node->ternaryExpr.otherwise);
     default:
         return false;
-- 
2.43.0


From bcd8036b735e026d7985b3a6bb85c5bcdb2c89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:00 +0000
Subject: [PATCH 027/110] fix: type check a ?: b

---
 src/cxy/lang/middle/eval/eval.c               |  2 +-
 src/cxy/lang/middle/preprocess/preprocessor.c |  2 +-
 src/cxy/lang/middle/sema/check.c              | 16 +++++++++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 8233c4f..6f82544 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -184,7 +184,7 @@ void evalTernaryExpr(AstVisitor *visitor, AstNode *node)
 
     if (cond->boolLiteral.value) {
         // select then branch & reclaim else branch if any x
-        AstNode *replacement = node->ternaryExpr.body;
+        AstNode *replacement = node->ternaryExpr.body ?: cond;
         replacement->parentScope = node->parentScope;
         *node = *replacement;
         node->next = next;
diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index c3018c2..fb07e99 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -78,7 +78,7 @@ static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (cond->boolLiteral.value)
-        substituteAstNode(visitor, node, then, false);
+        substituteAstNode(visitor, node, then ?: cond, false);
     else
         substituteAstNode(visitor, node, els, false);
 }
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index b8de069..b3904ab 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -780,7 +780,10 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *cond = checkType(visitor, node->ternaryExpr.cond);
-    const Type *body = checkType(visitor, node->ternaryExpr.body);
+    // `a ?: b` is `a` if truthy, otherwise `b`
+    const Type *body = node->ternaryExpr.body
+                           ? checkType(visitor, node->ternaryExpr.body)
+                           : cond;
     const Type *otherwise = checkType(visitor, node->ternaryExpr.otherwise);
 
     if (typeIs(cond, Error) || //
@@ -801,6 +804,17 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (node->ternaryExpr.body == NULL &&
+        (isStructType(stripAll(cond)) || hasFlag(stripAll(cond), Optional))) {
+        logError(ctx->L,
+                 &node->ternaryExpr.cond->loc,
+                 "expecting the left hand side of '?:' to be a scalar, got "
+                 "'{t}'",
+                 (FormatArg[]){{.t = cond}});
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     if (!isTypeAssignableFrom(body, otherwise)) {
         logError(ctx->L,
                  &node->loc,
-- 
2.43.0


From 7a79b5f1ff0bc1f459f1e5a13f04ea32d368a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 028/110] fix: merge variable states of switch cases by
 variable, not by position

---
 src/cxy/lang/middle/mem/manage.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..6ed58e5 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -131,13 +131,25 @@ static void restoreVariableState(MemContext *ctx, DynArray *vars)
     }
 }
 
+static const VariableTrace *findCapturedVariable(const DynArray *vars,
+                                                 const AstNode *variable)
+{
+    for (u32 i = 0; i < vars->size; i++) {
+        const VariableTrace *vt = &dynArrayAt(VariableTrace *, vars, i);
+        if (vt->variable == variable)
+            return vt;
+    }
+    return NULL;
+}
+
 static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
 {
     bool allMaybeAssigned = true;
     for (u32 i = 0; i < lhs->size; i++) {
         VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
-        const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
-        csAssert0(varLhs->variable == varRhs->variable);
+        // the two states may have been captured in different orders
+        const VariableTrace *varRhs = findCapturedVariable(rhs, varLhs->variable);
+        csAssert0(varRhs);
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-- 
2.43.0


From c21586afce9f40840f9555be98eb5ee9f35e4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 029/110] fix: generate literals with the type and precision
 they have

---
 src/cxy/lang/backend/c/generate.c | 39 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 33231f9..f8f9c28 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <errno.h>
+#include <math.h>
 #include <string.h>
 #include <sys/stat.h>
 
@@ -794,26 +795,40 @@ static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->intLiteral.isNegative)
+    // C picks the type of a literal from its value, wide types are spelled out
+    const Type *type = resolveAndUnThisType(node->type);
+    bool wide = typeIs(type, Primitive) &&
+                (type->primitive.id == prtI64 || type->primitive.id == prtU64);
+    if (node->intLiteral.isNegative && node->intLiteral.value == INT64_MIN)
+        format(getState(ctx), "(-9223372036854775807ll - 1)", NULL);
+    else if (node->intLiteral.isNegative)
         format(getState(ctx),
-               "{i64}",
-               (FormatArg[]){{.i64 = node->intLiteral.value}});
-    else if (isUnsignedType(node->type))
-        format(getState(ctx),
-               "{u64}u",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+               "{i64}{s}",
+               (FormatArg[]){{.i64 = node->intLiteral.value},
+                             {.s = wide ? "ll" : ""}});
     else
         format(getState(ctx),
-               "{u64}",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+               "{u64}{s}{s}",
+               (FormatArg[]){{.u64 = node->intLiteral.uValue},
+                             {.s = isUnsignedType(type) ? "u" : ""},
+                             {.s = wide ? "ll" : ""}});
 }
 
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx),
-           "{f64}",
-           (FormatArg[]){{.f64 = node->floatLiteral.value}});
+    const Type *type = resolveAndUnThisType(node->type);
+    bool isF32 = typeIs(type, Primitive) && type->primitive.id == prtF32;
+    f64 value = node->floatLiteral.value;
+    if (isnan(value))
+        format(getState(ctx), "(0.0/0.0)", NULL);
+    else if (isinf(value))
+        format(getState(ctx), value < 0 ? "(-1.0/0.0)" : "(1.0/0.0)", NULL);
+    else {
+        char buf[64];
+        snprintf(buf, sizeof(buf), isF32 ? "%.8ef" : "%.16e", value);
+        format(getState(ctx), "{s}", (FormatArg[]){{.s = buf}});
+    }
 }
 
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 6ce47224fcf816202869b936ba85fb1e9baae865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 030/110] fix: fold integers at compile time exactly and check
 shift counts

---
 src/cxy/lang/frontend/ast.h               |   5 +
 src/cxy/lang/middle/eval/binary.c         |  32 +++----
 src/cxy/lang/middle/eval/literal.c        | 112 ++++++++++++++++++++++
 src/cxy/lang/middle/eval/unary.c          |  25 +----
 src/cxy/lang/middle/preprocess/evaluate.c |  61 +++++-------
 5 files changed, 158 insertions(+), 77 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index 2fbfb6c..9eed70b 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1515,6 +1515,11 @@ void nodeSetNumericLiteral(AstNode *node,
                            AstNode *lhs,
                            AstNode *rhs,
                            f64 value);
+__int128 nodeGetIntegralLiteral(const AstNode *node);
+void nodeSetIntegerLiteral(AstNode *node, __int128 value);
+bool nodeFoldIntegers(AstNode *node, const AstNode *lhs, const AstNode *rhs);
+int nodeCompareNumericLiterals(const AstNode *lhs, const AstNode *rhs);
+bool nodeCheckShiftCount(Log *L, const AstNode *node);
 
 bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
 
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index b727bbe..d17d9e8 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -220,9 +220,10 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
 
 static bool checkIntegerDivision(EvalContext *ctx, AstNode *node)
 {
-    f64 lhs = nodeGetNumericLiteral(node->binaryExpr.lhs),
-        rhs = nodeGetNumericLiteral(node->binaryExpr.rhs);
-    if ((i64)rhs == 0 || ((i64)rhs == -1 && (i64)lhs == INT64_MIN)) {
+    const AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    if (nodeGetNumericLiteral(rhs) == 0 ||
+        (nodeGetIntegralLiteral(rhs) == -1 &&
+         nodeGetIntegralLiteral(lhs) == INT64_MIN)) {
         logError(ctx->L,
                  &node->loc,
                  "comp-time integer division by zero or overflow",
@@ -267,9 +268,7 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
     else if (checkIntegerDivision(ctx, node)) {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+        nodeFoldIntegers(node, lhs, rhs);
     }
 }
 
@@ -299,11 +298,7 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
     if (!checkIntegerDivision(ctx, node))
         return;
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    nodeFoldIntegers(node, lhs, rhs);
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
@@ -347,6 +342,11 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
             (FormatArg[]){{.s = name}});
     }
 
+    if (!nodeCheckShiftCount(ctx->L, node)) {
+        node->tag = astError;
+        return false;
+    }
+
     return true;
 }
 
@@ -357,11 +357,7 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        nodeFoldIntegers(node, lhs, rhs);                                      \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -470,7 +466,7 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 static void evalIsOperation(EvalContext *ctx, AstNode *node)
@@ -514,7 +510,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index 2f7a0bf..333ee45 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -26,6 +26,114 @@ f64 nodeGetNumericLiteral(const AstNode *node)
     }
 }
 
+__int128 nodeGetIntegralLiteral(const AstNode *node)
+{
+    switch (node->tag) {
+    case astBoolLit:
+        return node->boolLiteral.value;
+    case astCharLit:
+        return node->charLiteral.value;
+    case astIntegerLit:
+        return node->intLiteral.isNegative ? (__int128)node->intLiteral.value
+                                           : (__int128)node->intLiteral.uValue;
+    default:
+        return 0;
+    }
+}
+
+int nodeCompareNumericLiterals(const AstNode *lhs, const AstNode *rhs)
+{
+    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
+        f64 left = nodeGetNumericLiteral(lhs),
+            right = nodeGetNumericLiteral(rhs);
+        return left < right ? -1 : left > right;
+    }
+    __int128 left = nodeGetIntegralLiteral(lhs),
+             right = nodeGetIntegralLiteral(rhs);
+    return left < right ? -1 : left > right;
+}
+
+void nodeSetIntegerLiteral(AstNode *node, __int128 value)
+{
+    if (value < INT64_MIN || value > UINT64_MAX)
+        value = (i64)value;
+    node->tag = astIntegerLit;
+    node->intLiteral.isNegative = value < 0;
+    if (node->intLiteral.isNegative)
+        node->intLiteral.value = (i64)value;
+    else
+        node->intLiteral.uValue = (u64)value;
+}
+
+bool nodeFoldIntegers(AstNode *node, const AstNode *lhs, const AstNode *rhs)
+{
+    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit))
+        return false;
+
+    __int128 left = nodeGetIntegralLiteral(lhs),
+             right = nodeGetIntegralLiteral(rhs), value;
+    switch (node->binaryExpr.op) {
+    case opAdd:
+        value = left + right;
+        break;
+    case opSub:
+        value = left - right;
+        break;
+    case opMul:
+        // wraps like the other operators do
+        value = (__int128)((unsigned __int128)left * (unsigned __int128)right);
+        break;
+    case opDiv:
+        value = left / right;
+        break;
+    case opMod:
+        value = left % right;
+        break;
+    case opBAnd:
+        value = left & right;
+        break;
+    case opBOr:
+        value = left | right;
+        break;
+    case opBXor:
+        value = left ^ right;
+        break;
+    case opShl:
+        value = (i64)((u64)left << right);
+        break;
+    case opShr:
+        value = left >> right;
+        break;
+    default:
+        return false;
+    }
+
+    if (nodeIs(lhs, BoolLit) && nodeIs(rhs, BoolLit)) {
+        node->tag = astBoolLit;
+        node->boolLiteral.value = value != 0;
+    }
+    else if (nodeIs(lhs, CharLit) && !nodeIs(rhs, IntegerLit)) {
+        node->tag = astCharLit;
+        node->charLiteral.value = (wchar)value;
+    }
+    else {
+        nodeSetIntegerLiteral(node, value);
+    }
+    return true;
+}
+
+bool nodeCheckShiftCount(Log *L, const AstNode *node)
+{
+    if (node->binaryExpr.op != opShl && node->binaryExpr.op != opShr)
+        return true;
+    __int128 count = nodeGetIntegralLiteral(node->binaryExpr.rhs);
+    if (count < 0 || count > 63) {
+        logError(L, &node->loc, "comp-time shift count out of range", NULL);
+        return false;
+    }
+    return true;
+}
+
 i64 getEnumLiteralValue(const AstNode *node)
 {
     csAssert0(typeIs(node->type, Enum));
@@ -46,6 +154,10 @@ i64 getEnumLiteralValue(const AstNode *node)
 
 void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
 {
+    // integers do not fit in a f64
+    if (nodeFoldIntegers(node, lhs, rhs))
+        return;
+
     switch (lhs->tag) {
     case astBoolLit:
         if (nodeIs(rhs, BoolLit)) {
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index ecf7529..48229ba 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -43,18 +43,12 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
     if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = -rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, -nodeGetIntegralLiteral(rhs));
     }
 }
 
@@ -64,18 +58,12 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = +nodeGetNumericLiteral(rhs);
     if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, nodeGetIntegralLiteral(rhs));
     }
 }
 
@@ -102,10 +90,7 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    i64 value = ~((i64)nodeGetNumericLiteral(rhs));
-    node->tag = astIntegerLit;
-    node->intLiteral.isNegative = value < 0;
-    node->intLiteral.value = value;
+    nodeSetIntegerLiteral(node, ~nodeGetIntegralLiteral(rhs));
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index c641a6f..342024f 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -66,9 +66,10 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
 
 static bool checkIntegerDivision(PreprocessorContext *ctx, AstNode *node)
 {
-    f64 lhs = nodeGetNumericLiteral(node->binaryExpr.lhs),
-        rhs = nodeGetNumericLiteral(node->binaryExpr.rhs);
-    if ((i64)rhs == 0 || ((i64)rhs == -1 && (i64)lhs == INT64_MIN)) {
+    const AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    if (nodeGetNumericLiteral(rhs) == 0 ||
+        (nodeGetIntegralLiteral(rhs) == -1 &&
+         nodeGetIntegralLiteral(lhs) == INT64_MIN)) {
         logError(ctx->L,
                  &node->loc,
                  "comp-time integer division by zero or overflow",
@@ -104,9 +105,7 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
     else if (checkIntegerDivision(ctx, node)) {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+        nodeFoldIntegers(node, lhs, rhs);
     }
 }
 
@@ -126,11 +125,7 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
     if (!checkIntegerDivision(ctx, node))
         return;
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    nodeFoldIntegers(node, lhs, rhs);
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
@@ -165,6 +160,11 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
             (FormatArg[]){{.s = name}});
     }
 
+    if (!nodeCheckShiftCount(ctx->L, node)) {
+        node->tag = astError;
+        return false;
+    }
+
     return true;
 }
 
@@ -175,11 +175,7 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        nodeFoldIntegers(node, lhs, rhs);                                      \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -226,7 +222,7 @@ static void evalIsOperation(PreprocessorContext *ctx, AstNode *node)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Eq, ==)
@@ -242,7 +238,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
         node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+            nodeCompareNumericLiterals(lhs, rhs) OP 0;                         \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
@@ -286,36 +282,24 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = -rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, -nodeGetIntegralLiteral(rhs));
     }
 }
 
 static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
         node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+        node->floatLiteral.value = rhs->floatLiteral.value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, nodeGetIntegralLiteral(rhs));
     }
 }
 
@@ -328,12 +312,11 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeSetIntegerLiteral(node, ~nodeGetIntegralLiteral(rhs));
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From 194b1e296491835f5d79997ab4d382ac6f8a9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 031/110] fix: evaluate temporaries of conditional operands and
 else-if conditions only when they are reached

---
 src/cxy/lang/middle/shake/shake.c       |   6 +-
 src/cxy/lang/middle/simplify/simplify.c | 144 ++++++++++++++++++++++++
 2 files changed, 148 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index d41a4a7..5816851 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -488,14 +488,16 @@ static void shakeIfStmt(AstVisitor *visitor, AstNode *node)
 
     if (node->ifStmt.otherwise) {
         AstNode *otherwise = node->ifStmt.otherwise;
-        if (!nodeIs(otherwise, BlockStmt) && !nodeIs(otherwise, IfStmt)) {
+        // an `else if` gets a block as well, it is where the temporaries of its
+        // condition go, they must not be evaluated before the first condition
+        if (!nodeIs(otherwise, BlockStmt)) {
             node->ifStmt.otherwise =
                 makeAstNode(ctx->pool,
                             &otherwise->loc,
                             &(AstNode){.tag = astBlockStmt,
                                        .blockStmt = {.stmts = otherwise}});
         }
-        astVisit(visitor, otherwise);
+        astVisit(visitor, node->ifStmt.otherwise);
     }
 }
 
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 540c078..51f7a1c 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -861,8 +861,151 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/**
+ * Visits an expression that is not always evaluated. The temporaries that it
+ * needs are not added to the current block, they are returned.
+ */
+static AstNode *visitConditionalExpr(AstVisitor *visitor, AstNode *expr)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstModifier prev = ctx->block;
+    AstNode *block = makeBlockStmt(
+        ctx->pool, &expr->loc, NULL, NULL, makeVoidType(ctx->types));
+    astModifierInit(&ctx->block, block);
+    astVisit(visitor, expr);
+    ctx->block = prev;
+    return block->blockStmt.stmts;
+}
+
+static AstNode *makeConditionalVariable(SimplifyContext *ctx,
+                                        AstNode *node,
+                                        AstNode *init)
+{
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_c"),
+                               NULL,
+                               init,
+                               NULL,
+                               node->type);
+    astModifierAdd(&ctx->block, var);
+    return var;
+}
+
+static AstNode *makeConditionalVariableRef(SimplifyContext *ctx,
+                                           AstNode *node,
+                                           AstNode *var)
+{
+    return makeResolvedIdentifier(
+        ctx->pool, &node->loc, var->_name, 0, var, NULL, var->type);
+}
+
+/// { stmts; var = expr; }
+static AstNode *makeConditionalBlock(SimplifyContext *ctx,
+                                     AstNode *var,
+                                     AstNode *stmts,
+                                     AstNode *expr)
+{
+    AstNodeList list = {};
+    if (stmts)
+        insertAstNode(&list, stmts);
+    insertAstNode(
+        &list,
+        makeExprStmt(ctx->pool,
+                     &expr->loc,
+                     flgNone,
+                     makeAssignExpr(ctx->pool,
+                                    &expr->loc,
+                                    flgNone,
+                                    makeConditionalVariableRef(ctx, expr, var),
+                                    opAssign,
+                                    expr,
+                                    NULL,
+                                    var->type),
+                     NULL,
+                     makeVoidType(ctx->types)));
+    return makeBlockStmt(
+        ctx->pool, &expr->loc, list.first, NULL, makeVoidType(ctx->types));
+}
+
+static void replaceWithConditionalVariable(SimplifyContext *ctx,
+                                           AstNode *node,
+                                           AstNode *var)
+{
+    AstNode *ref = makeConditionalVariableRef(ctx, node, var);
+    ref->next = node->next;
+    ref->parentScope = node->parentScope;
+    *node = *ref;
+}
+
+static void visitLogicExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    astVisit(visitor, lhs);
+    AstNode *stmts = visitConditionalExpr(visitor, rhs);
+    if (stmts == NULL)
+        return;
+
+    // lhs && rhs => var c = lhs; if (c) { ...; c = rhs; }
+    AstNode *var = makeConditionalVariable(ctx, node, lhs),
+            *cond = makeConditionalVariableRef(ctx, node, var);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &node->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             var->type);
+    astModifierAdd(&ctx->block,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              cond,
+                              makeConditionalBlock(ctx, var, stmts, rhs),
+                              NULL,
+                              NULL));
+    replaceWithConditionalVariable(ctx, node, var);
+}
+
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    if (isClassType(node->type) || isDestructible(node->type)) {
+        astVisitFallbackVisitAll(visitor, node);
+        return;
+    }
+    AstNode *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    astVisit(visitor, node->ternaryExpr.cond);
+    AstNode *bodyStmts = visitConditionalExpr(visitor, body),
+            *otherwiseStmts = visitConditionalExpr(visitor, otherwise);
+    if (bodyStmts == NULL && otherwiseStmts == NULL)
+        return;
+
+    // cond ? a : b => var c; if (cond) { ...; c = a; } else { ...; c = b; }
+    AstNode *var = makeConditionalVariable(ctx, node, NULL);
+    astModifierAdd(
+        &ctx->block,
+        makeIfStmt(ctx->pool,
+                   &node->loc,
+                   flgNone,
+                   node->ternaryExpr.cond,
+                   makeConditionalBlock(ctx, var, bodyStmts, body),
+                   makeConditionalBlock(ctx, var, otherwiseStmts, otherwise),
+                   NULL));
+    replaceWithConditionalVariable(ctx, node, var);
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
+    if (node->binaryExpr.op == opLAnd || node->binaryExpr.op == opLOr) {
+        visitLogicExpr(visitor, node);
+        return;
+    }
     astVisitFallbackVisitAll(visitor, node);
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -1449,6 +1592,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astPathElem] = visitPathElement,
         [astIdentifier] = visitIdentifier,
         [astBinaryExpr] = visitBinaryExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astIndexExpr] = visitIndexExpr,
         [astCallExpr] = visitCallExpr,
         [astCastExpr] = visitCastExpr,
-- 
2.43.0


From 8d2a8ed335ae03bfffc8744d70cd723b634a64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:05 +0000
Subject: [PATCH 032/110] fix: a variable initialised from a constant is not
 constant

---
 src/cxy/lang/middle/sema/variables.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index 185e7e5..776750a 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -92,6 +92,13 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     node->type = typeIs(type_, Auto) ? init_ : type_;
+    if (typeIs(type_, Auto) && !hasFlag(node, Const)) {
+        // a copy of a constant scalar is not constant
+        const Type *value = unwrapType(init_, NULL);
+        if (typeIs(value, Primitive) || typeIs(value, String) ||
+            typeIs(value, Enum))
+            node->type = value;
+    }
     if (typeIs(type_, Union) && type_ != init_) {
         u32 idx = findUnionTypeIndex(type_, init_);
         csAssert0(idx != UINT32_MAX);
-- 
2.43.0


From 70be85fc33407534774e2eeb12287dd6398f6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 033/110] fix: initialize arrays with a list of values in the
 generated C

---
 src/cxy/lang/backend/c/generate.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index f8f9c28..907dc77 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -872,6 +872,26 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+/* An array can only be initialized with a list of values in C, not with a
+ * compound literal */
+static void generateInitializer(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (!nodeIs(node, ArrayExpr)) {
+        astConstVisit(visitor, node);
+        return;
+    }
+
+    format(getState(ctx), "{{", NULL);
+    const AstNode *element = node->arrayExpr.elements;
+    for (; element; element = element->next) {
+        generateInitializer(visitor, element);
+        if (element->next)
+            format(getState(ctx), ", ", NULL);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
 static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
@@ -881,7 +901,7 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
         generateTypeName(ctx, getState(ctx), node->type);
         format(getState(ctx), ")", NULL);
     }
-    generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
+    generateInitializer(visitor, node);
 }
 
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1095,7 +1115,7 @@ static void visitFieldExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (nullInit)
         format(getState(ctx), " {{}", NULL);
     else
-        astConstVisit(visitor, node->fieldExpr.value);
+        generateInitializer(visitor, node->fieldExpr.value);
 }
 
 static void visitStructExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1122,7 +1142,7 @@ static void visitTupleExpr(ConstAstVisitor *visitor, const AstNode *node)
         if (i)
             format(getState(ctx), ",\n", NULL);
         format(getState(ctx), "._{u64} = ", (FormatArg[]){{.u64 = i}});
-        astConstVisit(visitor, member);
+        generateInitializer(visitor, member);
     }
     format(getState(ctx), "{<}\n}", NULL);
 }
@@ -1136,7 +1156,7 @@ static void visitUnionValue(ConstAstVisitor *visitor, const AstNode *node)
            "){{.tag = {u32}, ._{u32} = ",
            (FormatArg[]){{.u32 = node->unionValue.idx},
                          {.u32 = node->unionValue.idx}});
-    astConstVisit(visitor, node->unionValue.value);
+    generateInitializer(visitor, node->unionValue.value);
     format(getState(ctx), "}", NULL);
 }
 
@@ -1683,7 +1703,7 @@ static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
         if (nullInit)
             format(getState(ctx), " {{}", NULL);
         else
-            astConstVisit(visitor, node->varDecl.init);
+            generateInitializer(visitor, node->varDecl.init);
     }
     else {
         format(getState(ctx), " = {{}", NULL);
-- 
2.43.0


From 58f67b4d07910b5dc67dfb11a318a80748a7c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 034/110] fix: resolve every member of a chain that follows an
 expression

---
 src/cxy/lang/frontend/parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index c335aea..485847c 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -56,6 +56,7 @@ static AstNode *launchExpression(Parser *P);
 static AstNode *callExpression(Parser *P, AstNode *callee);
 
 static AstNode *parsePath(Parser *P);
+static AstNode *pathElement(Parser *P);
 
 static AstNode *variable(
     Parser *P, bool isPublic, bool isExport, bool isExpression, bool woInit);
@@ -655,8 +656,16 @@ static AstNode *member(Parser *P, const Token *begin, AstNode *operand)
     else if (flags & flgAnnotation) {
         member = parseIdentifier(P);
     }
-    else
-        member = parsePath(P);
+    else if (check(P, tokIdent) && checkPeek(P, 1, tokLNot))
+        member = parseIdentifier(P);
+    else {
+        // the members that follow are members of this one
+        Token tok = *current(P);
+        member = newAstNode(
+            P,
+            &tok,
+            &(AstNode){.tag = astPath, .path.elements = pathElement(P)});
+    }
 
     return newAstNode(
         P,
-- 
2.43.0


From 22d2ba281ec29e9cd4895130a8d4dfdd22eff5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 035/110] fix: do not inherit the members of a base's base
 twice

---
 src/cxy/lang/middle/sema/class.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 900018d..5b184c3 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -22,10 +22,7 @@ static void inheritClassMembers(TypingContext *ctx,
                                 AstNodeList *into,
                                 AstNode *base)
 {
-    if (base->classDecl.base) {
-        inheritClassMembers(ctx, into, resolvePath(base->classDecl.base));
-    }
-
+    // the base already has the members that it inherited
     AstNode *member = base->classDecl.members;
     for (; member; member = member->next) {
         if (isInheritable(member)) {
-- 
2.43.0


From e8018475d966d0eb4091a2969fec8621d6938abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 036/110] fix: an assignment to a local variable copies the
 value it is given and drops the old one after

---
 src/cxy/lang/middle/mem/manage.c | 46 +++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 6ed58e5..0287e20 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -481,6 +481,32 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/* The new value must be computed before the old one is dropped, it can be
+ * derived from the old one */
+static void computeBeforeDrop(MemContext *ctx, AstNode *node, const Type *type)
+{
+    AstNode *value = node->assignExpr.rhs;
+    if (isLiteralExpr(value) || !nodeIs(node->parentScope, ExprStmt))
+        return;
+
+    AstNode *variable = makeVarDecl(ctx->pool,
+                                    &value->loc,
+                                    flgTemporary,
+                                    makeAnonymousVariable(ctx->strings, "_v"),
+                                    NULL,
+                                    value,
+                                    NULL,
+                                    type);
+    astModifierAdd(&ctx->blockModifier, variable);
+    node->assignExpr.rhs = makeResolvedIdentifier(ctx->pool,
+                                                  &value->loc,
+                                                  variable->_name,
+                                                  0,
+                                                  variable,
+                                                  NULL,
+                                                  type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -491,7 +517,12 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
+        if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs) &&
+            nodeNeedsMemMgmt(lhs))
+            node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
+
         if (vtNeedsMemMgmt(ctx, vt)) {
+            computeBeforeDrop(ctx, node, lhs->type);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
@@ -506,19 +537,22 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
     }
 
     lhs = node->assignExpr.lhs;
-    if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
-        astModifierAdd(&ctx->blockModifier,
-                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
+    bool drop = isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs);
+    if (drop)
         astVisit(visitor, node->assignExpr.rhs);
-    }
-    else {
+    else
         astVisitFallbackVisitAll(visitor, node);
-    }
 
     AstNode *rhs = node->assignExpr.rhs;
     if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
         node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
     }
+
+    if (drop) {
+        computeBeforeDrop(ctx, node, lhs->type);
+        astModifierAdd(&ctx->blockModifier,
+                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
+    }
 }
 
 static void visitCallExpr(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From 09c6a62c574ad021fcbc87786ccddc7de98056c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 037/110] fix: report a generic parameter that cannot be
 inferred from the arguments

---
 src/cxy/lang/middle/sema/generics.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index f95f3f6..fde497b 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -168,6 +168,13 @@ static bool inferGenericFunctionTypes(AstVisitor *visitor,
             break;
         }
 
+        if (param->genericParam.inferIndex == 0 ||
+            param->genericParam.inferIndex > argsCount) {
+            // there is no argument that the parameter can be inferred from
+            status = false;
+            break;
+        }
+
         if (hasFlag(argTypes[param->genericParam.inferIndex - 1], Closure)) {
             paramTypes[index] = closureArgToClosureParamType(
                 ctx, &param->loc, argTypes[param->genericParam.inferIndex - 1]);
@@ -190,7 +197,7 @@ static bool inferGenericFunctionTypes(AstVisitor *visitor,
     }
 
     free(argTypes);
-    return true;
+    return status;
 }
 
 static bool transformVariadicFunctionCallArgs(AstVisitor *visitor,
-- 
2.43.0


From e19360de0d2db65410b66555875f2329367c6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 038/110] fix: a variadic generic called with a value of type
 This is the instance for that type

---
 src/cxy/lang/middle/sema/generics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index fde497b..022acaf 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -162,7 +162,7 @@ static bool inferGenericFunctionTypes(AstVisitor *visitor,
                     implementTupleTypeCopyAndDestructor(visitor, arg);
                 }
                 else
-                    paramTypes[index++] = arg->type;
+                    paramTypes[index++] = maybeUnThisType(arg->type);
                 arg = arg->next;
             }
             break;
-- 
2.43.0


From baaf42288e069137559195af73a2327725e294cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 039/110] fix: delete of a local object drops it

---
 src/cxy/lang/middle/mem/manage.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 0287e20..f910077 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -460,10 +460,7 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
             return;
         case opDelete:
             vt->state = vtsDropped;
-            if (nodeNeedsMemMgmt(node)) {
-                transformToDropExpr(ctx, node, operand);
-            }
-            return;
+            break;
         default:
             break;
         }
-- 
2.43.0


From e82885dd3791e5ce6eec7c1a4f019ca5cf4a1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 040/110] fix: drop the objects that calls return when only a
 member of them is used

---
 src/cxy/lang/middle/simplify/simplify.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 51f7a1c..1704009 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -65,6 +65,14 @@ static bool nodeNeedsTemporaryVar(const AstNode *node)
     return true;
 }
 
+/* A variable that holds a value nothing else owns must not be a temporary, so
+ * that the value is dropped when the variable goes out of scope */
+static u64 ownedValueFlags(const AstNode *node)
+{
+    const Type *type = resolveUnThisUnwrapType(node->type);
+    return isClassType(type) || isDestructible(type) ? flgNone : flgTemporary;
+}
+
 static bool isVirtualDispatch(const AstNode *target, const AstNode *member)
 {
     const Type *type = stripReference(target->type);
@@ -1143,7 +1151,7 @@ static void visitMemberExpr(AstVisitor *visitor, AstNode *node)
     if (nodeNeedsTemporaryVar(target) && !nodeIs(target, TypeRef)) {
         AstNode *var = makeVarDecl(ctx->pool,
                                    &target->loc,
-                                   flgTemporary,
+                                   ownedValueFlags(target),
                                    makeAnonymousVariable(ctx->strings, "_m"),
                                    NULL,
                                    target,
@@ -1168,7 +1176,7 @@ static void visitReferenceOfExpr(AstVisitor *visitor, AstNode *node)
     if (nodeNeedsTemporaryVar(operand)) {
         AstNode *var = makeVarDecl(ctx->pool,
                                    &operand->loc,
-                                   flgTemporary,
+                                   ownedValueFlags(operand),
                                    makeAnonymousVariable(ctx->strings, "_r"),
                                    NULL,
                                    operand,
-- 
2.43.0


From 823936e42f14ec58af7e7d71ac750134ea118adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 041/110] fix: drop the object that a call statement returns

---
 src/cxy/lang/middle/mem/manage.c | 35 ++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index f910077..d5e100b 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -630,6 +630,40 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
         node->unionValue.value = makeCopyExpr(ctx, value);
 }
 
+static void visitExprStmt(AstVisitor *visitor, AstNode *node)
+{
+    MemContext *ctx = getAstVisitorContext(visitor);
+    AstNode *expr = node->exprStmt.expr;
+    astVisit(visitor, expr);
+    if (!nodeIs(expr, CallExpr) || isReferenceType(expr->type) ||
+        !nodeNeedsMemMgmt(expr))
+        return;
+
+    // The value that the call returns is not used, drop it
+    AstNode *variable = makeVarDecl(ctx->pool,
+                                    &expr->loc,
+                                    flgTemporary,
+                                    makeAnonymousVariable(ctx->strings, "_v"),
+                                    NULL,
+                                    expr,
+                                    NULL,
+                                    expr->type);
+    astModifierAdd(&ctx->blockModifier, variable);
+    node->exprStmt.expr = makeBackendCallExpr(
+        ctx->pool,
+        &expr->loc,
+        flgNone,
+        bfiDrop,
+        makeResolvedIdentifier(ctx->pool,
+                               &expr->loc,
+                               variable->_name,
+                               0,
+                               variable,
+                               NULL,
+                               expr->type),
+        expr->type);
+}
+
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -883,6 +917,7 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
     // clang-format off
     AstVisitor visitor = makeAstVisitor(&context, {
         [astBlockStmt] = visitBlockStmt,
+        [astExprStmt] = visitExprStmt,
         [astReturnStmt] = visitReturnStmt,
         [astContinueStmt] = visitContinueStmt,
         [astBreakStmt] = visitBreakStmt,
-- 
2.43.0


From 9a60b5102b3b8edb7dcefebeb68850a7f5da2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 042/110] fix: a tuple of This and a tuple of the class itself
 are one type

---
 src/cxy/lang/middle/sema/tuple.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/tuple.c b/src/cxy/lang/middle/sema/tuple.c
index b9d9494..02f5d4d 100644
--- a/src/cxy/lang/middle/sema/tuple.c
+++ b/src/cxy/lang/middle/sema/tuple.c
@@ -91,7 +91,7 @@ void checkTupleExpr(AstVisitor *visitor, AstNode *node)
     const Type **elements_ = mallocOrDie(sizeof(Type *) * node->tupleExpr.len);
     element = node->tupleExpr.elements;
     for (u64 i = 0; element; element = element->next, i++) {
-        elements_[i] = element->type;
+        elements_[i] = maybeUnThisType(element->type);
     }
 
     node->type = makeTupleType(
@@ -113,7 +113,7 @@ void checkTupleType(AstVisitor *visitor, AstNode *node)
     const Type **elems_ = mallocOrDie(sizeof(Type *) * count);
 
     for (u64 i = 0; elem; elem = elem->next, i++) {
-        elems_[i] = checkType(visitor, elem);
+        elems_[i] = maybeUnThisType(checkType(visitor, elem));
         const Type *type = unwrapType(elems_[i], NULL);
         if (typeIs(elems_[i], Error)) {
             node->type = ERROR_TYPE(ctx);
-- 
2.43.0


From f02a0966204342efd7a820aba1c844aa1cfd8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 043/110] fix: a parameter that is returned on some paths only
 is dropped on the others

---
 src/cxy/lang/middle/mem/manage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index d5e100b..039011e 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -201,7 +201,8 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // a parameter always comes with a value
+    bool drop = !nodeIs(var, VarDecl) || var->varDecl.init != NULL;
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
-- 
2.43.0


From 66f1e10bde7770c36231f83450990d186f9dc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 044/110] fix: leaving a loop does not drop variables that were
 moved or deleted before it

---
 src/cxy/lang/middle/mem/manage.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 039011e..f7e8c0e 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -261,6 +261,11 @@ static AstNode *makeDropVariable(MemContext *ctx,
                                  bool updateInChildLoop)
 {
     AstNode *var = vt->variable;
+    // Moved or deleted, and dropped only because a previous iteration of the
+    // loop might have assigned it a new value
+    if ((vt->state == vtsMoved || vt->state == vtsDropped) &&
+        vt->dropFlags == NULL)
+        insertedDropFlags(ctx, vt);
     AstNode *drop = makeBackendCallExpr(
         ctx->pool,
         &var->loc,
-- 
2.43.0


From 1e4da40a73b7ab548f15cdceff19abeda9f43560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 045/110] fix: variables assigned, moved or deleted in some
 cases of a switch only are dropped on the right paths

---
 src/cxy/lang/middle/mem/manage.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index f7e8c0e..21c5f07 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -153,7 +153,9 @@ static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned)
+        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned ||
+                 varLhs->state == vtsMaybeAssigned ||
+                 varRhs->state == vtsMaybeAssigned)
             state = vtsMaybeAssigned;
         else
             state = vtsUninitialized;
@@ -375,6 +377,8 @@ static void updateVariableStates(MemContext *ctx, const DynArray *vars)
         VariableTrace *vt = findVariableTrace(ctx, var->variable);
         csAssert0(vt);
         vt->state = var->state;
+        if (vtNeedsDropFlags(vt))
+            insertedDropFlags(ctx, vt);
     }
 }
 
-- 
2.43.0


From f259551773eecb5a3530afbfd509a54f8d97093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 046/110] fix: well-formed messages for compile-time index
 errors and Cxyfile parse errors

---
 src/cxy/driver/cxyfile.c          | 2 +-
 src/cxy/lang/middle/eval/index.c  | 4 ++--
 src/cxy/lang/middle/eval/member.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/driver/cxyfile.c b/src/cxy/driver/cxyfile.c
index adc7cc3..95c06fd 100644
--- a/src/cxy/driver/cxyfile.c
+++ b/src/cxy/driver/cxyfile.c
@@ -201,7 +201,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
         logError(cc->L,
                  NULL,
                  "parsing '{s}' failed: {s}",
-                 (FormatArg[]){{.s = except}});
+                 (FormatArg[]){{.s = path}, {.s = except}});
         return false;
     }
 
diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 5880db7..160844e 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -14,7 +14,7 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
     if (atIndex == NULL) {
         logError(ctx->L,
                  &node->loc,
-                 "index {0} is out of bounds, target has {u64} elements",
+                 "index {i64} is out of bounds, target has {u64} elements",
                  (FormatArg[]){{.i64 = index}, {.u64 = countAstNodes(list)}});
         node->tag = astError;
         return false;
@@ -83,7 +83,7 @@ static bool evalIntegerIndexExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "index out of bounds for comp-time index "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 401fdb1..46ebacb 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -27,7 +27,7 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "member out of bounds for comp-time integer member "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
-- 
2.43.0


From cdb7ae5cba08cb6c462ecae1bcfa5f0acdf677e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 047/110] fix: literal braces in compiler messages are escaped

---
 src/cxy/lang/frontend/parser.c | 2 +-
 src/cxy/lang/frontend/types.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 485847c..7df8884 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1694,7 +1694,7 @@ static AstNode *substitute(Parser *P, bool allowStructs)
     if (match(P, tokHash, tokSubstitutue)) {
         parserError(P,
                     &previous(P)->fileLoc,
-                    "compile time markers `#` or `#{` cannot be used in "
+                    "compile time markers `#` or `#{{` cannot be used in "
                     "current context",
                     NULL);
     }
diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index ee82b27..f4099d2 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -924,7 +924,7 @@ void printType_(FormatState *state, const Type *type, bool keyword)
         format(state, "]", NULL);
         break;
     case typMap:
-        format(state, "{[", NULL);
+        format(state, "{{[", NULL);
         printType_(state, type->map.key, keyword);
         format(state, "]: ", NULL);
         printType_(state, type->map.value, keyword);
-- 
2.43.0


From a5c3c6e5d6b1cf0f35630745b92963657fb54b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 048/110] fix: compile time macros and members refuse bad
 arguments instead of aborting

---
 src/cxy/lang/middle/eval/comptime.c |  5 +--
 src/cxy/lang/middle/eval/macro.c    | 49 +++++++++++++++++------------
 src/cxy/lang/middle/eval/path.c     |  7 ++++-
 3 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/cxy/lang/middle/eval/comptime.c b/src/cxy/lang/middle/eval/comptime.c
index bfb2934..eff9a68 100644
--- a/src/cxy/lang/middle/eval/comptime.c
+++ b/src/cxy/lang/middle/eval/comptime.c
@@ -212,7 +212,7 @@ static AstNode *getMembersCount(EvalContext *ctx,
                                 AstNode *node,
                                 attr(unused) AstNode *args)
 {
-    if (node == NULL)
+    if (node == NULL || node->type == NULL)
         return NULL;
 
     const Type *type = resolveType(stripAll(node->type));
@@ -264,7 +264,8 @@ static AstNode *getElementType(EvalContext *ctx,
                                AstNode *node,
                                attr(unused) AstNode *args)
 {
-    const Type *type = actualType(node->type ?: evalType(ctx, node));
+    const Type *type =
+        resolveType(actualType(node->type ?: evalType(ctx, node)));
     if (!isArrayType(type))
         return NULL;
 
diff --git a/src/cxy/lang/middle/eval/macro.c b/src/cxy/lang/middle/eval/macro.c
index 7e7e0b9..2ebd3cd 100644
--- a/src/cxy/lang/middle/eval/macro.c
+++ b/src/cxy/lang/middle/eval/macro.c
@@ -63,7 +63,7 @@ static inline bool validateMacroArgumentLimit(
     return true;
 }
 
-static void staticLog(AstVisitor *visitor,
+static bool staticLog(AstVisitor *visitor,
                       DiagnosticKind lvl,
                       attr(unused) const AstNode *node,
                       attr(unused) AstNode *args)
@@ -71,11 +71,12 @@ static void staticLog(AstVisitor *visitor,
     EvalContext *ctx = getAstVisitorContext(visitor);
     if (args == NULL || !nodeIs(args, StringLit)) {
         logError(ctx->L, &node->loc, "missing a message to log!", NULL);
-        unreachable("ABORT COMPILE");
+        return false;
     }
 
     FormatArg *params =
         mallocOrDie(sizeof(FormatArg) * countAstNodes(args->next));
+    bool status = false;
     int i = 0;
     for (AstNode *arg = args->next; arg; i++) {
         AstNode *it = arg;
@@ -115,12 +116,18 @@ static void staticLog(AstVisitor *visitor,
         default:
             if (isTypeExpr(it))
                 params[i] = (FormatArg){.t = it->type ?: evalType(ctx, it)};
-            else
-                unreachable("ABORT COMPILE");
+            else {
+                logError(ctx->L,
+                         &loc,
+                         "argument cannot be logged at compile time",
+                         NULL);
+                goto staticLogDone;
+            }
             break;
         }
     }
 
+    status = true;
     switch (lvl) {
     case dkNote:
         logNote(ctx->L, &node->loc, args->stringLiteral.value, params);
@@ -134,6 +141,7 @@ static void staticLog(AstVisitor *visitor,
     }
 staticLogDone:
     free(params);
+    return status;
 }
 
 static AstNode *makeAstLogErrorNode(AstVisitor *visitor,
@@ -148,7 +156,8 @@ static AstNode *makeAstLogWarningNode(AstVisitor *visitor,
                                       attr(unused) const AstNode *node,
                                       attr(unused) AstNode *args)
 {
-    staticLog(visitor, dkWarning, node, args);
+    if (!staticLog(visitor, dkWarning, node, args))
+        return NULL;
     args->tag = astNoop;
     return args;
 }
@@ -157,7 +166,8 @@ static AstNode *makeAstLogNoteNode(AstVisitor *visitor,
                                    attr(unused) const AstNode *node,
                                    attr(unused) AstNode *args)
 {
-    staticLog(visitor, dkNote, node, args);
+    if (!staticLog(visitor, dkNote, node, args))
+        return NULL;
     args->tag = astNoop;
     return args;
 }
@@ -570,8 +580,9 @@ static AstNode *actionAstListAdd(AstVisitor *visitor,
     if (!validateMacroArgumentCount(ctx, &node->loc, args, 2))
         return NULL;
     AstNode *list = args, *value = args->next;
-    AstNode *resolved = resolvePath(list);
-    if (!nodeIs(resolved, VarDecl) && !nodeIs(resolved->varDecl.init, List)) {
+    AstNode *resolved = nodeIs(list, Path) ? resolvePath(list) : NULL;
+    if (!nodeIs(resolved, VarDecl) ||
+        !nodeIs(resolved->varDecl.init, List)) {
         logError(ctx->L,
                  &list->loc,
                  "invalid argument passed to `make_struct_expr!` expecting a "
@@ -598,7 +609,7 @@ static AstNode *makeAstPasteNode(AstVisitor *visitor,
     if (!validateMacroArgumentCount(ctx, &node->loc, args, 1))
         return NULL;
     AstNode *list = args;
-    AstNode *resolved = resolvePath(list);
+    AstNode *resolved = nodeIs(list, Path) ? resolvePath(list) : NULL;
     if (!nodeIs(resolved, VarDecl) || !hasFlag(resolved, Comptime)) {
         logError(ctx->L,
                  &list->loc,
@@ -749,8 +760,9 @@ static AstNode *makeAstStructExprNode(AstVisitor *visitor,
     left->next = NULL;
 
     loc = value->loc;
-    AstNode *resolved = resolvePath(value);
-    if (!nodeIs(resolved, VarDecl) && !nodeIs(resolved->varDecl.init, List)) {
+    AstNode *resolved = nodeIs(value, Path) ? resolvePath(value) : NULL;
+    if (!nodeIs(resolved, VarDecl) ||
+        !nodeIs(resolved->varDecl.init, List)) {
         logError(ctx->L,
                  &loc,
                  "invalid argument passed to `make_struct_expr!` expecting a "
@@ -778,8 +790,9 @@ static AstNode *makeAstTupleExprNode(AstVisitor *visitor,
         return NULL;
 
     AstNode *list = args;
-    AstNode *resolved = resolvePath(list);
-    if (!nodeIs(resolved, VarDecl) && !nodeIs(resolved->varDecl.init, List)) {
+    AstNode *resolved = nodeIs(list, Path) ? resolvePath(list) : NULL;
+    if (!nodeIs(resolved, VarDecl) ||
+        !nodeIs(resolved->varDecl.init, List)) {
         logError(ctx->L,
                  &list->loc,
                  "invalid argument passed to `make_tuple_expr!` expecting a "
@@ -1277,10 +1290,8 @@ static AstNode *makeCstrNode(AstVisitor *visitor,
     if (!validateMacroArgumentCount(ctx, &node->loc, args, 1))
         return NULL;
 
-    const Type *type = args->type;
-    csAssert0(type);
-
-    if (!typeIs(type, String)) {
+    const Type *type = args->type ?: evalType(ctx, args);
+    if (type == NULL || !typeIs(type, String)) {
         logError(ctx->L,
                  &args->loc,
                  "unexpected expression type passed `cstr!` macro, expecting "
@@ -1488,9 +1499,7 @@ static AstNode *makeBaseOfNode(AstVisitor *visitor,
         return NULL;
 
     const Type *type = args->type;
-    csAssert0(type);
-
-    if (!typeIs(type, Info) && !hasFlag(args, Typeinfo)) {
+    if (type == NULL || (!typeIs(type, Info) && !hasFlag(args, Typeinfo))) {
         logError(ctx->L,
                  &node->loc,
                  "invalid `typeof!` macro argument, expecting a type info "
diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index 058861e..c5a5fe2 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -134,7 +134,12 @@ void evalPathEpilogue(AstVisitor *visitor,
             node->type = type;
             return;
         default:
-            csAssert0(false);
+            logError(ctx->L,
+                     &node->loc,
+                     "type '{t}' cannot be used in a compile time expression",
+                     (FormatArg[]){{.t = type}});
+            node->tag = astError;
+            return;
         }
     }
     else if (nodeIs(symbol, FuncParamDecl)) {
-- 
2.43.0


From a92782a2ab5cc59dd9a2a018ca3841e06f3216e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 049/110] fix: catch on an expression that does not throw is
 refused

---
 src/cxy/lang/middle/sema/binary.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..4eeca2d 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -171,6 +171,15 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
     bool isNullEquality = opKind == optEquality && nodeIs(rhs, NullLit);
 
+    if (opKind == optCatch && !typeIs(left, Error) && !isResultType(left)) {
+        logError(ctx->L,
+                 &lhs->loc,
+                 "catch used with a statement that does not throw",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     if ((opKind == optComparison || opKind == optEquality) &&
         typeIs(unwrapType(left, NULL), String) && !isNullEquality) {
         lhs = node->binaryExpr.lhs;
-- 
2.43.0


From 3701a2f28450742a41b6908de7d20a12fab62c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 050/110] fix: closures behind references and valueless
 expressions as generic arguments

---
 src/cxy/lang/middle/sema/generics.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 022acaf..1759a1a 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -59,7 +59,8 @@ static const Type *closureArgToClosureParamType(TypingContext *ctx,
                                                 const FileLoc *loc,
                                                 const Type *argType)
 {
-    const Type *opCall = findStructMemberType(argType, S_CallOverload);
+    const Type *opCall =
+        findStructMemberType(stripAll(argType), S_CallOverload);
     const Type **funcTypeParams =
         mallocOrDie(sizeof(Type *) * (opCall->func.paramsCount + 1));
     funcTypeParams[0] = makeVoidPointerType(ctx->types, flgNone);
@@ -208,6 +209,13 @@ static bool transformVariadicFunctionCallArgs(AstVisitor *visitor,
     AstNode *args = ctx->currentCall->callExpr.args, *arg = args;
     while (arg) {
         checkType(visitor, arg);
+        if (arg->type == NULL) {
+            logError(ctx->L,
+                     &arg->loc,
+                     "expression passed as an argument does not have a value",
+                     NULL);
+            return false;
+        }
         if (typeIs(arg->type, Error))
             return false;
         arg = arg->next;
-- 
2.43.0


From 50a8420a029400bdf8286bf7f4712d66472162e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 051/110] fix: dereferencing an array yields its first element

---
 src/cxy/lang/middle/sema/unary.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index d6365e4..517ce42 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -162,7 +162,9 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
         }
         else if (isPointerType(operand)) {
             node->tag = astIndexExpr;
-            node->type = operand->pointer.pointed;
+            operand = typeIs(operand, Array) ? operand->array.elementType
+                                             : operand->pointer.pointed;
+            node->type = operand;
             node->indexExpr.target = node->unaryExpr.operand;
             node->indexExpr.index =
                 makeUnsignedIntegerLiteral(ctx->pool,
@@ -170,7 +172,6 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
                                            0,
                                            NULL,
                                            getPrimitiveType(ctx->types, prtI8));
-            operand = operand->pointer.pointed;
         }
         else {
             logError(ctx->L,
-- 
2.43.0


From 070645a86065776a668482e9c0d414796a743b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 052/110] fix: enums as conditions and casts of unions to
 pointers

---
 src/cxy/lang/backend/c/generate.c       | 3 ++-
 src/cxy/lang/middle/simplify/simplify.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 907dc77..074c12e 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -988,7 +988,8 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     }
 
     if (hasFlag(node, UnionCast) || typeIs(from, Union)) {
-        if (isReferenceType(to) && !isClassType(stripReference(to)))
+        if (typeIs(to, Pointer) ||
+            (isReferenceType(to) && !isClassType(stripReference(to))))
             format(getState(ctx), "&", NULL);
         astConstVisit(visitor, expr);
         if (isPointerOrReferenceType(from))
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 1704009..38f93ea 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -431,7 +431,7 @@ static void simplifyCastExpression(SimplifyContext *ctx,
 static void simplifyCondition(SimplifyContext *ctx, AstNode *cond)
 {
     AstNode *rhs = NULL, *lhs = deepCloneAstNode(ctx->pool, cond);
-    if (isIntegerType(cond->type)) {
+    if (isIntegerType(cond->type) || typeIs(cond->type, Enum)) {
         rhs = makeIntegerLiteral(ctx->pool, &cond->loc, 0, NULL, cond->type);
     }
     else if (isFloatType(cond->type)) {
@@ -657,7 +657,9 @@ static void visitCastExpr(AstVisitor *visitor, AstNode *node)
     else if (isUnionType(expr->type) && !hasFlag(node, BitUnionCast)) {
         AstNode *builtinAssert = findBuiltinDecl(S___cxy_assert);
         csAssert0(builtinAssert);
-        u32 idx = findUnionTypeIndex(expr->type, stripReference(to->type));
+        const Type *type = stripReference(to->type);
+        u32 idx = findUnionTypeIndex(
+            expr->type, typeIs(type, Pointer) ? type->pointer.pointed : type);
         csAssert0(idx != UINT32_MAX);
         AstNodeList args = {};
         insertAstNode(
-- 
2.43.0


From 7f352533f0bc8cf510b08c2d9d862f03f0a7f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 053/110] fix: for loops over arrays and strings: continue and
 break keep outer variables, strings are iterated, empty bodies step once

---
 src/cxy/lang/middle/simplify/simplify.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 38f93ea..4ce2116 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -287,6 +287,26 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                                    getPrimitiveType(ctx->types, prtU64)),
         NULL,
         getPrimitiveType(ctx->types, prtBool));
+    if (typeIs(rangeType, String)) {
+        // the length is not known, a string ends at its terminator
+        condition->binaryExpr.op = opNe;
+        condition->binaryExpr.lhs =
+            makeIndexExpr(ctx->pool,
+                          &range->loc,
+                          elem->flags,
+                          makeResolvedIdentifier(ctx->pool,
+                                                 &range->loc,
+                                                 range->varDecl.name,
+                                                 0,
+                                                 range,
+                                                 NULL,
+                                                 range->type),
+                          condition->binaryExpr.lhs,
+                          NULL,
+                          elem);
+        condition->binaryExpr.rhs =
+            makeCharLiteral(ctx->pool, &range->loc, 0, NULL, elem);
+    }
 
     AstNode *assign = makeExprStmt(
         ctx->pool,
@@ -348,7 +368,6 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
             index->type),
         NULL,
         index->type);
-    assign->next = advance;
 
     if (nodeIs(body, BlockStmt)) {
         if (body->blockStmt.stmts) {
@@ -370,6 +389,7 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                                 body,
                                 NULL,
                                 deepCloneAstNode(ctx->pool, advance));
+    body->parentScope = range->next;
     node->tag = astBlockStmt;
     node->blockStmt.stmts = var;
     node->blockStmt.last = range->next;
-- 
2.43.0


From 440796ff9a48913d6ade96b26a16b627f4959460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 054/110] fix: Hmap no longer stores a key twice, and can be
 filled again after being cleared

---
 src/cxy/core/hmap.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..a65a361 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -135,7 +135,7 @@ static HmapStatus hmapPutInternal(Hmap *self, void *data)
         }
 
         u64 p = hmapProbe(self, i, h);
-        if (j >= p) {
+        if (j > p) {
             memcpy((char *)self->sspace1,
                    (char *)self->data + i * hmapStep(self),
                    hmapStep(self));
@@ -175,12 +175,11 @@ void hmapInitWithCapacity(Hmap *self,
 
 void hmapDestroy(Hmap *self)
 {
-    if (self->data != NULL) {
-        free(self->data);
-        free(self->sspace0);
-        free(self->sspace1);
-        self->data = NULL;
-    }
+    free(self->data);
+    free(self->sspace0);
+    free(self->sspace1);
+    self->data = self->sspace0 = self->sspace1 = NULL;
+    self->nslots = self->nitems = 0;
 }
 
 void hmapClear(Hmap *self)
@@ -239,6 +238,8 @@ void hmapRemove(Hmap *self, void *data)
 
 HmapStatus hmapPut(Hmap *self, void *data)
 {
+    if (self->nslots == 0)
+        hmapRehash(self, hmapIdealSize(0));
     HmapStatus status = hmapPutInternal(self, data);
     if (status.s)
         hmapResizeMore(self);
@@ -247,16 +248,16 @@ HmapStatus hmapPut(Hmap *self, void *data)
 
 void *hmapGet(Hmap *self, void *data)
 {
+    if (self->nslots == 0) {
+        return NULL;
+    }
+
     if (data >= self->data &&
         (char *)data < (char *)self->data + self->nslots * hmapStep(self)) {
         return hmapItem(self,
                         ((char *)data - (char *)self->data) / hmapStep(self));
     }
 
-    if (self->nslots == 0) {
-        return NULL;
-    }
-
     u64 i = self->hash(data) % self->nslots;
     u64 j = 0;
 
-- 
2.43.0


From e139764c2d92911cfa2398cd17707e69a597ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 055/110] fix: strings whose hashes collide are kept apart in
 the string pool

---
 src/cxy/core/strpool.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..8ae6654 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -25,14 +25,15 @@ typedef struct {
 
 static bool compareStrFind(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const char *str = *(char **)left;
+    SizedString *sized = (SizedString *)right;
+    return !strncmp(str, sized->s, sized->len) && str[sized->len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    // only strings that were not found are inserted
+    return *(char **)left == *(char **)right;
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
@@ -95,10 +96,8 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
     u64 len;
     if (prefix == NULL) {
         prefix = "cxy_anonymous_var";
-        len = 19;
     }
-    else
-        len = strlen(prefix);
+    len = strlen(prefix);
 
     csAssert0(len < +MAX_ANONYMOUS_PREFIX_SIZE);
     memcpy(variable, prefix, len);
-- 
2.43.0


From 1f6628443d61ffd22e9ebbb188baf7c5717d2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:10 +0000
Subject: [PATCH 056/110] fix: a string builder that starts with an empty
 string grows, deleting one frees it

---
 src/cxy/core/sb.c | 2 +-
 src/cxy/core/sb.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/core/sb.c b/src/cxy/core/sb.c
index 90a1558..6db675b 100644
--- a/src/cxy/core/sb.c
+++ b/src/cxy/core/sb.c
@@ -53,7 +53,7 @@ void stringBuilderGrow(StringBuilder *sb, u64 size)
     }
     else if (size > (sb->capacity - sb->size)) {
         while (sb->capacity < sb->size + size) {
-            sb->capacity <<= 1;
+            sb->capacity = sb->capacity ? sb->capacity << 1 : size;
         }
         sb->data = reallocOrDie(sb->data, sb->capacity + 1);
     }
diff --git a/src/cxy/core/sb.h b/src/cxy/core/sb.h
index f64c089..8034690 100644
--- a/src/cxy/core/sb.h
+++ b/src/cxy/core/sb.h
@@ -44,7 +44,7 @@ void stringBuilderDeinit(StringBuilder *sb);
 static attr(always_inline) void stringBuilderDelete(StringBuilder *sb)
 {
     if (sb) {
-        stringBuilderInit(sb);
+        stringBuilderDeinit(sb);
         free(sb);
     }
 }
-- 
2.43.0


From f37e420e929a5938c01572435cf4cac0b38dc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 057/110] fix: names of any length can be given suffixes and
 prefixes

---
 src/cxy/core/strpool.c | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 8ae6654..a917e24 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -91,42 +91,30 @@ const char *makeStringSized(StrPool *pool, const char *str, u64 len)
 
 const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
 {
-    char variable[MAX_ANONYMOUS_PREFIX_SIZE + 32];
     static u64 postfix = 0;
-    u64 len;
-    if (prefix == NULL) {
+    if (prefix == NULL)
         prefix = "cxy_anonymous_var";
-    }
-    len = strlen(prefix);
 
-    csAssert0(len < +MAX_ANONYMOUS_PREFIX_SIZE);
-    memcpy(variable, prefix, len);
-    sprintf(&variable[len], "%" PRIu64, postfix++);
-
-    return makeString(pool, variable);
+    return makeStringf(pool, "%s%" PRIu64, prefix, postfix++);
 }
 
 const char *makeStringConcat_(StrPool *pool, const char *s1, ...)
 {
-    char variable[MAX_ANONYMOUS_PREFIX_SIZE + 32];
-    size_t len = strlen(s1);
-    csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
-    memcpy(variable, s1, len);
+    size_t size = 0;
+    char *buf = NULL;
+    FILE *fp = open_memstream(&buf, &size);
+    csAssert0(fp);
 
     va_list ap;
     va_start(ap, s1);
-    const char *s = va_arg(ap, const char *);
-    while (s) {
-        size_t sz = strlen(s);
-        csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
-        memcpy(&variable[len], s, sz);
-        s = va_arg(ap, const char *);
-        len += sz;
-    }
-    variable[len] = '\0';
+    for (const char *s = s1; s; s = va_arg(ap, const char *))
+        fputs(s, fp);
     va_end(ap);
+    fclose(fp);
 
-    return makeString(pool, variable);
+    const char *str = makeStringSized(pool, buf, size);
+    free(buf);
+    return str;
 }
 
 cstring joinPath_(StrPool *pool, const char *p1, ...)
@@ -140,7 +128,7 @@ cstring joinPath_(StrPool *pool, const char *p1, ...)
         size_t sz = strlen(s);
         const char *next = va_arg(ap, const char *);
         if (sz > 0) {
-            csAssert0(sz + len < PATH_MAX);
+            csAssert0(sz + len + 1 < PATH_MAX);
             memcpy(&path[len], s, sz);
             len += sz;
             if (next && s[sz - 1] != '/')
-- 
2.43.0


From 8680b1b056e168543727e0c6bceb988a36373ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 058/110] fix: expressions of type void can be returned from
 functions with managed variables, closures in the condition of if (var ..)

---
 src/cxy/lang/middle/mem/manage.c  | 13 ++++++++++++-
 src/cxy/lang/middle/shake/shake.c |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 21c5f07..7ffca50 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -693,7 +693,18 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
             expr = makeCopyExpr(ctx, expr);
         }
 
-        if (!isLiteralExpr(expr)) {
+        if (ctx->returnVariable == NULL) {
+            // the value of a void expression, there is nothing to return
+            astModifierAdd(&ctx->blockModifier,
+                           makeExprStmt(ctx->pool,
+                                        &node->loc,
+                                        flgNone,
+                                        expr,
+                                        NULL,
+                                        expr->type));
+            node->returnStmt.expr = NULL;
+        }
+        else if (!isLiteralExpr(expr)) {
             AstNode *var = ctx->returnVariable;
             AstNode *assign =
                 makeExprStmt(ctx->pool,
diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index 5816851..5b61ebd 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -453,6 +453,7 @@ static void shakeIfStmt(AstVisitor *visitor, AstNode *node)
         cstring name = var->varDecl.names->ident.value;
         var->varDecl.name = makeAnonymousVariable(ctx->strings, "_hd");
         var->varDecl.names->ident.value = var->varDecl.name;
+        astVisit(visitor, var->varDecl.init);
         astModifierAdd(&ctx->block, var);
 
         cond->tag = astPath;
-- 
2.43.0


From 67d7577964148c73f88cca7aa1651de6a0f71fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 059/110] fix: HashMap.map ends, a Vector of capacity 0 or 1
 grows

---
 src/cxy/stdlib/hash.cxy   | 2 ++
 src/cxy/stdlib/vector.cxy | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f36521f..68bcdec 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -318,6 +318,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
+                i++
             }
             return output
         }
@@ -373,6 +374,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
+                i++
             }
             return output
         }
diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 43f8daf..580730b 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -17,7 +17,7 @@ pub class Vector[T] {
 
     - func grow() {
         if (_size >= _capacity) {
-            _capacity += (_capacity / 2)
+            _capacity += (_capacity / 2) + 1
             _data = <^T> realloc(_data !: ^void, elemSize() * _capacity)
            #if (T.isDestructible) {
                memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
-- 
2.43.0


From 5387a5471fdc1c873a790bf290a2a9b240c3984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 060/110] fix: String.rIndexOf, trimLeft, resize and self
 append, hash of all bytes, order of buffered output

---
 src/cxy/runtime/builtins.cxy | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 2690ae3..b107839 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -321,7 +321,7 @@ pub func hash_fnv1a_bytes(h: HashCode,
                          size: u64)
 {
     const p = ptr !: ^const u8;
-    for (const i: 0..size-1)
+    for (const i: 0..size)
         h = hash_fnv1a_uint8(h, p.[i]);
     return h
 }
@@ -494,11 +494,11 @@ pub struct __string {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (s.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
@@ -813,7 +813,7 @@ pub class String : OutputStream {
     }
 
     func resize(newSize: u64) {
-        assert!(_capacity <= newSize)
+        assert!(newSize <= _capacity)
         _size = newSize
         _data.[_size] = '\0'`char
     }
@@ -829,9 +829,15 @@ pub class String : OutputStream {
 
     func append(str: ^const char, size: u64) : Optional[u64] {
         if (size) {
+            // the text can be a part of this string, which moves when it grows
+            const offset = (str !: u64) - (this._data !: u64);
+            const own = this._data != null && offset <= this._size;
             grow(size)
             var p = this._data + this._size;
-            memmove(p, str, size)
+            if (own)
+                memmove(p, ptroff!(this._data + offset), size)
+            else
+                memmove(p, str, size)
             this._size += size
             this._data.[this._size] = <char>'\0'
         }
@@ -846,6 +852,7 @@ pub class String : OutputStream {
             var p = ptroff!(this._data + i);
             memmove(_data, p, _size - i)
             _size = _size - i
+            _data.[_size] = '\0'`char
         }
     }
 
@@ -879,11 +886,11 @@ pub class String : OutputStream {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (_data.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
@@ -1015,7 +1022,7 @@ pub class BufferedOutputStream: OutputStream {
 
     func append(data: ^const void, size: u64): Optional[u64] {
         var room = _capacity - _size
-        if (size > room && _size > 0) {
+        if (size >= room && _size > 0) {
             sync()
             room = _capacity
         }
-- 
2.43.0


From e8cce80cd2445b4b8810bd52db3a31a9c85dded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 061/110] fix: HashMap probes wrap around, a Vector's unused
 slots hold nothing

---
 src/cxy/stdlib/hash.cxy   | 2 +-
 src/cxy/stdlib/vector.cxy | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index 68bcdec..eb6aebc 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -51,7 +51,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
     - const func probe(i: u64, h: u64) {
         var v = i - (h - 1)
-        if (v < 0)
+        if (i < h - 1)
             v = _capacity + v
         return v
     }
diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 580730b..4046ee6 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -59,6 +59,9 @@ pub class Vector[T] {
         var tmp = _data;
         _size--
         memmove(tmp, ptroff!(tmp + 1), elemSize() * _size)
+        #if (T.isDestructible) {
+            memset(ptroff!(tmp + _size), 0, elemSize())
+        }
         return item
     }
 
@@ -70,6 +73,10 @@ pub class Vector[T] {
             _size = newSize
         }
         _data = <^T> realloc(_data !: ^void, elemSize() * newSize)
+        #if (T.isDestructible) {
+            if (newSize > _capacity)
+                memset(ptroff!(_data + _capacity), 0, elemSize() * (newSize - _capacity))
+        }
        _capacity = newSize;
     }
 
-- 
2.43.0


From b92dbe020eb86c03ff4f42b7830ce87350464799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 062/110] fix: methods and inherited members inside closures,
 iteration over classes with a base

---
 src/cxy/lang/backend/c/generate.c  | 12 ++++++++++++
 src/cxy/lang/middle/bind/resolve.c | 15 +++++++++++++++
 src/cxy/lang/middle/sema/for.c     |  1 +
 3 files changed, 28 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 074c12e..95f787d 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1056,6 +1056,15 @@ static void visitMemberExpr(ConstAstVisitor *visitor, const AstNode *node)
         return;
     }
 
+    bool isSuper = nodeIs(member, Identifier) && member->ident.value == S_super;
+    if (isSuper) {
+        // captured by a closure, the object is a member of the closure
+        format(getState(ctx), "((", NULL);
+        generateTypeName(
+            ctx, getState(ctx), getTypeBase(stripReference(member->type)));
+        format(getState(ctx), ")", NULL);
+    }
+
     if (!isImportDeclReference(target)) {
         astConstVisit(visitor, target);
         if (isPointerType(target->type) || isClassType(target->type) ||
@@ -1075,6 +1084,9 @@ static void visitMemberExpr(ConstAstVisitor *visitor, const AstNode *node)
                    (FormatArg[]){{.u64 = member->intLiteral.uValue}});
         }
     }
+    else if (isSuper) {
+        format(getState(ctx), "{s})", (FormatArg[]){{.s = S_this}});
+    }
     else {
         astConstVisit(visitor, member);
     }
diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index daf2b49..0fe120c 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -223,6 +223,21 @@ void bindPath(AstVisitor *visitor, AstNode *node)
             return;
         }
 
+        AstNode *decl = underlyingDeclaration(resolved);
+        if (ctx->currentClosure && nodeIs(decl, FuncDecl) &&
+            decl->funcDecl.this_ && !hasFlag(decl, Static)) {
+            // methods need the object, which is captured through `this`
+            node->path.elements =
+                makeAstNode(ctx->pool,
+                            &base->loc,
+                            &(AstNode){.tag = astPathElem,
+                                       .next = base,
+                                       .pathElement = {.isKeyword = true,
+                                                       .name = S_this}});
+            astVisit(visitor, node);
+            return;
+        }
+
         // capture symbol if in closure
         base->pathElement.resolvesTo = resolved;
         resolved = captureSymbol(
diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index a8e511f..312daf0 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -17,6 +17,7 @@ static const Type *findCustomRange(TypingContext *ctx,
     if (rangeOp) {
         rangeOp = matchOverloadedFunction(
             ctx->L, rangeOp, (const Type *[]){}, 0, loc, flags & flgConst);
+        return rangeOp;
     }
     type = getTypeBase(type);
     if (type) {
-- 
2.43.0


From 59179bfacacba33bb76ddd638c6cc388508e3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 063/110] fix: array, pointer and reference members can be
 examined at compile time (printing structs with array fields)

---
 src/cxy/lang/middle/eval/path.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index c5a5fe2..8f5b4fe 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -115,7 +115,13 @@ void evalPathEpilogue(AstVisitor *visitor,
         case typPointer:
         case typArray:
         case typReference:
-            *node = *symbol;
+            if (isTypeExpr(symbol)) {
+                *node = *symbol;
+                break;
+            }
+            node->tag = astTypeRef;
+            node->flags = type->flags;
+            node->type = resolveType(type);
             break;
         case typInfo:
             type = symbol->type->info.target;
-- 
2.43.0


From b5ee27541d2c77050def3db53a231989ed8fcc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 064/110] fix: arrays can be initialized from other arrays
 (copies of structs with array fields and objects)

---
 src/cxy/lang/backend/c/generate.c | 41 ++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 95f787d..d76314c 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -872,11 +872,50 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+/* The elements of an array that is stored somewhere, `{a[0], a[1]}` */
+static void generateArrayElements(ConstAstVisitor *visitor,
+                                  const AstNode *node,
+                                  const Type *type,
+                                  const u64 *indices,
+                                  u64 depth)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (!typeIs(type, Array) || depth == 8) {
+        astConstVisit(visitor, node);
+        for (u64 i = 0; i < depth; i++)
+            format(getState(ctx), "[{u64}]", (FormatArg[]){{.u64 = indices[i]}});
+        return;
+    }
+
+    u64 next[8] = {};
+    memcpy(next, indices, depth * sizeof(u64));
+    format(getState(ctx), "{{", NULL);
+    for (u64 i = 0; i < type->array.len; i++) {
+        if (i)
+            format(getState(ctx), ", ", NULL);
+        next[depth] = i;
+        generateArrayElements(
+            visitor,
+            node,
+            resolveAndUnThisType(type->array.elementType),
+            next,
+            depth + 1);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
 /* An array can only be initialized with a list of values in C, not with a
- * compound literal */
+ * compound literal or another array */
 static void generateInitializer(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    const Type *type = node->type ? resolveAndUnThisType(node->type) : NULL;
+    if (typeIs(type, Array) && type->array.len != UINT64_MAX &&
+        (nodeIs(node, Identifier) || nodeIs(node, MemberExpr))) {
+        generateArrayElements(visitor, node, type, (u64[]){0}, 0);
+        return;
+    }
+
     if (!nodeIs(node, ArrayExpr)) {
         astConstVisit(visitor, node);
         return;
-- 
2.43.0


From fb8fbf6eb42f6a89325100deac1be9a26461204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 065/110] fix: a conditional expression owns the object it
 yields, and evaluates only one of them; a ?: b with calls

---
 src/cxy/lang/middle/simplify/simplify.c | 53 +++++++++++++++++++++----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 4ce2116..a51c2df 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -800,6 +800,10 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
         if (typeIs(func->type->func.params[i], Auto))
             continue;
 
+        // a conditional expression might become a variable of its own
+        if (nodeIs(arg, TernaryExpr))
+            astVisit(visitor, arg);
+
         if (nodeNeedsTemporaryVar(arg)) {
             astVisit(visitor, arg);
             AstNode *var =
@@ -907,13 +911,20 @@ static AstNode *visitConditionalExpr(AstVisitor *visitor, AstNode *expr)
     return block->blockStmt.stmts;
 }
 
+static inline bool isManagedType(const Type *type)
+{
+    return isClassType(type) || isDestructible(type);
+}
+
 static AstNode *makeConditionalVariable(SimplifyContext *ctx,
                                         AstNode *node,
                                         AstNode *init)
 {
     AstNode *var = makeVarDecl(ctx->pool,
                                &node->loc,
-                               flgTemporary,
+                               // objects are dropped like any other's
+                               isManagedType(node->type) ? flgNone
+                                                         : flgTemporary,
                                makeAnonymousVariable(ctx->strings, "_c"),
                                NULL,
                                init,
@@ -1004,16 +1015,42 @@ static void visitLogicExpr(AstVisitor *visitor, AstNode *node)
 static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
-    if (isClassType(node->type) || isDestructible(node->type)) {
-        astVisitFallbackVisitAll(visitor, node);
+    // the result owns the object that was chosen, it has to be a variable
+    bool isManaged = isManagedType(node->type);
+    AstNode *cond = node->ternaryExpr.cond, *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    astVisit(visitor, cond);
+    if (body == NULL) {
+        AstNode *stmts = visitConditionalExpr(visitor, otherwise);
+        if (stmts == NULL && !isManaged)
+            return;
+
+        // a ?: b => var c = a; if (!c) { ...; c = b; }
+        AstNode *var = makeConditionalVariable(ctx, node, cond);
+        cond = makeUnaryExpr(ctx->pool,
+                             &node->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             makeConditionalVariableRef(ctx, node, var),
+                             NULL,
+                             getPrimitiveType(ctx->types, prtBool));
+        astModifierAdd(&ctx->block,
+                       makeIfStmt(ctx->pool,
+                                  &node->loc,
+                                  flgNone,
+                                  cond,
+                                  makeConditionalBlock(
+                                      ctx, var, stmts, otherwise),
+                                  NULL,
+                                  NULL));
+        replaceWithConditionalVariable(ctx, node, var);
         return;
     }
-    AstNode *body = node->ternaryExpr.body,
-            *otherwise = node->ternaryExpr.otherwise;
-    astVisit(visitor, node->ternaryExpr.cond);
+
     AstNode *bodyStmts = visitConditionalExpr(visitor, body),
             *otherwiseStmts = visitConditionalExpr(visitor, otherwise);
-    if (bodyStmts == NULL && otherwiseStmts == NULL)
+    if (bodyStmts == NULL && otherwiseStmts == NULL && !isManaged)
         return;
 
     // cond ? a : b => var c; if (cond) { ...; c = a; } else { ...; c = b; }
@@ -1023,7 +1060,7 @@ static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
         makeIfStmt(ctx->pool,
                    &node->loc,
                    flgNone,
-                   node->ternaryExpr.cond,
+                   cond,
                    makeConditionalBlock(ctx, var, bodyStmts, body),
                    makeConditionalBlock(ctx, var, otherwiseStmts, otherwise),
                    NULL));
-- 
2.43.0


From 98752d0917b3ff32194e6f024d578c697b88ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 066/110] fix: break in a case leaves the switch only, it must
 not drop the variables of the loop around it

---
 src/cxy/lang/middle/defer.c      |  2 ++
 src/cxy/lang/middle/mem/manage.c | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index 56e9bd4..efac0da 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -126,6 +126,8 @@ static void visitBreakContinue(AstVisitor *visitor, AstNode *node)
         AstNode *block = scope->node->parentScope;
         if (nodeIs(block, WhileStmt) || nodeIs(block, ForStmt))
             break;
+        if (nodeIs(block, CaseStmt) && nodeIs(node, BreakStmt))
+            break;
         if (blockScopeNeedsSealing(scope))
             blockScopeSealIntoList(ctx, &expressions, scope);
         scope = scope->next;
diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 7ffca50..d498902 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -22,6 +22,7 @@ typedef struct {
 typedef struct {
     DynArray *locals;
     bool isLoopStart;
+    bool isCaseStart;
 } TraceScope;
 
 typedef struct {
@@ -336,7 +337,7 @@ static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
-static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
+static void sealCurrentJumpPoint(MemContext *ctx, AstTag jump)
 {
     if (dynArrayEmpty(&ctx->scopes))
         return;
@@ -351,7 +352,9 @@ static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
                                makeDropVariable(ctx, vt, false));
             }
         }
-        if (!isReturn && scope->isLoopStart)
+        if (jump != astReturnStmt && scope->isLoopStart)
+            break;
+        if (jump == astBreakStmt && scope->isCaseStart)
             break;
     }
     ctx->currentBlock->blockStmt.sealed = true;
@@ -733,19 +736,19 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         ctx->returnStmt = false;
     }
 
-    sealCurrentJumpPoint(ctx, true);
+    sealCurrentJumpPoint(ctx, astReturnStmt);
 }
 
 static void visitBreakStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    sealCurrentJumpPoint(ctx, node->tag);
 }
 
 static void visitContinueStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    sealCurrentJumpPoint(ctx, node->tag);
 }
 
 static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
@@ -767,7 +770,10 @@ static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
                   nodeIs(node->parentScope, ForStmt);
     ctx->locals = &locals;
     pushOnDynArray(&ctx->scopes,
-                   &(TraceScope){.locals = &locals, .isLoopStart = isLoop});
+                   &(TraceScope){.locals = &locals,
+                                 .isLoopStart = isLoop,
+                                 .isCaseStart =
+                                     nodeIs(node->parentScope, CaseStmt)});
     ctx->cleanupBlocks = &cleanups;
 
     if (nodeIs(parent, FuncDecl)) {
-- 
2.43.0


From 807e0083824abe00ad177f1d01763756ec13d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 067/110] fix: a pointer initialized with an array is not a
 list of its elements; parenthesised conditional arguments

---
 src/cxy/lang/backend/c/generate.c       | 3 +++
 src/cxy/lang/middle/simplify/simplify.c | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index d76314c..bc6831d 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1754,6 +1754,9 @@ static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), " = ", NULL);
         if (nullInit)
             format(getState(ctx), " {{}", NULL);
+        else if (typeIs(type, Pointer) || typeIs(type, Reference))
+            // not a copy of what it points to
+            astConstVisit(visitor, node->varDecl.init);
         else
             generateInitializer(visitor, node->varDecl.init);
     }
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index a51c2df..a8f155e 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -801,7 +801,10 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
             continue;
 
         // a conditional expression might become a variable of its own
-        if (nodeIs(arg, TernaryExpr))
+        const AstNode *inner = arg;
+        while (nodeIs(inner, GroupExpr))
+            inner = inner->groupExpr.expr;
+        if (nodeIs(inner, TernaryExpr))
             astVisit(visitor, arg);
 
         if (nodeNeedsTemporaryVar(arg)) {
-- 
2.43.0


From 2b67cfba404729ee0ee077f3d3cf59e64eacddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:06 +0000
Subject: [PATCH 068/110] fix: print writes to the standard output, not to the
 standard input

---
 src/cxy/runtime/builtins.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index b107839..43487ae 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1238,10 +1238,10 @@ pub var SysConfNumProcs = sysconf(SC_NPROCESSORS_ONLN!);
 pub func print[T](data: &const T) {
     require!(T.isString, "type '{t}' is not a string, `print` only supports string types", #T)
     #if (T.isClass) {
-        write(0, data.data(), data.size())
+        stdout.append(data.str(), data.size())
     }
     else {
-        write(0, data, strlen(data))
+        stdout.append(data !: ^const char, strlen(data))
     }
 }
 
-- 
2.43.0


From b8b27cc9af38550b7db769c9cdf347b4020b6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 069/110] fix: a String that has only reserved space is an
 empty string

---
 src/cxy/runtime/builtins.cxy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 43487ae..6578f00 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -766,6 +766,7 @@ pub class String : OutputStream {
         const newSize = max(_size + growSize, 16`u64);
         if (this._data == null) {
             this._data = <^char> malloc(newSize + 1)
+            this._data.[0] = '\0'`char
             this._capacity = newSize
         }
         else if (this._capacity < newSize) {
-- 
2.43.0


From b2bbdf96cbb73c53a5e82c1466f7472a50da7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 070/110] fix: isEnum looks through const (printing constant
 enum values in generic functions)

---
 src/cxy/lang/middle/eval/comptime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/comptime.c b/src/cxy/lang/middle/eval/comptime.c
index eff9a68..86f3a57 100644
--- a/src/cxy/lang/middle/eval/comptime.c
+++ b/src/cxy/lang/middle/eval/comptime.c
@@ -667,12 +667,13 @@ static AstNode *isEnum(EvalContext *ctx,
                        AstNode *node,
                        attr(unused) AstNode *args)
 {
-    node->type ?: evalType(ctx, node);
+    const Type *type =
+        resolveUnThisUnwrapType(node->type ?: evalType(ctx, node));
     return makeAstNode(
         ctx->pool,
         loc,
         &(AstNode){.tag = astBoolLit,
-                   .boolLiteral.value = typeIs(node->type, Enum)});
+                   .boolLiteral.value = typeIs(type, Enum)});
 }
 
 static AstNode *isVoidComptime(EvalContext *ctx,
-- 
2.43.0


From 07df5720cffb933635e0c29a668ea1e9810323ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 071/110] fix: naming an array or pointer type at compile time
 keeps the arguments after it

---
 src/cxy/lang/middle/eval/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/middle/eval/path.c b/src/cxy/lang/middle/eval/path.c
index 8f5b4fe..fecc1f5 100644
--- a/src/cxy/lang/middle/eval/path.c
+++ b/src/cxy/lang/middle/eval/path.c
@@ -116,7 +116,10 @@ void evalPathEpilogue(AstVisitor *visitor,
         case typArray:
         case typReference:
             if (isTypeExpr(symbol)) {
+                // what follows is not the symbol's
+                AstNode *next = node->next;
                 *node = *symbol;
+                node->next = next;
                 break;
             }
             node->tag = astTypeRef;
-- 
2.43.0


From aae9e954bb83ffe8f27b529ed899d8755d3763cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 072/110] fix: an element of a compile time list or tuple used
 as an argument is that element only

---
 src/cxy/lang/middle/eval/index.c  | 5 +++++
 src/cxy/lang/middle/eval/member.c | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 160844e..9cb2558 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -19,14 +19,19 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
         node->tag = astError;
         return false;
     }
+    // what follows in the list is not part of the element
+    AstNode *next = node->next;
     *node = *atIndex;
+    node->next = next;
     return true;
 }
 
 bool setEvalStringIndexExprResult(AstNode *node, const AstNode *result)
 {
     if (result) {
+        AstNode *next = node->next;
         *node = *result;
+        node->next = next;
         return false;
     }
     node->tag = astNullLit;
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 46ebacb..e0e7685 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -34,7 +34,9 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         return false;
     }
 
+    AstNode *next = node->next;
     *node = *getNodeAtIndex(target->tupleExpr.elements, i);
+    node->next = next;
     return true;
 }
 
-- 
2.43.0


From ed4d73f6ceb6c3135ee0c28489919048abcf56e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 073/110] fix: tuples and structs that hold a union of objects
 drop it

---
 src/cxy/lang/middle/sema/struct.c | 3 ++-
 src/cxy/lang/middle/sema/tuple.c  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 8fd21c2..f9e0a8d 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -72,7 +72,8 @@ static void evaluateStructMembers(AstVisitor *visitor, AstNode *node)
             if (isClassType(type)) {
                 node->flags |= flgReferenceMembers;
             }
-            else if (isStructType(type) || isTupleType(type)) {
+            else if (isStructType(type) || isTupleType(type) ||
+                     isUnionType(type)) {
                 node->flags |= (type->flags & flgReferenceMembers);
             }
         }
diff --git a/src/cxy/lang/middle/sema/tuple.c b/src/cxy/lang/middle/sema/tuple.c
index 02f5d4d..4736312 100644
--- a/src/cxy/lang/middle/sema/tuple.c
+++ b/src/cxy/lang/middle/sema/tuple.c
@@ -79,7 +79,7 @@ void checkTupleExpr(AstVisitor *visitor, AstNode *node)
             AstNode *decl = getTypeDecl(type);
             node->flags |= (decl->flags & flgReferenceMembers);
         }
-        else if (isTupleType(type)) {
+        else if (isTupleType(type) || isUnionType(type)) {
             node->flags |= (type->flags & flgReferenceMembers);
         }
     }
@@ -121,7 +121,7 @@ void checkTupleType(AstVisitor *visitor, AstNode *node)
         else if (isClassType(type)) {
             node->flags |= flgReferenceMembers;
         }
-        else if (isTupleType(type)) {
+        else if (isTupleType(type) || isUnionType(type)) {
             node->flags |= (type->flags & flgReferenceMembers);
         }
         else if (isStructType(type) && !hasFlag(type, Closure)) {
-- 
2.43.0


From 682774ca03614c4e28752fa8e2dae4f7d87901db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 074/110] fix: literals out of range, without digits or empty
 are refused, not misread

---
 src/cxy/lang/frontend/lexer.c | 47 ++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index d0181e0..0c139cc 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -5,6 +5,7 @@
 #include "token.h"
 
 #include <ctype.h>
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -239,6 +240,23 @@ static Token makeInvalidToken(Lexer *lexer,
     return token;
 }
 
+static Token makeDigitsLiteral(Lexer *lexer,
+                               const FilePos *begin,
+                               const char *digits,
+                               int base)
+{
+    if (digits == getCurPtr(lexer))
+        return makeInvalidToken(
+            lexer, begin, "integer literal has no digits after its prefix");
+
+    errno = 0;
+    uintmax_t value = strtoumax(digits, NULL, base);
+    if (errno == ERANGE)
+        return makeInvalidToken(
+            lexer, begin, "integer literal does not fit in 64 bits");
+    return makeIntLiteral(lexer, begin, value);
+}
+
 static Token multilineString(Lexer *lexer)
 {
     FilePos begin = lexer->buffer->filePos;
@@ -283,7 +301,7 @@ Token advanceLexer(Lexer *lexer)
     }
 
     while (true) {
-        bool parsingStringLiteral = false;
+        bool parsingStringLiteral = false, brokenString = false;
         FilePos begin = lexer->buffer->filePos;
         LexerBuffer *buffer = NULL;
         if (lexer->flags & lxEnterStringExpr) {
@@ -317,6 +335,7 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '{'))
             return makeToken(lexer, &begin, tokLBrace);
         if (acceptChar(lexer, '.')) {
+            lexer->flags &= ~lxMaybeNotFloat;
             if (acceptChar(lexer, '.')) {
                 if (acceptChar(lexer, '.')) {
                     return makeToken(lexer, &begin, tokElipsis);
@@ -482,6 +501,7 @@ Token advanceLexer(Lexer *lexer)
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
                         continue;
+                    brokenString = true;
                     break;
                 }
 
@@ -511,7 +531,7 @@ Token advanceLexer(Lexer *lexer)
                 lexer->flags &= ~lxContinueStringExpr;
                 lexer->flags |= lxExitStringExpr;
             }
-            if (!acceptChar(lexer, '\"'))
+            if (brokenString || !acceptChar(lexer, '\"'))
                 return makeInvalidToken(
                     lexer, &begin, "unterminated string literal");
             return makeToken_(lexer, buffer, &begin, tokStringLiteral);
@@ -531,7 +551,7 @@ Token advanceLexer(Lexer *lexer)
             }
 
             Token token = makeToken(lexer, &begin, tokCharLiteral);
-            if (!acceptChar(lexer, '\'') ||
+            if (!acceptChar(lexer, '\'') || charCount == 0 ||
                 convertEscapeSeq(
                     ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
                 return makeInvalidToken(
@@ -576,7 +596,8 @@ Token advanceLexer(Lexer *lexer)
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) == '0' || getCurChar(lexer) == '1')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -584,8 +605,7 @@ Token advanceLexer(Lexer *lexer)
                             "binary digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 2));
+                    return makeDigitsLiteral(lexer, &begin, ptr, 2);
                 }
                 else if (acceptChar(lexer, 'x')) {
                     // Hexadecimal literal
@@ -593,7 +613,8 @@ Token advanceLexer(Lexer *lexer)
                     while (isxdigit(getCurChar(lexer)))
                         skipChar(lexer);
 
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -601,23 +622,22 @@ Token advanceLexer(Lexer *lexer)
                             "hexadecimal digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 16));
+                    return makeDigitsLiteral(lexer, &begin, ptr, 16);
                 }
                 else if (acceptChar(lexer, 'o')) {
                     // Octal literal
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) >= '0' && getCurChar(lexer) <= '7')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
                             &begin,
                             "octal digit contains invalid characters");
                     }
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 8));
+                    return makeDigitsLiteral(lexer, &begin, ptr, 8);
                 }
             }
 
@@ -645,8 +665,7 @@ Token advanceLexer(Lexer *lexer)
             }
 
             return hasDot ? makeFloatLiteral(lexer, &begin, strtod(ptr, NULL))
-                          : makeIntLiteral(
-                                lexer, &begin, strtoumax(ptr, NULL, 10));
+                          : makeDigitsLiteral(lexer, &begin, ptr, 10);
         }
 
         skipChar(lexer);
-- 
2.43.0


From ca723b69ecf61a889088b76f5c83d7a723dd7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 075/110] fix: a literal past the signed limit is a u64, one
 below it is refused

---
 src/cxy/lang/frontend/parser.c   | 3 +++
 src/cxy/lang/middle/sema/check.c | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 7df8884..d456a15 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -477,6 +477,9 @@ static inline AstNode *parseInteger(Parser *P, bool isNegative)
 {
     const Token prev = *previous(P);
     const Token tok = *consume0(P, tokIntLiteral);
+    if (isNegative && tok.iVal > (uintmax_t)INT64_MAX + 1)
+        parserError(
+            P, &tok.fileLoc, "negative integer literal is too small", NULL);
     AstNode *type = NULL;
     AstNode *node = newAstNode(
         P,
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index b3904ab..3604b2e 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -759,8 +759,12 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
         node->type = getPrimitiveType(ctx->types, prtChar);
         break;
     case astIntegerLit:
+        // Only an unsigned type holds what is past the signed limit
         node->type =
-            getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
+            !node->intLiteral.isNegative && node->intLiteral.uValue > INT64_MAX
+                ? getPrimitiveType(ctx->types, prtU64)
+                : getIntegerTypeForLiteral(ctx->types,
+                                           integerLiteralValue(node));
         break;
     case astFloatLit:
         node->type = getPrimitiveType(ctx->types, prtF64);
-- 
2.43.0


From 5a0ff2b25d1de50f6c8c59f56fc7361edaf65ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:11 +0000
Subject: [PATCH 076/110] fix: a handler of a void call may raise

---
 src/cxy/lang/middle/sema/exception.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 64a2335..05665aa 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -232,8 +232,10 @@ bool exceptionVerifyRaiseExpr(TypingContext *ctx,
         }
 
         if (ctx->catcher.block != NULL) {
-            ctx->catcher.block->type =
-                getResultTargetType(ctx->catcher.expr->type);
+            const Type *caught = ctx->catcher.expr->type;
+            ctx->catcher.block->type = isVoidResultType(caught)
+                                           ? makeVoidType(ctx->types)
+                                           : getResultTargetType(caught);
         }
     }
     return true;
-- 
2.43.0


From 0c2901736da0642bb4b59680a954c13ffc574f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:42 +0000
Subject: [PATCH 077/110] fix: a return value is evaluated before deferred
 statements run

---
 src/cxy/lang/middle/defer.c | 39 +++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index efac0da..0d5a961 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -139,6 +139,43 @@ static void visitBreakContinue(AstVisitor *visitor, AstNode *node)
     astModifierAdd(&ctx->block, expressions.first);
 }
 
+// What is returned is evaluated before the deferred statements run
+static void evaluateBeforeDeferred(DeferContext *ctx, AstNode *node)
+{
+    AstNode *expr = node->returnStmt.expr;
+    if (expr == NULL || isLiteralExpr(expr))
+        return;
+
+    if (typeIs(expr->type, Void)) {
+        astModifierAdd(&ctx->block,
+                       makeExprStmt(ctx->pool,
+                                    &expr->loc,
+                                    flgNone,
+                                    expr,
+                                    NULL,
+                                    expr->type));
+        node->returnStmt.expr = NULL;
+        return;
+    }
+
+    AstNode *value = makeVarDecl(ctx->pool,
+                                 &expr->loc,
+                                 flgNone,
+                                 makeAnonymousVariable(ctx->strings, "_rv"),
+                                 NULL,
+                                 expr,
+                                 NULL,
+                                 expr->type);
+    astModifierAdd(&ctx->block, value);
+    node->returnStmt.expr = makeResolvedPath(ctx->pool,
+                                             &expr->loc,
+                                             value->_name,
+                                             flgNone,
+                                             value,
+                                             NULL,
+                                             value->type);
+}
+
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 {
     DeferContext *ctx = getAstVisitorContext(visitor);
@@ -150,6 +187,8 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         scope = scope->next;
     }
     ctx->bsc.scope->flags |= bscSealed;
+    if (expressions.first)
+        evaluateBeforeDeferred(ctx, node);
     astModifierAdd(&ctx->block, expressions.first);
 }
 
-- 
2.43.0


From 5256c4b95ed1a393d951d1849b849ecbf296dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:42 +0000
Subject: [PATCH 078/110] fix: the value of a catch is owned and moved, not
 leaked

---
 src/cxy/lang/middle/sema/check.c     |  2 +-
 src/cxy/lang/middle/sema/exception.c | 27 ++++++++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 3604b2e..b7f4362 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -344,7 +344,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
         ctx->catcher.variable =
             makeVarDecl(ctx->pool,
                         &node->loc,
-                        flgTemporary,
+                        flgNone,
                         makeAnonymousVariable(ctx->strings, "_Tres"),
                         makeTypeReferenceNode(ctx->pool, target, &node->loc),
                         NULL,
diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 05665aa..427d434 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -321,16 +321,25 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
     AstNode *parent = node->parentScope;
     if (!nodeIs(parent, ExprStmt)) {
         if (catcher->variable != NULL) {
-            node->tag = astPath;
+            // The value leaves the variable that the branches assigned it to
+            AstNode *result = catcher->variable;
+            node->tag = astGroupExpr;
             clearAstBody(node);
-            node->path.elements =
-                makeResolvedPathElement(ctx->pool,
-                                        &node->loc,
-                                        catcher->variable->_name,
-                                        flgNone,
-                                        catcher->variable,
-                                        NULL,
-                                        catcher->variable->type);
+            node->groupExpr.expr =
+                makeUnaryExpr(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              true,
+                              opMove,
+                              makeResolvedPath(ctx->pool,
+                                               &node->loc,
+                                               result->_name,
+                                               flgNone,
+                                               result,
+                                               NULL,
+                                               result->type),
+                              NULL,
+                              result->type);
             node->type = catcher->variable->type;
         }
         else {
-- 
2.43.0


From 541593723a8bf29d45d68cbe64a39089d01d87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:42 +0000
Subject: [PATCH 079/110] fix: a handler is for its call, not for raising calls
 within it

---
 src/cxy/lang/middle/sema/binary.c | 1 +
 src/cxy/lang/middle/sema/call.c   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 4eeca2d..a25f1d2 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -166,6 +166,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->explicitCatch = node->binaryExpr.op == opCatch;
     bool currentReturnState = ctx->returnState;
     const Type *left = checkType(visitor, lhs), *left_ = stripAll(left);
+    ctx->explicitCatch = false;
 
     Operator op = node->binaryExpr.op;
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 8205d47..49b5174 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -168,7 +168,10 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
     u64 flags = getCalleeContextFlags(callee);
     bool explicitCatch = ctx->explicitCatch;
 
+    // A handler is for this call only, not for the calls within it
+    ctx->explicitCatch = false;
     const Type *callee_ = checkType(visitor, callee);
+    ctx->explicitCatch = explicitCatch;
 
     ctx->currentCall = currentCall;
 
@@ -272,6 +275,7 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    ctx->explicitCatch = false;
     checkFunctionCallEpilogue(visitor, callee_, node, flags);
     if (typeIs(node->type, Error))
         return;
-- 
2.43.0


From bd1fa97acf27b85de10fc07c79ae7795396cf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:42 +0000
Subject: [PATCH 080/110] fix: a handler within a handler has its own exception
 value

---
 src/cxy/lang/middle/sema/binary.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index a25f1d2..8e4aaf0 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -222,6 +222,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.block = rhs;
     ctx->catcher.variable = NULL;
     ctx->catcher.ex = NULL;
+    ctx->catcher.result = NULL;
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
-- 
2.43.0


From 7903b29d345f9695808c1eef13bdd39c96df1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:21 +0000
Subject: [PATCH 081/110] fix: raising calls and string expressions in operands
 of &&, || and ?: are evaluated only when reached

---
 src/cxy/lang/middle/sema/binary.c |  48 ++++++-
 src/cxy/lang/middle/sema/check.c  | 220 +++++++++++++++++++++++++++---
 src/cxy/lang/middle/sema/check.h  |  11 ++
 src/cxy/lang/middle/shake/shake.c |  32 +++++
 src/cxy/lang/middle/shake/shake.h |   1 +
 5 files changed, 290 insertions(+), 22 deletions(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 8e4aaf0..2cf4302 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -159,6 +159,45 @@ static void checkBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+// lhs && rhs => var _cond = lhs; if (_cond) { ...; _cond = rhs; }
+static void transformLogicalToIfStmt(TypingContext *ctx,
+                                     AstNode *node,
+                                     AstNode *branch)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    bool isOr = node->binaryExpr.op == opLOr;
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgNone,
+                               makeAnonymousVariable(ctx->strings, "_cond"),
+                               NULL,
+                               lhs,
+                               NULL,
+                               node->type);
+    AstNode *cond = makeResolvedPath(
+        ctx->pool, &node->loc, var->_name, flgNone, var, NULL, node->type);
+    if (isOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &node->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             node->type);
+    astModifierAdd(&ctx->blockModifier, var);
+    assignConditionalExpr(ctx, branch, var, rhs);
+    astModifierAdd(
+        &ctx->blockModifier,
+        makeIfStmt(
+            ctx->pool, &node->loc, flgNone, cond, branch, NULL, NULL));
+    const Type *type = node->type;
+    AstNode *next = node->next, *parent = node->parentScope;
+    *node = *makeResolvedPath(
+        ctx->pool, &node->loc, var->_name, flgNone, var, next, type);
+    node->parentScope = parent;
+}
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -223,7 +262,11 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.variable = NULL;
     ctx->catcher.ex = NULL;
     ctx->catcher.result = NULL;
-    const Type *right = checkType(visitor, node->binaryExpr.rhs);
+    AstNode *branch = NULL;
+    const Type *right =
+        opKind == optLogical
+            ? checkConditionalExpr(visitor, node->binaryExpr.rhs, &branch)
+            : checkType(visitor, node->binaryExpr.rhs);
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
 
@@ -315,6 +358,9 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
                      (FormatArg[]){{.s = getBinaryOpString(op)}, {.t = type}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (branch) {
+            transformLogicalToIfStmt(ctx, node, branch);
+        }
         break;
 
     case optComparison:
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index b7f4362..7c52b0a 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -9,6 +9,7 @@
 #include "lang/operations.h"
 
 #include "lang/frontend/ast.h"
+#include "lang/frontend/strings.h"
 #include "lang/frontend/flag.h"
 #include "lang/frontend/ttable.h"
 #include "lang/frontend/types.h"
@@ -451,24 +452,71 @@ static void checkStringExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     AstNode *part = node->stringExpr.parts;
-
-    for (; part; part = part->next) {
-        part->type = checkType(visitor, part);
-        if (typeIs(part->type, Error)) {
-            node->type = ERROR_TYPE(ctx);
-            return;
-        }
+    AstNode *String = findBuiltinDecl(S_String);
+
+    // var sb = String(); sb << part0 << part1 ...;
+    AstNode *var = makeVarDecl(
+        ctx->pool,
+        &node->loc,
+        flgNone,
+        makeAnonymousVariable(ctx->strings, S_sb),
+        NULL,
+        makeCallExpr(ctx->pool,
+                     &node->loc,
+                     makeResolvedPath(ctx->pool,
+                                      &node->loc,
+                                      S_String,
+                                      flgNone,
+                                      String,
+                                      NULL,
+                                      String->type),
+                     NULL,
+                     flgNone,
+                     NULL,
+                     NULL),
+        NULL,
+        NULL);
+    const Type *type = checkType(visitor, var);
+    if (typeIs(type, Error)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
     }
-
-    part = node->stringExpr.parts;
-    if (nodeIs(part, StringLit) && part->next == NULL) {
-        node->tag = astStringLit;
-        node->type = part->type;
-        memcpy(&node->_body, &part->_body, CXY_AST_NODE_BODY_SIZE);
+    astModifierAdd(&ctx->blockModifier, var);
+
+    AstNode *sb = makeResolvedPath(
+        ctx->pool, &node->loc, var->_name, flgNone, var, NULL, type);
+    while (part) {
+        AstNode *next = part->next;
+        part->next = NULL;
+        if (!nodeIs(part, StringLit) || part->stringLiteral.value[0] != '\0')
+            sb = makeBinaryExpr(ctx->pool,
+                                locExtend(&node->loc, &part->loc),
+                                flgNone,
+                                sb,
+                                opShl,
+                                part,
+                                NULL,
+                                NULL);
+        part = next;
     }
-    else {
-        node->type = makeStringType(ctx->types);
+
+    AstNode *stmt =
+        makeExprStmt(ctx->pool, &node->loc, flgNone, sb, NULL, NULL);
+    if (typeIs(checkType(visitor, stmt), Error)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
     }
+    astModifierAdd(&ctx->blockModifier, stmt);
+
+    AstNode *parent = node->parentScope;
+    *node = *makeResolvedPath(ctx->pool,
+                              &node->loc,
+                              var->_name,
+                              flgNone,
+                              var,
+                              node->next,
+                              type);
+    node->parentScope = parent;
 }
 
 static void checkSpreadExpr(AstVisitor *visitor, AstNode *node)
@@ -780,15 +828,142 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
     }
 }
 
+const Type *checkConditionalExpr(AstVisitor *visitor,
+                                 AstNode *expr,
+                                 AstNode **block)
+{
+    TypingContext *ctx = getAstVisitorContext(visitor);
+    if (!nodeIs(ctx->blockModifier.parent, BlockStmt))
+        return checkType(visitor, expr);
+
+    AstNode *last = makeAstNode(
+        ctx->pool, &expr->loc, &(AstNode){.tag = astNoop});
+    AstNode *stmts = makeBlockStmt(
+        ctx->pool, &expr->loc, last, NULL, makeVoidType(ctx->types));
+    __typeof(ctx->blockModifier) modifier = ctx->blockModifier;
+    astModifierInit(&ctx->blockModifier, stmts);
+    astModifierNext(&ctx->blockModifier, last);
+    const Type *type = checkType(visitor, expr);
+    ctx->blockModifier = modifier;
+
+    *block = stmts->blockStmt.stmts == last ? NULL : stmts;
+    return type;
+}
+
+void assignConditionalExpr(TypingContext *ctx,
+                           AstNode *block,
+                           AstNode *variable,
+                           AstNode *expr)
+{
+    AstNode *last = getLastAstNode(block->blockStmt.stmts);
+    csAssert0(nodeIs(last, Noop));
+    last->tag = astExprStmt;
+    last->type = makeVoidType(ctx->types);
+    last->exprStmt.expr = makeAssignExpr(ctx->pool,
+                                         &expr->loc,
+                                         flgNone,
+                                         makeResolvedPath(ctx->pool,
+                                                          &expr->loc,
+                                                          variable->_name,
+                                                          flgNone,
+                                                          variable,
+                                                          NULL,
+                                                          variable->type),
+                                         opAssign,
+                                         expr,
+                                         NULL,
+                                         variable->type);
+}
+
+static AstNode *makeConditionalBlock(TypingContext *ctx, const FileLoc *loc)
+{
+    return makeBlockStmt(
+        ctx->pool,
+        loc,
+        makeAstNode(ctx->pool, loc, &(AstNode){.tag = astNoop}),
+        NULL,
+        makeVoidType(ctx->types));
+}
+
+// cond ? a : b => var _val; if (cond) { ...; _val = a; } else { ...; _val = b }
+static void transformTernaryToIfStmt(TypingContext *ctx,
+                                     AstNode *node,
+                                     AstNode *then,
+                                     AstNode *otherwise)
+{
+    const Type *type = node->type;
+    AstNode *cond = node->ternaryExpr.cond, *body = node->ternaryExpr.body;
+    if (body == NULL) {
+        AstNode *var =
+            makeVarDecl(ctx->pool,
+                        &node->loc,
+                        flgNone,
+                        makeAnonymousVariable(ctx->strings, "_cond"),
+                        NULL,
+                        cond,
+                        NULL,
+                        type);
+        astModifierAdd(&ctx->blockModifier, var);
+        cond = makeResolvedPath(
+            ctx->pool, &node->loc, var->_name, flgNone, var, NULL, type);
+        body = makeResolvedPath(
+            ctx->pool, &node->loc, var->_name, flgNone, var, NULL, type);
+    }
+
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgNone,
+                               makeAnonymousVariable(ctx->strings, "_val"),
+                               makeTypeReferenceNode(ctx->pool, type, &node->loc),
+                               NULL,
+                               NULL,
+                               type);
+    then = then ?: makeConditionalBlock(ctx, &body->loc);
+    otherwise =
+        otherwise
+            ?: makeConditionalBlock(ctx, &node->ternaryExpr.otherwise->loc);
+    assignConditionalExpr(ctx, then, var, body);
+    assignConditionalExpr(ctx, otherwise, var, node->ternaryExpr.otherwise);
+    astModifierAdd(&ctx->blockModifier, var);
+    astModifierAdd(&ctx->blockModifier,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              cond,
+                              then,
+                              otherwise,
+                              NULL));
+    node->tag = astGroupExpr;
+    clearAstBody(node);
+    node->groupExpr.expr =
+        makeUnaryExpr(ctx->pool,
+                      &node->loc,
+                      flgNone,
+                      true,
+                      opMove,
+                      makeResolvedPath(ctx->pool,
+                                       &node->loc,
+                                       var->_name,
+                                       flgNone,
+                                       var,
+                                       NULL,
+                                       type),
+                      NULL,
+                      type);
+}
+
 static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *cond = checkType(visitor, node->ternaryExpr.cond);
     // `a ?: b` is `a` if truthy, otherwise `b`
-    const Type *body = node->ternaryExpr.body
-                           ? checkType(visitor, node->ternaryExpr.body)
-                           : cond;
-    const Type *otherwise = checkType(visitor, node->ternaryExpr.otherwise);
+    AstNode *then = NULL, *orElse = NULL;
+    const Type *body =
+        node->ternaryExpr.body
+            ? checkConditionalExpr(visitor, node->ternaryExpr.body, &then)
+            : cond;
+    const Type *otherwise =
+        checkConditionalExpr(visitor, node->ternaryExpr.otherwise, &orElse);
 
     if (typeIs(cond, Error) || //
         typeIs(body, Error) || //
@@ -826,9 +1001,12 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
                  "'{t}' and '{t}'",
                  (FormatArg[]){{.t = body}, {.t = otherwise}});
         node->type = ERROR_TYPE(ctx);
+        return;
     }
-    else
-        node->type = body;
+
+    node->type = body;
+    if (then || orElse)
+        transformTernaryToIfStmt(ctx, node, then, orElse);
 }
 
 const FileLoc *manyNodesLoc_(FileLoc *dst, AstNode *nodes)
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index f81a935..cc18015 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -75,6 +75,17 @@ const FileLoc *lastNodeLoc_(FileLoc *dst, AstNode *nodes);
 AstNode *makeDefaultValue(MemPool *pool, const Type *type, FileLoc *loc);
 
 bool transformToTruthyOperator(AstVisitor *visitor, AstNode *node);
+
+// Checks an expression that is evaluated on a condition, what must be
+// executed before it (if any) is put in `block`
+const Type *checkConditionalExpr(AstVisitor *visitor,
+                                 AstNode *expr,
+                                 AstNode **block);
+
+void assignConditionalExpr(TypingContext *ctx,
+                           AstNode *block,
+                           AstNode *variable,
+                           AstNode *expr);
 bool transformToAwaitOperator(AstVisitor *visitor, AstNode *node);
 bool transformToDerefOperator(AstVisitor *visitor, AstNode *node);
 bool transformOptionalType(AstVisitor *visitor,
diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index 5b61ebd..6a89750 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -693,6 +693,16 @@ static void shakeGroupExpr(AstVisitor *visitor, AstNode *node)
     astVisitFallbackVisitAll(visitor, node);
 }
 
+// An expression that is not always evaluated
+static void shakeConditionalExpr(AstVisitor *visitor, AstNode *node)
+{
+    ShakeAstContext *ctx = getAstVisitorContext(visitor);
+    bool conditional = ctx->conditional;
+    ctx->conditional = true;
+    astVisit(visitor, node);
+    ctx->conditional = conditional;
+}
+
 static void shakeBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     ShakeAstContext *ctx = getAstVisitorContext(visitor);
@@ -710,9 +720,21 @@ static void shakeBinaryExpr(AstVisitor *visitor, AstNode *node)
         ctx->catchRhs = node->binaryExpr.rhs;
         ctx->catchLhs = node->binaryExpr.lhs;
     }
+    else if (node->binaryExpr.op == opLAnd || node->binaryExpr.op == opLOr) {
+        astVisit(visitor, node->binaryExpr.lhs);
+        shakeConditionalExpr(visitor, node->binaryExpr.rhs);
+        return;
+    }
     astVisitFallbackVisitAll(visitor, node);
 }
 
+static void shakeTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    astVisit(visitor, node->ternaryExpr.cond);
+    shakeConditionalExpr(visitor, node->ternaryExpr.body);
+    shakeConditionalExpr(visitor, node->ternaryExpr.otherwise);
+}
+
 static void shakeExprStmt(AstVisitor *visitor, AstNode *node)
 {
     if (nodeIs(node->exprStmt.expr, CallExpr) && findAttribute(node, S_sync)) {
@@ -1065,6 +1087,8 @@ static void shakeBlockStmt(AstVisitor *visitor, AstNode *node)
 {
     ShakeAstContext *ctx = getAstVisitorContext(visitor);
     AstModifier prev = ctx->block;
+    bool conditional = ctx->conditional;
+    ctx->conditional = false;
     astModifierInit(&ctx->block, node);
 
     AstNode *stmt = node->blockStmt.stmts;
@@ -1074,6 +1098,7 @@ static void shakeBlockStmt(AstVisitor *visitor, AstNode *node)
     }
 
     ctx->block = prev;
+    ctx->conditional = conditional;
 }
 
 static void shakeArrayType(AstVisitor *visitor, AstNode *node)
@@ -1106,6 +1131,12 @@ static void shakeStringExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (ctx->conditional) {
+        // built where it is evaluated, see checkStringExpr
+        astVisitManyNodes(visitor, part);
+        return;
+    }
+
     AstNode *var = makeStrExprBuilder(ctx, node),
             *sb = makeResolvedPath(ctx->pool,
                                    &node->loc,
@@ -1229,6 +1260,7 @@ AstNode *shakeAstNode(CompilerDriver *driver, AstNode *node)
         [astCallExpr] = shakeCallExpr,
         [astGroupExpr] = shakeGroupExpr,
         [astBinaryExpr] = shakeBinaryExpr,
+        [astTernaryExpr] = shakeTernaryExpr,
         [astExprStmt] = shakeExprStmt,
         [astMatchStmt] = shakeMatchStmt,
         [astReturnStmt] = shakeReturnStmt,
diff --git a/src/cxy/lang/middle/shake/shake.h b/src/cxy/lang/middle/shake/shake.h
index e7887e2..64d006b 100644
--- a/src/cxy/lang/middle/shake/shake.h
+++ b/src/cxy/lang/middle/shake/shake.h
@@ -20,6 +20,7 @@ typedef struct {
     AstModifier root;
     u64 lastTestId;
     bool exceptionTrace;
+    bool conditional;
     union {
         struct {
             bool inClassOrStruct;
-- 
2.43.0


From cc4bd80e69dde4a15f80de2d673af0bd02bc2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 082/110] fix: an expression that replaces a macro call in an
 operand is grouped

X % M!(y) with macro M(x) x! + 7 was emitted as X % y + 7.
---
 src/cxy/lang/middle/preprocess/preprocessor.c | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index fb07e99..7cbedc7 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -35,13 +35,33 @@ static void substituteAstNode(AstVisitor *visitor,
     replaceAstNode(node, replacements.first);
 }
 
+// what replaces a macro in an operand is grouped, so that the operators around
+// the macro do not take it apart
+static void visitOperand(AstVisitor *visitor, AstNode *node)
+{
+    PreprocessorContext *ctx = getAstVisitorContext(visitor);
+    bool isMacro = nodeIs(node, MacroCallExpr);
+    astVisit(visitor, node);
+    if (!isMacro ||
+        !(nodeIs(node, BinaryExpr) || nodeIs(node, TernaryExpr)))
+        return;
+
+    AstNode *expr = shallowCloneAstNode(ctx->pool, node), *next = node->next,
+            *parent = node->parentScope;
+    *node = *makeGroupExpr(
+        ctx->pool, &expr->loc, expr->flags & flgComptime, expr, next);
+    node->parentScope = parent;
+    expr->next = NULL;
+    expr->parentScope = node;
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     PreprocessorContext *ctx = getAstVisitorContext(visitor);
     AstNode *lhs = node->binaryExpr.lhs;
     AstNode *rhs = node->binaryExpr.rhs;
-    astVisit(visitor, lhs);
-    astVisit(visitor, rhs);
+    visitOperand(visitor, lhs);
+    visitOperand(visitor, rhs);
 
     if (!isNumericLiteral(lhs) || !isNumericLiteral(rhs))
         return;
@@ -54,7 +74,7 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     PreprocessorContext *ctx = getAstVisitorContext(visitor);
     Operator op = node->unaryExpr.op;
     AstNode *operand = node->unaryExpr.operand;
-    astVisit(visitor, operand);
+    visitOperand(visitor, operand);
     if (op != opNot && op != opMinus && op != opPlus && op != opCompl)
         return;
 
@@ -70,10 +90,10 @@ static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
     AstNode *cond = node->ternaryExpr.cond, *then = node->ternaryExpr.body,
             *els = node->ternaryExpr.otherwise;
 
-    astVisit(visitor, cond);
+    visitOperand(visitor, cond);
     if (!preprocessorAsBoolean(ctx, cond)) {
-        astVisit(visitor, then);
-        astVisit(visitor, els);
+        visitOperand(visitor, then);
+        visitOperand(visitor, els);
         return;
     }
 
-- 
2.43.0


From 25cb916e024c311840015f0d12c804ba307faeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 083/110] fix: the literal that replaces has_member! and
 has_type! is a boolean

---
 src/cxy/lang/middle/eval/macro.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/eval/macro.c b/src/cxy/lang/middle/eval/macro.c
index 2ebd3cd..1060774 100644
--- a/src/cxy/lang/middle/eval/macro.c
+++ b/src/cxy/lang/middle/eval/macro.c
@@ -366,6 +366,7 @@ static AstNode *makeHasMemberNode(AstVisitor *visitor,
     type = resolveType(type);
     args->next = NULL;
     args->tag = astBoolLit;
+    args->type = getPrimitiveType(ctx->types, prtBool);
 
     const Type *member = findMemberInType(target, name->stringLiteral.value);
     if (typeIs(member, Func) && typeIs(type, Func)) {
@@ -419,6 +420,7 @@ static AstNode *makeHasTypeNode(AstVisitor *visitor,
         findMemberDeclInType(target, name->stringLiteral.value);
     args->next = NULL;
     args->tag = astBoolLit;
+    args->type = getPrimitiveType(ctx->types, prtBool);
     args->boolLiteral.value = nodeIs(type, TypeDecl);
     return args;
 }
-- 
2.43.0


From 3022b0baead00178e3ea93119fc69adceec17438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 084/110] fix: strings are no booleans, array elements are
 checked against the declared type

---
 src/cxy/lang/frontend/types.c        | 3 ++-
 src/cxy/lang/middle/sema/variables.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index f4099d2..52a540b 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -232,7 +232,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return isCharacterType(from);
 
         default:
-            return to->primitive.id == from->primitive.id;
+            return typeIs(from, Primitive) &&
+                   to->primitive.id == from->primitive.id;
         }
     case typPointer:
         if (isVoidPointer(to))
diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index 776750a..4633518 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -64,7 +64,8 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
     }
 
     if (isArrayType(type_) && nodeIs(init, ArrayExpr)) {
-        const Type *target = resolveAndUnThisType(init_->array.elementType),
+        const Type *target = resolveAndUnThisType(
+                       unwrapType(type_, NULL)->array.elementType),
                    *initTarget = resolveAndUnThisType(init_->array.elementType);
         if (!typeIs(initTarget, Auto) &&
             !isTypeAssignableFrom(target, initTarget)) {
-- 
2.43.0


From 64c585b05ce49c963ecf711bd6096914abf87fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:14 +0000
Subject: [PATCH 085/110] fix: casts between structs, %, + and - of unsuitable
 types, compound assignments, assignments to values and stray yields are
 refused

They were accepted and produced C that does not compile, or crashed.
---
 src/cxy/lang/frontend/types.c     |  5 +++
 src/cxy/lang/middle/sema/assign.c | 64 +++++++++++++++++++++++++++++++
 src/cxy/lang/middle/sema/binary.c | 21 ++++++++--
 src/cxy/lang/middle/sema/check.c  |  9 ++++-
 src/cxy/lang/middle/sema/check.h  |  5 +++
 src/cxy/lang/middle/sema/unary.c  | 14 +++++++
 6 files changed, 114 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 52a540b..06792ec 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -369,6 +369,11 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
     }
 
     if (unwrappedTo->tag == unwrappedFrom->tag) {
+        if (unwrappedTo->tag == typStruct || unwrappedTo->tag == typTuple)
+            // values of different layout
+            return isTypeAssignableFrom(unwrappedTo, unwrappedFrom) ||
+                   (unwrappedTo->tag == typStruct &&
+                    getTypeDecl(unwrappedTo) == getTypeDecl(unwrappedFrom));
         if (to->tag != typPrimitive)
             return (fromFlags & flgConst) ? (toFlags & flgConst) : true;
     }
diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 8c7170a..c421f17 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -34,6 +34,49 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+// a value that is not stored anywhere
+static bool isTemporaryValue(const AstNode *node)
+{
+    switch (node->tag) {
+    case astNullLit:
+    case astBoolLit:
+    case astCharLit:
+    case astIntegerLit:
+    case astFloatLit:
+    case astStringLit:
+    case astBinaryExpr:
+    case astStructExpr:
+    case astTupleExpr:
+    case astArrayExpr:
+    case astClosureExpr:
+        return true;
+    case astCallExpr:
+        return !isReferenceType(node->type);
+    case astGroupExpr:
+        return isTemporaryValue(node->groupExpr.expr);
+    default:
+        return false;
+    }
+}
+
+static bool isCompoundAssignmentSupported(TypingContext *ctx,
+                                          Operator op,
+                                          const Type *lhs,
+                                          const Type *rhs)
+{
+    const Type *type = unwrapType(promoteType(ctx->types, lhs, rhs), NULL);
+    if (type == NULL)
+        return false;
+    switch (op) {
+#define f(O, ...) case op##O:
+        AST_ARITH_EXPR_LIST(f)
+        return isArithmeticSupported(op, type, lhs, rhs);
+    default:
+        return isIntegralType(type);
+#undef f
+    }
+}
+
 void checkAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -132,6 +175,27 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
                  (FormatArg[]){{.t = lhs}, {.t = rhs}});
         node->type = ERROR_TYPE(ctx);
     }
+    else if (isTemporaryValue(left)) {
+        logError(ctx->L,
+                 &left->loc,
+                 "lhs of assignment expression is a value that cannot be "
+                 "assigned to",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+    }
+    else if (node->assignExpr.op != opAssign &&
+             !isCompoundAssignmentSupported(
+                 ctx, node->assignExpr.op, stripReference(lhs),
+                 stripReference(rhs))) {
+        logError(ctx->L,
+                 &node->loc,
+                 "assignment operation '{s}' between type '{t}' and '{t}' is "
+                 "not supported",
+                 (FormatArg[]){{.s = getAssignOpString(node->assignExpr.op)},
+                               {.t = lhs},
+                               {.t = rhs}});
+        node->type = ERROR_TYPE(ctx);
+    }
 
     if (node->type == ERROR_TYPE(ctx))
         return;
diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 2cf4302..53b5875 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -49,6 +49,23 @@ static BinaryOperatorKind getBinaryOperatorKind(Operator op)
     }
 }
 
+// left [+-*/%] right, type is the type both operands are promoted to
+bool isArithmeticSupported(Operator op,
+                           const Type *type,
+                           const Type *left,
+                           const Type *right)
+{
+    if (isPointerType(type)) {
+        // pointers move by integers, and can be subtracted unless they are
+        // strings
+        if (op == opAdd)
+            return !isPointerType(left) || !isPointerType(right);
+        return op == opSub && isPointerType(left) &&
+               (!isPointerType(right) || !typeIs(unwrapType(type, NULL), String));
+    }
+    return isNumericType(type) && (op != opMod || !isFloatType(type));
+}
+
 static bool checkClassBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -324,9 +341,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 
     switch (opKind) {
     case optNumeric:
-
-        if (isNumericType(type) ||
-            (isPointerType(type) && (op == opAdd || op == opSub)))
+        if (isArithmeticSupported(op, type, left, right))
             break;
 
         logError(ctx->L,
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 7c52b0a..c8b25ab 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -295,7 +295,14 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
     TypingContext *ctx = getAstVisitorContext(visitor);
     AstNode *block = ctx->catcher.block, *lhs = ctx->catcher.expr,
             *expr = node->yieldStmt.expr;
-    csAssert0(block);
+    if (block == NULL) {
+        logError(ctx->L,
+                 &node->loc,
+                 "yield statement can only be used in a catch block",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
     if (isVoidResultType(lhs->type)) {
         logError(ctx->L,
                  &node->loc,
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index cc18015..1a78573 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -231,6 +231,11 @@ void checkGenericDecl(AstVisitor *visitor, AstNode *node);
 void checkExceptionDecl(AstVisitor *visitor, AstNode *node);
 
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node);
+
+bool isArithmeticSupported(Operator op,
+                           const Type *type,
+                           const Type *left,
+                           const Type *right);
 void checkUnaryExpr(AstVisitor *visitor, AstNode *node);
 void checkPointerOfExpr(AstVisitor *visitor, AstNode *node);
 void checkReferenceOfExpr(AstVisitor *visitor, AstNode *node);
diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index 517ce42..2b43ef4 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -228,6 +228,20 @@ void checkPointerOfExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    const AstNode *value = node->unaryExpr.operand;
+    while (nodeIs(value, GroupExpr))
+        value = value->groupExpr.expr;
+    if (nodeIs(value, BoolLit) || nodeIs(value, CharLit) ||
+        nodeIs(value, IntegerLit) || nodeIs(value, FloatLit) ||
+        nodeIs(value, BinaryExpr) || nodeIs(value, TernaryExpr)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "address of a value that is not stored in a variable",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     node->flags |= node->unaryExpr.operand->flags;
     node->type = makePointerType(ctx->types, operand, node->flags);
 }
-- 
2.43.0


From c5fff39a76cb4c29bcebdc2c69150d8dd46cc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:41 +0000
Subject: [PATCH 086/110] fix: names of types as values, type arguments of what
 is not generic, object members without an object and main returning no
 integer are refused; enums are not assignable to each other

---
 src/cxy/lang/frontend/types.c        |  3 +-
 src/cxy/lang/middle/sema/assign.c    |  6 +++
 src/cxy/lang/middle/sema/call.c      |  2 +-
 src/cxy/lang/middle/sema/check.h     |  3 ++
 src/cxy/lang/middle/sema/function.c  | 13 ++++++
 src/cxy/lang/middle/sema/generics.c  |  2 +-
 src/cxy/lang/middle/sema/path.c      | 64 +++++++++++++++++++++++++++-
 src/cxy/lang/middle/sema/variables.c |  5 +++
 8 files changed, 92 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 06792ec..f9d702e 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -317,8 +317,7 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
         return true;
     }
     case typEnum:
-        return typeIs(from, Enum) &&
-               isTypeAssignableFrom(to->tEnum.base, from->tEnum.base);
+        return typeIs(from, Enum) && to->tEnum.decl == from->tEnum.decl;
     case typStruct:
         if (typeIs(from, This))
             return to == from->_this.that;
diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index c421f17..e4f45fb 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -96,6 +96,7 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
         target = unwrapType(target, &flags);
+        flags |= left->indexExpr.target->flags & flgConst;
         if (isPointerType(target)) {
             lhs = typeIs(target, Pointer) ? target->pointer.pointed
                                           : target->array.elementType;
@@ -144,6 +145,11 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (!checkIsValue(ctx, left) || !checkIsValue(ctx, right)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     bool isLeftAuto = typeIs(lhs, Auto);
 
     // TODO check r-value-ness
diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 49b5174..f8a5b42 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -71,7 +71,7 @@ static void checkFunctionCallEpilogue(AstVisitor *visitor,
         arg = arg->next;
         tmp->next = NULL;
         const Type *type = tmp->type ?: checkType(visitor, tmp);
-        if (typeIs(type, Error)) {
+        if (typeIs(type, Error) || !checkIsValue(ctx, tmp)) {
             node->type = ERROR_TYPE(ctx);
             continue;
         }
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index 1a78573..4a95d48 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -232,6 +232,9 @@ void checkExceptionDecl(AstVisitor *visitor, AstNode *node);
 
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node);
 
+// reports names of types where a value is needed
+bool checkIsValue(TypingContext *ctx, const AstNode *node);
+
 bool isArithmeticSupported(Operator op,
                            const Type *type,
                            const Type *left,
diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 10ced8b..639cd56 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -477,4 +477,17 @@ void checkFunctionDecl(AstVisitor *visitor, AstNode *node)
     if (node->funcDecl.body) {
         checkFunctionBody(visitor, node);
     }
+
+    if (hasFlag(node, Main) && typeIs(node->type, Func)) {
+        const Type *ret = unwrapType(node->type->func.retType, NULL);
+        if (ret && !typeIs(ret, Void) && !typeIs(ret, Auto) &&
+            !isIntegralType(ret) && !isResultType(ret)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "main function must return an integer or nothing, not "
+                     "'{t}'",
+                     (FormatArg[]){{.t = ret}});
+            node->type = ERROR_TYPE(ctx);
+        }
+    }
 }
diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 1759a1a..d80456a 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -216,7 +216,7 @@ static bool transformVariadicFunctionCallArgs(AstVisitor *visitor,
                      NULL);
             return false;
         }
-        if (typeIs(arg->type, Error))
+        if (typeIs(arg->type, Error) || !checkIsValue(ctx, arg))
             return false;
         arg = arg->next;
     }
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index f8e9ddd..5533be9 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -167,6 +167,50 @@ static const Type *checkBasePathElement(AstVisitor *visitor,
     }
 }
 
+bool checkIsValue(TypingContext *ctx, const AstNode *node)
+{
+    if (!nodeIs(node, Path) || hasFlag(node, Comptime) ||
+        hasFlag(node, Typeinfo))
+        return true;
+    const AstNode *elem = node->path.elements;
+    while (elem->next)
+        elem = elem->next;
+    const AstNode *decl = elem->pathElement.resolvesTo;
+    if (elem->pathElement.isKeyword ||
+        !(nodeIs(decl, StructDecl) || nodeIs(decl, ClassDecl) ||
+          nodeIs(decl, EnumDecl)))
+        return true;
+    logError(ctx->L,
+             &node->loc,
+             "type '{s}' is used where a value is expected",
+             (FormatArg[]){{.s = elem->pathElement.name}});
+    return false;
+}
+
+static bool checkNoTypeArguments(TypingContext *ctx, const AstNode *node)
+{
+    if (node->pathElement.args == NULL)
+        return true;
+    logError(ctx->L,
+             &node->loc,
+             "'{s}' is not generic and does not accept type arguments",
+             (FormatArg[]){{.s = node->pathElement.name}});
+    return false;
+}
+
+// Type.field or Type.method, both need an object
+static bool isObjectMemberOfType(const AstNode *target, const AstNode *member)
+{
+    if (target->pathElement.isKeyword || target->pathElement.super)
+        return false;
+    const AstNode *type = target->pathElement.resolvesTo,
+                  *decl = member->pathElement.resolvesTo;
+    if (!nodeIs(type, StructDecl) && !nodeIs(type, ClassDecl))
+        return false;
+    return nodeIs(decl, FieldDecl) ||
+           (nodeIs(decl, FuncDecl) && !hasFlag(decl, Static));
+}
+
 void checkPath(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -185,11 +229,27 @@ void checkPath(AstVisitor *visitor, AstNode *node)
         }
     }
 
+    if (!typeIs(type, Error) && !checkNoTypeArguments(ctx, base)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     u64 flags = base->flags | base->pathElement.resolvesTo->flags;
     const Type *prev = stripAll(type);
-    for (; elem; elem = elem->next) {
+    const AstNode *target = base;
+    bool isInherited = hasFlag(node, Inherited);
+    for (; elem; target = elem, elem = elem->next) {
         type = checkMember(visitor, prev, elem);
-        if (typeIs(type, Error)) {
+        if (typeIs(type, Error) || !checkNoTypeArguments(ctx, elem)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+        if (!isInherited && isObjectMemberOfType(target, elem)) {
+            logError(ctx->L,
+                     &elem->loc,
+                     "member '{s}' of type '{t}' can only be used through an "
+                     "object",
+                     (FormatArg[]){{.s = elem->pathElement.name}, {.t = prev}});
             node->type = ERROR_TYPE(ctx);
             return;
         }
diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index 4633518..a7c36cf 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -30,6 +30,11 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (init && !typeIs(init_, Error) && !checkIsValue(ctx, init)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     if (isSliceType(type_) && nodeIs(init, ArrayExpr)) {
         AstNode *newVar = transformArrayExprToSliceCall(ctx, type_, init);
         init_ = checkType(visitor, newVar);
-- 
2.43.0


From 0b149f09bb8ce7d8b6b30bcea9bff27b4544cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:41 +0000
Subject: [PATCH 087/110] fix: members and elements of constant tuples and
 arrays are constant

---
 src/cxy/lang/middle/sema/member.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index 8d3ff9d..685e360 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -92,6 +92,9 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    u64 targetFlags = flgNone;
+    unwrapType(target_, &targetFlags);
+    targetFlags |= target_->flags | (target ? target->flags : flgNone);
     target_ = stripAll(target_);
     if (nodeIs(member, Identifier)) {
         node->type = checkMember(visitor, target_, member);
@@ -102,6 +105,9 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
                      (FormatArg[]){{.t = target_}, {.s = member->ident.value}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (nodeIs(member->ident.resolvesTo, FieldDecl)) {
+            node->flags |= (targetFlags & flgConst);
+        }
         if (member->ident.super) {
             const Type *type = makeReferenceType(
                 ctx->types,
@@ -140,6 +146,9 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
                 (FormatArg[]){{.t = target_}, {.s = name->pathElement.name}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (nodeIs(name->pathElement.resolvesTo, FieldDecl)) {
+            node->flags |= (targetFlags & flgConst);
+        }
     }
     else if (nodeIs(member, IntegerLit)) {
         if (!typeIs(target_, Tuple)) {
@@ -166,6 +175,6 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
         }
         node->type = target_->tuple.members[member->intLiteral.value];
         node->flags =
-            (target_->flags & flgConst) | (node->type->flags & flgConst);
+            ((targetFlags | target_->flags | node->type->flags) & flgConst);
     }
 }
-- 
2.43.0


From 2ae202aa21d8240fffce2ca88378877c41f38d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 088/110] fix: a type alias defined by itself is refused
 instead of exhausting the stack

---
 src/cxy/lang/middle/sema/type.c | 44 +++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/cxy/lang/middle/sema/type.c b/src/cxy/lang/middle/sema/type.c
index 2ad4bb6..7f874b4 100644
--- a/src/cxy/lang/middle/sema/type.c
+++ b/src/cxy/lang/middle/sema/type.c
@@ -124,6 +124,43 @@ void checkBuiltinType(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// whether an alias can only be spelled in terms of itself
+static bool isAliasOfItself(const Type *aliased, const Type *alias)
+{
+    if (aliased == NULL)
+        return false;
+    if (aliased == alias)
+        return true;
+    switch (aliased->tag) {
+    case typThis:
+        return isAliasOfItself(aliased->_this.that, alias);
+    case typAlias:
+        return isAliasOfItself(aliased->alias.aliased, alias);
+    case typWrapped:
+        return isAliasOfItself(aliased->wrapped.target, alias);
+    case typPointer:
+        return isAliasOfItself(aliased->pointer.pointed, alias);
+    case typReference:
+        return isAliasOfItself(aliased->reference.referred, alias);
+    case typArray:
+        return isAliasOfItself(aliased->array.elementType, alias);
+    case typTuple:
+        for (u64 i = 0; i < aliased->tuple.count; i++) {
+            if (isAliasOfItself(aliased->tuple.members[i], alias))
+                return true;
+        }
+        return false;
+    case typUnion:
+        for (u64 i = 0; i < aliased->tUnion.count; i++) {
+            if (isAliasOfItself(aliased->tUnion.members[i].type, alias))
+                return true;
+        }
+        return false;
+    default:
+        return false;
+    }
+}
+
 void checkTypeDecl(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -134,6 +171,13 @@ void checkTypeDecl(AstVisitor *visitor, AstNode *node)
         ((Type *)type)->_this.trackReferences = true;
 
         const Type *aliased = checkType(visitor, node->typeDecl.aliased);
+        if (!typeIs(aliased, Error) && isAliasOfItself(aliased, type)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "type alias '{s}' is defined by itself",
+                     (FormatArg[]){{.s = node->typeDecl.name}});
+            aliased = ERROR_TYPE(ctx);
+        }
         if (typeIs(aliased, Error)) {
             resolveThisReferences(ctx->types, type, NULL);
             node->type = aliased;
-- 
2.43.0


From e9f8ccef7fd069c6595ddbc98bf90ee61b192885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 089/110] fix: enum options that are no integers and fields in
 static functions are refused instead of aborting

---
 src/cxy/lang/middle/bind/resolve.c |  6 +++++-
 src/cxy/lang/middle/sema/path.c    | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 0fe120c..cf48312 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -479,7 +479,11 @@ void bindEnumDecl(AstVisitor *visitor, AstNode *node)
             continue;
         }
 
-        TODO("support paths when eval is implemented");
+        logError(ctx->L,
+                 &value->loc,
+                 "the value of an enum option must be an integer literal",
+                 NULL);
+        value->tag = astError;
     }
     node->enumDecl.len = i;
     popScope(ctx->env);
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index 5533be9..70fefc4 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -160,8 +160,19 @@ static const Type *checkBasePathElement(AstVisitor *visitor,
     else {
         csAssert0(node->pathElement.resolvesTo);
         AstNode *target = node->pathElement.resolvesTo;
-        if (nodeIs(target, FieldDecl) || isMemberFunction(target))
+        if (nodeIs(target, FieldDecl) || isMemberFunction(target)) {
+            if (nodeIs(target, FieldDecl) && ctx->currentFunction &&
+                hasFlag(ctx->currentFunction, Static) &&
+                ctx->currentFunction->parentScope == target->parentScope) {
+                logError(ctx->L,
+                         &node->loc,
+                         "field '{s}' cannot be used in a static function, "
+                         "there is no object",
+                         (FormatArg[]){{.s = node->pathElement.name}});
+                return node->type = ERROR_TYPE(ctx);
+            }
             node->flags |= (flgMember | flgAddThis);
+        }
         return node->type =
                    target->type ?: checkTypeShallow(visitor, target, true);
     }
-- 
2.43.0


From b2f1c319fb756b0a5655c0fd25e1a5cad437129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:43 +0000
Subject: [PATCH 090/110] fix: tuple literals take the member types of what
 they are assigned to

---
 src/cxy/lang/frontend/types.c        | 12 +++++++--
 src/cxy/lang/middle/sema/assign.c    |  2 ++
 src/cxy/lang/middle/sema/call.c      |  7 +++++-
 src/cxy/lang/middle/sema/check.c     |  3 +++
 src/cxy/lang/middle/sema/check.h     |  2 ++
 src/cxy/lang/middle/sema/function.c  |  3 +++
 src/cxy/lang/middle/sema/struct.c    |  1 +
 src/cxy/lang/middle/sema/tuple.c     | 37 ++++++++++++++++++++++++++++
 src/cxy/lang/middle/sema/variables.c |  2 ++
 9 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index f9d702e..d5dc6ec 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -280,8 +280,16 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
         if (!typeIs(from, Tuple) || to->tuple.count != from->tuple.count)
             return false;
         for (u64 i = 0; i < from->tuple.count; i++) {
-            if (!isTypeAssignableFrom(to->tuple.members[i],
-                                      from->tuple.members[i]))
+            // tuples are copied as they are, members are not converted
+            const Type *left = unwrapType(to->tuple.members[i], NULL),
+                       *right = unwrapType(from->tuple.members[i], NULL);
+            if (left == right || typeIs(left, Auto))
+                continue;
+            if (isNumericType(left) || isNumericType(right) ||
+                typeIs(left, Union) || hasFlag(left, Optional) ||
+                (typeIs(left, Class) && typeIs(right, Class) &&
+                 getTypeDecl(left) != getTypeDecl(right)) ||
+                !isTypeAssignableFrom(left, right))
                 return false;
         }
         return true;
diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index e4f45fb..5e6999a 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -150,6 +150,8 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    rhs = adaptTupleExpr(ctx, right, lhs);
+
     bool isLeftAuto = typeIs(lhs, Auto);
 
     // TODO check r-value-ness
diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index f8a5b42..a06dcfd 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -94,9 +94,14 @@ static void checkFunctionCallEpilogue(AstVisitor *visitor,
     args = node->callExpr.args;
     u64 argsCount = countAstNodes(args);
     const Type **argTypes = mallocOrDie(sizeof(Type *) * argsCount);
+    const AstNode *decl = func->func.decl;
+    bool isOverloaded = decl && decl->list.first &&
+                        decl->list.first->list.link != NULL;
     arg = args;
     for (u64 i = 0; arg; arg = arg->next, i++) {
-        argTypes[i] = arg->type;
+        argTypes[i] = isOverloaded || i >= func->func.paramsCount
+                          ? arg->type
+                          : adaptTupleExpr(ctx, arg, func->func.params[i]);
     }
 
     callee_ = matchOverloadedFunction(
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index c8b25ab..55b4c02 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -240,6 +240,9 @@ static void checkReturnStmt(AstVisitor *visitor, AstNode *node)
             node->returnStmt.expr = expr;
         }
 
+        if (expr)
+            expr_ = adaptTupleExpr(ctx, expr, ret->type);
+
         if (!isTypeAssignableFrom(ret->type, expr_)) {
             logError(ctx->L,
                      &node->loc,
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index 4a95d48..14c59e4 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -232,6 +232,8 @@ void checkExceptionDecl(AstVisitor *visitor, AstNode *node);
 
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node);
 
+const Type *adaptTupleExpr(TypingContext *ctx, AstNode *node, const Type *type);
+
 // reports names of types where a value is needed
 bool checkIsValue(TypingContext *ctx, const AstNode *node);
 
diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 639cd56..cb9bfc0 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -402,6 +402,9 @@ const Type *checkFunctionBody(AstVisitor *visitor, AstNode *node)
     if (typeIs(body_, Auto))
         body_ = makeVoidType(ctx->types);
 
+    if (!nodeIs(body, BlockStmt))
+        body_ = adaptTupleExpr(ctx, body, ret_);
+
     if (ret_ == body_)
         return type;
 
diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index f9e0a8d..a96bde6 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -375,6 +375,7 @@ void checkStructExpr(AstVisitor *visitor, AstNode *node)
         field->type = member->type;
         field->fieldExpr.structField = member->decl;
         const Type *type = checkType(visitor, value);
+        type = adaptTupleExpr(ctx, value, member->type);
         if (!isTypeAssignableFrom(member->type, type)) {
             logError(ctx->L,
                      &value->loc,
diff --git a/src/cxy/lang/middle/sema/tuple.c b/src/cxy/lang/middle/sema/tuple.c
index 4736312..e36ba0b 100644
--- a/src/cxy/lang/middle/sema/tuple.c
+++ b/src/cxy/lang/middle/sema/tuple.c
@@ -105,6 +105,43 @@ void checkTupleExpr(AstVisitor *visitor, AstNode *node)
     implementTupleTypeCopyAndDestructor(visitor, node);
 }
 
+// Gives a tuple literal the tuple type of what it is assigned to, when only
+// the types of numbers and members of unions differ
+const Type *adaptTupleExpr(TypingContext *ctx, AstNode *node, const Type *type)
+{
+    const Type *to = resolveAndUnThisType(unwrapType(type, NULL)),
+               *from = unwrapType(node->type, NULL);
+    if (!nodeIs(node, TupleExpr) || !typeIs(to, Tuple) ||
+        !typeIs(from, Tuple) || to == from ||
+        to->tuple.count != from->tuple.count)
+        return node->type;
+
+    AstNode *element = node->tupleExpr.elements;
+    for (u64 i = 0; element; element = element->next, i++) {
+        const Type *member = unwrapType(to->tuple.members[i], NULL),
+                   *value = unwrapType(
+                       adaptTupleExpr(ctx, element, member), NULL);
+        if (member == value)
+            continue;
+        if (!isTypeAssignableFrom(member, value) ||
+            !(typeIs(member, Primitive) || typeIs(member, Union)))
+            return node->type;
+    }
+
+    AstNodeList elements = {};
+    element = node->tupleExpr.elements;
+    for (u64 i = 0; element; i++) {
+        AstNode *next = element->next;
+        element->next = NULL;
+        insertAstNode(&elements,
+                      transformToUnionValue(
+                          ctx, element, to->tuple.members[i], element->type));
+        element = next;
+    }
+    node->tupleExpr.elements = elements.first;
+    return node->type = to;
+}
+
 void checkTupleType(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
diff --git a/src/cxy/lang/middle/sema/variables.c b/src/cxy/lang/middle/sema/variables.c
index a7c36cf..58ec4de 100644
--- a/src/cxy/lang/middle/sema/variables.c
+++ b/src/cxy/lang/middle/sema/variables.c
@@ -68,6 +68,8 @@ void checkVarDecl(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    init_ = adaptTupleExpr(ctx, init, type_);
+
     if (isArrayType(type_) && nodeIs(init, ArrayExpr)) {
         const Type *target = resolveAndUnThisType(
                        unwrapType(type_, NULL)->array.elementType),
-- 
2.43.0


From e800e89bc05aefd6c06c6fc009be5a3ea9e4191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:30 +0000
Subject: [PATCH 091/110] fix: functions returning arrays are refused, C has no
 such functions

---
 src/cxy/lang/middle/sema/function.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index cb9bfc0..b4718f0 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -313,6 +313,13 @@ const Type *checkFunctionSignature(AstVisitor *visitor, AstNode *node)
     const Type *ret_ = ret ? checkType(visitor, ret) : makeAutoType(ctx->types);
 
     const Type *type = ret_;
+    if (typeIs(resolveAndUnThisType(unwrapType(ret_, NULL)), Array)) {
+        logError(ctx->L,
+                 &ret->loc,
+                 "functions cannot return an array, '{t}'",
+                 (FormatArg[]){{.t = ret_}});
+        type = ERROR_TYPE(ctx);
+    }
     u64 defaultValues = 0;
     for (u64 i = 0; param; param = param->next, i++) {
         params_[i] = param->type ?: checkType(visitor, param);
@@ -408,6 +415,15 @@ const Type *checkFunctionBody(AstVisitor *visitor, AstNode *node)
     if (ret_ == body_)
         return type;
 
+    if (typeIs(ret_, Auto) &&
+        typeIs(resolveAndUnThisType(unwrapType(body_, NULL)), Array)) {
+        logError(ctx->L,
+                 &node->loc,
+                 "functions cannot return an array, '{t}'",
+                 (FormatArg[]){{.t = body_}});
+        return node->type = ERROR_TYPE(ctx);
+    }
+
     if (!isTypeAssignableFrom(ret_, body_)) {
         logError(ctx->L,
                  &node->loc,
-- 
2.43.0


From f7ce71f5c5eba1986c9c4445c73938e82e689845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 092/110] fix: casts of a union to a type that is not its
 member are refused instead of aborting

---
 src/cxy/lang/middle/sema/cast.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 82f0275..aa87508 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -141,7 +141,18 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
     if (typeIs(expr, Union)) {
         node->castExpr.idx = findUnionTypeIndex(
             expr, typeIs(target, Pointer) ? target->pointer.pointed : target);
-        csAssert0(node->castExpr.idx != UINT32_MAX);
+        if (unwrapType(target, NULL) == unwrapType(expr, NULL)) {
+            replaceAstNodeWith(node, node->castExpr.expr);
+            return;
+        }
+        if (node->castExpr.idx == UINT32_MAX) {
+            logError(ctx->L,
+                     &node->loc,
+                     "type '{t}' cannot be cast to type '{t}'",
+                     (FormatArg[]){{.t = expr}, {.t = target}});
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
     }
 
     castLiteral(ctx, node);
-- 
2.43.0


From a82558102e42c73b2befd143025bb77e1c0717b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:38 +0000
Subject: [PATCH 093/110] fix: casts to a union make a value of the union

---
 src/cxy/lang/middle/sema/cast.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index aa87508..c36f00d 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -129,6 +129,15 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *expr = checkType(visitor, node->castExpr.expr);
     const Type *target = checkType(visitor, node->castExpr.to);
+    if (typeIs(unwrapType(target, NULL), Union) &&
+        isTypeAssignableFrom(target, expr)) {
+        AstNode *value =
+            transformToUnionValue(ctx, node->castExpr.expr, target, expr);
+        replaceAstNodeWith(node, value);
+        node->type = target;
+        return;
+    }
+
     if (!isTypeCastAssignable(target, expr)) {
         logError(ctx->L,
                  &node->loc,
@@ -141,10 +150,6 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
     if (typeIs(expr, Union)) {
         node->castExpr.idx = findUnionTypeIndex(
             expr, typeIs(target, Pointer) ? target->pointer.pointed : target);
-        if (unwrapType(target, NULL) == unwrapType(expr, NULL)) {
-            replaceAstNodeWith(node, node->castExpr.expr);
-            return;
-        }
         if (node->castExpr.idx == UINT32_MAX) {
             logError(ctx->L,
                      &node->loc,
-- 
2.43.0


From 0dc68877dda488f2df5b044d7f11a527b0cd39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:09 +0000
Subject: [PATCH 094/110] fix: casts to arrays and branches of ?: of different
 representation are refused, unions converted

---
 src/cxy/lang/frontend/types.c    | 4 ++++
 src/cxy/lang/middle/sema/check.c | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index d5dc6ec..8671f1b 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -375,6 +375,10 @@ bool isTypeCastAssignable(const Type *to, const Type *from)
         to = getOptionalTargetType(unwrappedTo);
     }
 
+    // arrays are no C values
+    if (unwrappedTo->tag == typArray)
+        return false;
+
     if (unwrappedTo->tag == unwrappedFrom->tag) {
         if (unwrappedTo->tag == typStruct || unwrappedTo->tag == typTuple)
             // values of different layout
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 55b4c02..9147dc8 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -1004,7 +1004,11 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
-    if (!isTypeAssignableFrom(body, otherwise)) {
+    // values of different representation, and arrays which are no C values
+    const Type *left = unwrapType(body, NULL);
+    if (typeIs(left, Array) ||
+        (hasFlag(left, Optional) && typeIs(otherwise, Primitive)) ||
+        !isTypeAssignableFrom(body, otherwise)) {
         logError(ctx->L,
                  &node->loc,
                  "operands to ternary expression ('?') have different types, "
@@ -1014,6 +1018,8 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    node->ternaryExpr.otherwise = transformToUnionValue(
+        ctx, node->ternaryExpr.otherwise, body, otherwise);
     node->type = body;
     if (then || orElse)
         transformTernaryToIfStmt(ctx, node, then, orElse);
-- 
2.43.0


From a667a81fcad3e4300412f0a88bcd894943f431a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:07 +0000
Subject: [PATCH 095/110] fix: for loops with two variables and enum cases in
 generic code, match in closures, defer within deferred blocks, number
 literals as cases

---
 src/cxy/lang/frontend/ast.c        | 2 +-
 src/cxy/lang/middle/bind/resolve.c | 1 +
 src/cxy/lang/middle/defer.c        | 4 ++++
 src/cxy/lang/middle/sema/switch.c  | 4 +++-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index ccd0d27..3712271 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2331,7 +2331,7 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
         CLONE_MANY(ifStmt, otherwise);
         break;
     case astForStmt:
-        CLONE_ONE(forStmt, var);
+        CLONE_MANY(forStmt, var);
         CLONE_ONE(forStmt, range);
         CLONE_ONE(forStmt, body);
         break;
diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index cf48312..d9d6d94 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -748,6 +748,7 @@ void bindCaseStmt(AstVisitor *visitor, AstNode *node)
 
     astVisit(visitor, node->caseStmt.match);
     if (node->caseStmt.variable) {
+        node->caseStmt.variable->parentScope = node;
         defineSymbol(ctx->env,
                      ctx->L,
                      node->caseStmt.variable->ident.value,
diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index 0d5a961..f6f8ab8 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -80,6 +80,10 @@ static void visitDeferStmt(AstVisitor *visitor, AstNode *node)
 {
     DeferContext *ctx = getAstVisitorContext(visitor);
     BlockScope *scope = ctx->bsc.scope;
+    // deferred statements can defer statements of their own
+    AstModifier block = ctx->block;
+    astVisit(visitor, node->deferStmt.stmt);
+    ctx->block = block;
     pushOnDynArray(&scope->data, &node->deferStmt.stmt);
     node->tag = astNoop;
     clearAstBody(node);
diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..8209957 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -139,8 +139,10 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
         getParentScopeWithTag(node, astSwitchStmt)->switchStmt.cond->type;
 
     if (node->caseStmt.match) {
+        node->caseStmt.match->parentScope = node;
         const Type *match = checkType(visitor, node->caseStmt.match);
-        if (!isTypeAssignableFrom(match, cond)) {
+        if (!isTypeAssignableFrom(match, cond) &&
+            !isTypeAssignableFrom(cond, match)) {
             logError(
                 ctx->L,
                 &node->caseStmt.match->loc,
-- 
2.43.0


From e3e438626e654b733a7f1af9150187dd3b619232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 096/110] fix: ranges outside loops and cases are refused,
 yields and ranges in generic code cloned, string cases and captured arrays
 compiled

---
 src/cxy/lang/backend/c/generate.c | 53 +++++++++++++++++++++++++++++--
 src/cxy/lang/frontend/ast.c       |  8 +++++
 src/cxy/lang/middle/sema/binary.c |  2 ++
 src/cxy/lang/middle/sema/check.h  |  6 ++++
 src/cxy/lang/middle/sema/for.c    | 16 ++++++++++
 src/cxy/lang/middle/sema/switch.c |  5 ++-
 6 files changed, 86 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index bc6831d..5170a93 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -956,6 +956,18 @@ static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (typeIs(unwrapType(node->assignExpr.lhs->type, NULL), Array)) {
+        // arrays captured by closures, C arrays are not assignable
+        format(getState(ctx), "__builtin_memcpy(", NULL);
+        astConstVisit(visitor, node->assignExpr.lhs);
+        format(getState(ctx), ", ", NULL);
+        astConstVisit(visitor, node->assignExpr.rhs);
+        format(getState(ctx), ", sizeof(", NULL);
+        astConstVisit(visitor, node->assignExpr.lhs);
+        format(getState(ctx), "))", NULL);
+        return;
+    }
+
     astConstVisit(visitor, node->assignExpr.lhs);
     format(getState(ctx),
            " {s} ",
@@ -1635,12 +1647,43 @@ static void visitWhileStmt(ConstAstVisitor *visitor, const AstNode *node)
     ctx->inLoop = previousInLoop;
 }
 
-static void visitSwitchStmt(ConstAstVisitor *visitor, const AstNode *node)
+static bool isStringSwitch(const AstNode *node)
+{
+    return nodeIs(node, SwitchStmt) &&
+           typeIs(unwrapType(node->switchStmt.cond->type, NULL), String);
+}
+
+// C switches on integers, strings are replaced with the number of their case
+static void generateStringSwitchCondition(ConstAstVisitor *visitor,
+                                          const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx), "switch (", NULL);
+    format(getState(ctx), "switch (({{ const char *__case = ", NULL);
     astConstVisit(visitor, node->switchStmt.cond);
-    format(getState(ctx), ") ", NULL);
+    format(getState(ctx), "; !__case ? 0 : ", NULL);
+    const AstNode *case_ = node->switchStmt.cases;
+    for (; case_; case_ = case_->next) {
+        if (case_->caseStmt.match == NULL)
+            continue;
+        format(getState(ctx), "!__builtin_strcmp(__case, ", NULL);
+        astConstVisit(visitor, case_->caseStmt.match);
+        format(getState(ctx),
+               ") ? {u32} : ",
+               (FormatArg[]){{.u32 = case_->caseStmt.idx}});
+    }
+    format(getState(ctx), "0; })) ", NULL);
+}
+
+static void visitSwitchStmt(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (isStringSwitch(node))
+        generateStringSwitchCondition(visitor, node);
+    else {
+        format(getState(ctx), "switch (", NULL);
+        astConstVisit(visitor, node->switchStmt.cond);
+        format(getState(ctx), ") ", NULL);
+    }
     generateMany(visitor, node->switchStmt.cases, "{{\n", "\n", NULL);
     if (node->switchStmt.defaultCase == NULL) {
         format(getState(ctx),
@@ -1690,6 +1733,10 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
                 format(getState(ctx), " ... ", NULL);
                 astConstVisit(visitor, match->rangeExpr.end);
             }
+            else if (nodeIs(match, StringLit))
+                format(getState(ctx),
+                       "{u32}",
+                       (FormatArg[]){{.u32 = node->caseStmt.idx}});
             else
                 astConstVisit(visitor, match);
             format(getState(ctx), ": {{{>}\n", NULL);
diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index 3712271..d262113 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2251,6 +2251,14 @@ AstNode *cloneAstNode(CloneAstConfig *config, const AstNode *node)
     case astReferenceOf:
         CLONE_ONE(unaryExpr, operand);
         break;
+    case astYieldStmt:
+        CLONE_ONE(yieldStmt, expr);
+        break;
+    case astRangeExpr:
+        CLONE_ONE(rangeExpr, start);
+        CLONE_ONE(rangeExpr, end);
+        CLONE_ONE(rangeExpr, step);
+        break;
     case astBinaryExpr:
         CLONE_ONE(binaryExpr, lhs);
         CLONE_ONE(binaryExpr, rhs);
diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 53b5875..1f7d501 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -414,6 +414,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
         node->type = getPrimitiveType(ctx->types, prtBool);
         break;
     case optRange: {
+        if (!checkIsRangeExpected(ctx, node))
+            return;
         if (!isIntegralType(left)) {
             logError(ctx->L,
                      &node->loc,
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index 14c59e4..24ef97b 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -57,6 +57,9 @@ typedef struct {
         };
     };
 
+    // the expression where a range (`a..b`) is expected
+    const AstNode *range;
+
     struct ExceptionCather {
         AstNode *result;
         AstNode *ex;
@@ -234,6 +237,9 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node);
 
 const Type *adaptTupleExpr(TypingContext *ctx, AstNode *node, const Type *type);
 
+// reports ranges where a value is needed
+bool checkIsRangeExpected(TypingContext *ctx, AstNode *node);
+
 // reports names of types where a value is needed
 bool checkIsValue(TypingContext *ctx, const AstNode *node);
 
diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 312daf0..9c12293 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -308,9 +308,24 @@ static void transformForCustomRange(AstVisitor *visitor,
     checkType(visitor, node);
 }
 
+bool checkIsRangeExpected(TypingContext *ctx, AstNode *node)
+{
+    if (ctx->range == node)
+        return true;
+    logError(ctx->L,
+             &node->loc,
+             "a range can only be iterated or matched by a case",
+             NULL);
+    node->type = ERROR_TYPE(ctx);
+    return false;
+}
+
 void checkRangeExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
+    if (!checkIsRangeExpected(ctx, node))
+        return;
+
     const Type *start = checkType(visitor, node->rangeExpr.start);
     if (typeIs(start, Error)) {
         node->type = ERROR_TYPE(ctx);
@@ -361,6 +376,7 @@ void checkForStmt(AstVisitor *visitor, AstNode *node)
     AstNode *variable = node->forStmt.var;
     u64 numVariables = countAstNodes(variable);
 
+    ctx->range = node->forStmt.range;
     const Type *range = checkType(visitor, node->forStmt.range);
     if (typeIs(range, Error)) {
         node->type = ERROR_TYPE(ctx);
diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index 8209957..754c5e5 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -140,6 +140,7 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
 
     if (node->caseStmt.match) {
         node->caseStmt.match->parentScope = node;
+        ctx->range = node->caseStmt.match;
         const Type *match = checkType(visitor, node->caseStmt.match);
         if (!isTypeAssignableFrom(match, cond) &&
             !isTypeAssignableFrom(cond, match)) {
@@ -267,9 +268,11 @@ void checkSwitchStmt(AstVisitor *visitor, AstNode *node)
         case_->parentScope = node;
         type = case_->type;
 
-        if (case_->caseStmt.match)
+        if (case_->caseStmt.match) {
             matches[i++] = (NodeComparisonContext){
                 .node = case_->caseStmt.match, .ctx = ctx};
+            case_->caseStmt.idx = i;
+        }
         else
             node->switchStmt.defaultCase = case_;
     }
-- 
2.43.0


From 68a46aef6cde7e33646858dce6d3c9053c717e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:52 +0000
Subject: [PATCH 097/110] fix: importing a name that is also declared is
 refused instead of crashing, private members cannot be reached through the
 module

---
 src/cxy/lang/middle/bind/discover.c | 15 ++++++++++-----
 src/cxy/lang/middle/bind/scope.c    | 19 ++++++++++++-------
 src/cxy/lang/middle/sema/path.c     | 14 +++++++++++++-
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/cxy/lang/middle/bind/discover.c b/src/cxy/lang/middle/bind/discover.c
index 4de84b7..9d85448 100644
--- a/src/cxy/lang/middle/bind/discover.c
+++ b/src/cxy/lang/middle/bind/discover.c
@@ -70,11 +70,16 @@ static void bindImportDecl(AstVisitor *visitor, AstNode *node)
     else {
         AstNode *entity = node->import.entities;
         for (; entity; entity = entity->next) {
-            defineSymbol(ctx->env,
-                         ctx->L,
-                         entity->importEntity.alias
-                             ?: entity->importEntity.name,
-                         entity->importEntity.target);
+            cstring name =
+                entity->importEntity.alias ?: entity->importEntity.name;
+            if (!isIgnoreVar(name) &&
+                !defineSymbol(
+                    ctx->env, NULL, name, entity->importEntity.target)) {
+                logError(ctx->L,
+                         &entity->loc,
+                         "symbol '{s}' already defined in current scope",
+                         (FormatArg[]){{.s = name}});
+            }
         }
     }
 }
diff --git a/src/cxy/lang/middle/bind/scope.c b/src/cxy/lang/middle/bind/scope.c
index 7d189d0..b33d15b 100644
--- a/src/cxy/lang/middle/bind/scope.c
+++ b/src/cxy/lang/middle/bind/scope.c
@@ -196,13 +196,18 @@ void defineFunctionDecl(Env *env, Log *L, const char *name, AstNode *node)
         &env->scope->symbols, &symbol, hash, sizeof(Symbol), compareSymbols);
     csAssert0(sym);
 
-    if (!wasInserted && L && !nodeIs(sym->node, FuncDecl)) {
-        logError(L,
-                 &node->loc,
-                 "symbol '{s}' already defined in current scope",
-                 (FormatArg[]){{.s = name}});
-
-        logNote(L, &sym->node->loc, "previously declared here", NULL);
+    // functions imported from other modules cannot be overloaded
+    bool isOverload = nodeIs(sym->node, FuncDecl) && sym->last != NULL;
+    if (!wasInserted && !isOverload) {
+        if (L) {
+            logError(L,
+                     &node->loc,
+                     "symbol '{s}' already defined in current scope",
+                     (FormatArg[]){{.s = name}});
+
+            logNote(L, &sym->node->loc, "previously declared here", NULL);
+        }
+        return;
     }
     else if (!wasInserted) {
         node->funcDecl.index = sym->index;
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index 70fefc4..fd00e40 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -90,8 +90,20 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
         decl = resolveMemberUpInheritance(ctx, parent, node, &flags, name, 0);
         resolved = decl ? decl->type : NULL;
         break;
-    case typInterface:
     case typModule:
+        decl = resolveMember(ctx, parent, node, &flags, name);
+        if (decl && !hasFlag(decl, Public)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "member '{s}' of module '{s}' cannot be used, it is not "
+                     "public",
+                     (FormatArg[]){{.s = name}, {.s = parent->name}});
+            logNote(ctx->L, &decl->loc, "declared here", NULL);
+            return node->type = ERROR_TYPE(ctx);
+        }
+        resolved = decl ? decl->type : NULL;
+        break;
+    case typInterface:
         decl = resolveMember(ctx, parent, node, &flags, name);
         resolved = decl ? decl->type : NULL;
         break;
-- 
2.43.0


From 6184665047b8a87ab265096d372eaa89e035b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:52 +0000
Subject: [PATCH 098/110] fix: cyclic imports and overlong paths are refused,
 import chains may be deeper than 15, conditional and test imports with braces
 are skipped whole

---
 src/cxy/core/e4c.h             |  2 +-
 src/cxy/driver/driver.c        | 97 +++++++++++++++++++++-------------
 src/cxy/driver/driver.h        | 11 ++++
 src/cxy/lang/frontend/parser.c | 31 ++++++++---
 4 files changed, 95 insertions(+), 46 deletions(-)

diff --git a/src/cxy/core/e4c.h b/src/cxy/core/e4c.h
index 585b863..89ea993 100644
--- a/src/cxy/core/e4c.h
+++ b/src/cxy/core/e4c.h
@@ -17,7 +17,7 @@ extern "C" {
 
 /* Maximum number of nested `try` blocks */
 #ifndef E4C_MAX_FRAMES
-#define E4C_MAX_FRAMES 16
+#define E4C_MAX_FRAMES 256
 #endif
 
 /* Maximum length (in bytes) of an exception message */
diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 60a68a0..7306e8a 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -343,49 +343,45 @@ static cstring getModuleLocation(CompilerDriver *driver,
 {
     cstring importer = source->loc.fileName,
             modulePath = source->stringLiteral.value;
-    csAssert0(modulePath && modulePath[0] != '\0');
-    char path[PATH_MAX];
-    u64 modulePathLen = strlen(modulePath);
-    if (modulePath[0] == '.' && modulePath[1] == '/') {
+    char path[PATH_MAX], tmp[PATH_MAX];
+    bool isRelative = modulePath[0] == '.' && modulePath[1] == '/';
+    int len;
+    if (isRelative) {
         cstring importerFilename = strrchr(importer, '/');
         if (importerFilename == NULL)
             return modulePath;
-        size_t importedLen = (importerFilename - importer) + 1;
-        modulePathLen -= 2;
-        memcpy(path, importer, importedLen);
-        memcpy(&path[importedLen], modulePath + 2, modulePathLen);
-        path[importedLen + modulePathLen] = '\0';
-        char tmp[PATH_MAX];
-        return makeString(driver->strings, realpath(path, tmp));
-    }
-    else if (!isInclude && driver->options.libDir != NULL) {
-        char tmp[PATH_MAX];
-        u64 libDirLen = strlen(driver->options.libDir);
-        memcpy(path, driver->options.libDir, libDirLen);
-        if (driver->options.libDir[libDirLen - 1] != '/')
-            path[libDirLen++] = '/';
-        memcpy(&path[libDirLen], modulePath, modulePathLen);
-        path[libDirLen + modulePathLen] = '\0';
-        return makeString(driver->strings, realpath(path, tmp));
+        len = snprintf(path,
+                       sizeof(path),
+                       "%.*s%s",
+                       (int)(importerFilename - importer) + 1,
+                       importer,
+                       modulePath + 2);
     }
     else {
-        char tmp[PATH_MAX];
-        memcpy(path, driver->currentDir, driver->currentDirLen);
-        if (driver->currentDir[driver->currentDirLen - 1] != '/')
-            path[driver->currentDirLen] = '/';
-        memcpy(&path[driver->currentDirLen + 1], modulePath, modulePathLen);
-        path[driver->currentDirLen + 1 + modulePathLen] = '\0';
-        if (realpath(path, tmp) == NULL) {
-            logError(
-                driver->L,
-                &source->loc,
-                "stdlib module/include path '{s}' not found, perhaps "
-                "import/include a local module with relative path './{s}' ",
-                (FormatArg[]){{.s = modulePath}, {.s = modulePath}});
-            return NULL;
-        }
-        return makeString(driver->strings, tmp);
+        cstring dir = isInclude || driver->options.libDir == NULL
+                          ? driver->currentDir
+                          : driver->options.libDir;
+        u64 dirLen = strlen(dir);
+        len = snprintf(path,
+                       sizeof(path),
+                       "%s%s%s",
+                       dir,
+                       dirLen > 0 && dir[dirLen - 1] == '/' ? "" : "/",
+                       modulePath);
+    }
+
+    if (modulePath[0] == '\0' || len >= sizeof(path) ||
+        realpath(path, tmp) == NULL) {
+        logError(driver->L,
+                 &source->loc,
+                 isRelative ? "module/include path '{s}' not found"
+                            : "stdlib module/include path '{s}' not found, "
+                              "perhaps import/include a local module with "
+                              "relative path './{s}' ",
+                 (FormatArg[]){{.s = modulePath}, {.s = modulePath}});
+        return NULL;
     }
+    return makeString(driver->strings, tmp);
 }
 
 cstring getIncludeFileLocation(CompilerDriver *driver,
@@ -424,7 +420,31 @@ const Type *compileModule(CompilerDriver *driver,
                 return NULL;
             }
 
+            u64 depth = 0;
+            for (ModuleImport *it = driver->importing; it; it = it->importer) {
+                if (strcmp(it->path, path) == 0) {
+                    logError(driver->L,
+                             &source->loc,
+                             "module '{s}' imports itself, directly or through "
+                             "modules that it imports",
+                             (FormatArg[]){{.s = path}});
+                    return NULL;
+                }
+                depth++;
+            }
+
+            if (depth >= CXY_MAX_IMPORT_DEPTH) {
+                logError(driver->L,
+                         &source->loc,
+                         "modules imported too deeply while importing '{s}'",
+                         (FormatArg[]){{.s = path}});
+                return NULL;
+            }
+
+            ModuleImport import = {.path = path, .importer = driver->importing};
+            driver->importing = &import;
             program = parseFile(driver, path, false);
+            driver->importing = import.importer;
             if (program == NULL)
                 return NULL;
 
@@ -507,8 +527,11 @@ bool compileFile(const char *fileName, CompilerDriver *driver)
     if (!configureDriverSourceDir(driver, &fileName))
         return false;
     startCompilerStats(driver);
+    ModuleImport import = {.path = fileName};
+    driver->importing = &import;
     AstNode *program =
         parseFile(driver, fileName, driver->options.cmd == cmdTest);
+    driver->importing = NULL;
     if (program) {
         program->flags |= flgMain;
         return compileProgram(driver, program, fileName, true);
diff --git a/src/cxy/driver/driver.h b/src/cxy/driver/driver.h
index 811bf00..564da4f 100644
--- a/src/cxy/driver/driver.h
+++ b/src/cxy/driver/driver.h
@@ -4,6 +4,7 @@
 #include <driver/options.h>
 #include <driver/stats.h>
 
+#include <core/e4c.h>
 #include <core/strpool.h>
 
 #ifdef __cplusplus
@@ -40,6 +41,15 @@ typedef struct {
     HashTable binaries;
 } CxyPackage;
 
+// A file that is being parsed and the file that imports it
+typedef struct ModuleImport {
+    cstring path;
+    struct ModuleImport *importer;
+} ModuleImport;
+
+// Each import that is being parsed needs a try block of the parser
+#define CXY_MAX_IMPORT_DEPTH (E4C_MAX_FRAMES - 8)
+
 typedef struct CompilerDriver {
     Options options;
     MemPool *pool;
@@ -57,6 +67,7 @@ typedef struct CompilerDriver {
     Log *L;
     TypeTable *types;
     AstNode *mainModule;
+    ModuleImport *importing;
     AstNodeList startup;
     CompilerPreprocessor preprocessor;
     CxyPackage package;
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index d456a15..d178a8c 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -3517,14 +3517,17 @@ static void skipImportTestDecl(Parser *P)
         hasEntities = true;
         while (!check(P, tokEoF, tokRBrace))
             advance(P);
+        consume0(P, tokRBrace);
         consume0(P, tokFrom);
     }
     else if (match(P, tokIdent)) {
         hasEntities = true;
+        if (match(P, tokAs))
+            consume0(P, tokIdent);
         consume0(P, tokFrom);
     }
     consume0(P, tokStringLiteral);
-    if (hasEntities && match(P, tokAs))
+    if (!hasEntities && match(P, tokAs))
         consume0(P, tokIdent);
 }
 
@@ -3617,6 +3620,18 @@ static AstNode *parseTopLevelDecl(Parser *P)
     return NULL;
 }
 
+static void skipBlock(Parser *P)
+{
+    consume0(P, tokLBrace);
+    for (u64 depth = 1; !isEoF(P); advance(P)) {
+        if (check(P, tokLBrace))
+            depth++;
+        else if (check(P, tokRBrace) && --depth == 0)
+            break;
+    }
+    consume0(P, tokRBrace);
+}
+
 static AstNode *conditionalTopLevelDecl(Parser *P)
 {
     Token tok = *current(P);
@@ -3636,9 +3651,7 @@ static AstNode *conditionalTopLevelDecl(Parser *P)
 
         if (!cond->boolLiteral.value) {
             // skip compilation block
-            consume0(P, tokLBrace);
-            skipUntil(P, tokRBrace);
-            consume0(P, tokRBrace);
+            skipBlock(P);
             if (match(P, tokElse))
                 return conditionalTopLevelDecl(P);
             else
@@ -3652,9 +3665,7 @@ static AstNode *conditionalTopLevelDecl(Parser *P)
             while (match(P, tokElse)) {
                 if (match(P, tokDefine))
                     skipUntil(P, tokLBrace);
-                consume0(P, tokLBrace);
-                skipUntil(P, tokRBrace);
-                consume0(P, tokRBrace);
+                skipBlock(P);
             }
             return nodes;
         }
@@ -3725,7 +3736,11 @@ AstNode *parseProgram(Parser *P)
                 AstNode *decl = comptime(P, comptimeDeclaration);
                 if (decl)
                     listAddAstNode(&decls, decl);
-            } E4C_CATCH(ParserException) { synchronize(E4C_EXCEPTION.ctx); })
+            } E4C_CATCH(ParserException) {
+                synchronize(E4C_EXCEPTION.ctx);
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+        if (aborted)
+            return NULL;
     }
 
     return newAstNode(P,
-- 
2.43.0


From e6740ffc6fa35fff189c8c98f667a90719b60c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:55 +0000
Subject: [PATCH 099/110] fix: names that are reserved in C, or joined from the
 names of their owners, do not clash in the generated code, modules have
 different names

---
 src/cxy/driver/driver.c           |  41 +++++++++++
 src/cxy/driver/driver.h           |   8 ++
 src/cxy/lang/backend/c/generate.c | 118 ++++++++++++++++++++++--------
 src/cxy/lang/middle/mangle.c      |   4 +-
 4 files changed, 138 insertions(+), 33 deletions(-)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 7306e8a..9e58964 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -395,6 +395,36 @@ cstring getIncludeFileLocation(CompilerDriver *driver,
                              true);
 }
 
+// The names of declarations are made unique by the name of their module
+static bool addModuleName(CompilerDriver *driver,
+                          const FileLoc *loc,
+                          cstring name,
+                          cstring path)
+{
+    if (strcmp(name, "builtins") == 0) {
+        logError(driver->L,
+                 loc,
+                 "module name '{s}' is reserved",
+                 (FormatArg[]){{.s = name}});
+        return false;
+    }
+
+    for (ModuleName *it = driver->modules; it; it = it->next) {
+        if (it->name == name && it->path != path) {
+            logError(driver->L,
+                     loc,
+                     "a module with name '{s}' is already declared by '{s}'",
+                     (FormatArg[]){{.s = name}, {.s = it->path}});
+            return false;
+        }
+    }
+
+    ModuleName *module = allocFromMemPool(driver->pool, sizeof(ModuleName));
+    *module = (ModuleName){.name = name, .path = path, .next = driver->modules};
+    driver->modules = module;
+    return true;
+}
+
 const Type *compileModule(CompilerDriver *driver,
                           const AstNode *source,
                           AstNode *entities,
@@ -456,6 +486,11 @@ const Type *compileModule(CompilerDriver *driver,
                 return NULL;
             }
 
+            cstring name = program->program.module->moduleDecl.name;
+            if (!addModuleName(
+                    driver, &program->program.module->loc, name, path))
+                return NULL;
+
             program->flags |= flgImportedModule;
             if (!compileProgram(driver, program, path, false))
                 return NULL;
@@ -533,6 +568,12 @@ bool compileFile(const char *fileName, CompilerDriver *driver)
         parseFile(driver, fileName, driver->options.cmd == cmdTest);
     driver->importing = NULL;
     if (program) {
+        AstNode *module = program->program.module;
+        if (module && !addModuleName(driver,
+                                     &module->loc,
+                                     module->moduleDecl.name,
+                                     fileName))
+            return false;
         program->flags |= flgMain;
         return compileProgram(driver, program, fileName, true);
     }
diff --git a/src/cxy/driver/driver.h b/src/cxy/driver/driver.h
index 564da4f..f395c9f 100644
--- a/src/cxy/driver/driver.h
+++ b/src/cxy/driver/driver.h
@@ -47,6 +47,13 @@ typedef struct ModuleImport {
     struct ModuleImport *importer;
 } ModuleImport;
 
+// The name of a module and the file that declares it
+typedef struct ModuleName {
+    cstring name;
+    cstring path;
+    struct ModuleName *next;
+} ModuleName;
+
 // Each import that is being parsed needs a try block of the parser
 #define CXY_MAX_IMPORT_DEPTH (E4C_MAX_FRAMES - 8)
 
@@ -68,6 +75,7 @@ typedef struct CompilerDriver {
     TypeTable *types;
     AstNode *mainModule;
     ModuleImport *importing;
+    ModuleName *modules;
     AstNodeList startup;
     CompilerPreprocessor preprocessor;
     CxyPackage package;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 5170a93..96f1d74 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -81,6 +81,45 @@ static void generateMany(ConstAstVisitor *visitor,
         format(getState(ctx), close, NULL);
 }
 
+static bool isNameInList(const cstring *names, u64 count, cstring name)
+{
+    for (u64 i = 0; i < count; i++) {
+        if (strcmp(names[i], name) == 0)
+            return true;
+    }
+    return false;
+}
+
+// Names that are ordinary in cxy but cannot name a type or a member in C. The
+// separator that is appended is never part of a name in cxy
+static void generateMemberName(FormatState *state, cstring name)
+{
+    static const cstring reserved[] = {
+        "asm",      "auto",     "break",    "bool",     "case",     "char",
+        "const",    "continue", "default",  "do",       "double",   "else",
+        "enum",     "extern",   "false",    "float",    "for",      "goto",
+        "if",       "inline",   "int",      "long",     "register", "restrict",
+        "return",   "short",    "signed",   "sizeof",   "static",   "struct",
+        "switch",   "true",     "typedef",  "typeof",   "union",    "unsigned",
+        "void",     "volatile", "while",    "nullptr",  "NULL",     "_Atomic",
+        "_Bool",    "_Complex", "_Float16", "_Generic", "_Imaginary", "linux",
+        "unix",     "errno",    "int8_t",   "int16_t",  "int32_t",  "int64_t",
+        "uint8_t",  "uint16_t", "uint32_t", "uint64_t", "wchar_t",  "uintptr_t",
+        "intptr_t", "size_t",   "likely",   "unlikely", "unreachable"};
+    appendString(state, name);
+    if (isNameInList(reserved, sizeof__(reserved), name))
+        append(state, "$", 1);
+}
+
+static void generateLocalName(FormatState *state, cstring name)
+{
+    static const cstring reserved[] = {
+        "assert", "EOF", "stdin", "stdout", "stderr", "alloca"};
+    generateMemberName(state, name);
+    if (isNameInList(reserved, sizeof__(reserved), name))
+        append(state, "$", 1);
+}
+
 static void generateCustomTypeName(CodegenContext *cyx,
                                    FormatState *state,
                                    const Type *type,
@@ -88,9 +127,9 @@ static void generateCustomTypeName(CodegenContext *cyx,
 {
     if (!typeIs(type, Func) || type->func.decl == NULL) {
         if (type->ns)
-            format(state, "{s}_", (FormatArg[]){{.s = type->ns}});
+            format(state, "{s}$", (FormatArg[]){{.s = type->ns}});
         if (type->name)
-            format(state, "{s}", (FormatArg[]){{.s = type->name}});
+            generateMemberName(state, type->name);
         else
             format(state,
                    "{s}{u64}",
@@ -173,10 +212,10 @@ static void generateEnumType(CodegenContext *ctx, const Type *type)
         generateCustomTypeName(ctx, typeState(ctx), type, "Enum");
         if (option->decl->enumOption.value)
             format(typeState(ctx),
-                   "_{s} = {i64},",
+                   "${s} = {i64},",
                    (FormatArg[]){{.s = option->name}, {.i64 = option->value}});
         else
-            format(typeState(ctx), "_{s},", (FormatArg[]){{.s = option->name}});
+            format(typeState(ctx), "${s},", (FormatArg[]){{.s = option->name}});
     }
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
@@ -207,7 +246,9 @@ static void generateClassType(CodegenContext *ctx, const Type *type)
             continue;
         format(typeState(ctx), "\n", NULL);
         generateTypeName(ctx, typeState(ctx), member->type);
-        format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+        append(typeState(ctx), " ", 1);
+        generateMemberName(typeState(ctx), member->name);
+        append(typeState(ctx), ";", 1);
     }
 
     format(typeState(ctx), "{<}\n};\n\n", NULL);
@@ -249,13 +290,18 @@ static void generateStructType(CodegenContext *ctx, const Type *type)
         if (findAttribute(member->decl, S_atomic))
             format(typeState(ctx), "_Atomic ", NULL);
         generateTypeName(ctx, typeState(ctx), member->type);
-        if (member->decl->structField.bits != 0)
+        if (member->decl->structField.bits != 0) {
+            append(typeState(ctx), " ", 1);
+            generateMemberName(typeState(ctx), member->name);
             format(typeState(ctx),
-                   " {s}:{u32};",
-                   (FormatArg[]){{.s = member->name},
-                                 {.u32 = member->decl->structField.bits}});
-        else
-            format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+                   ":{u32};",
+                   (FormatArg[]){{.u32 = member->decl->structField.bits}});
+        }
+        else {
+            append(typeState(ctx), " ", 1);
+            generateMemberName(typeState(ctx), member->name);
+            append(typeState(ctx), ";", 1);
+        }
     }
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
@@ -285,7 +331,9 @@ static void generateExceptionType(CodegenContext *ctx, const Type *type)
     for (; member; member = member->next) {
         format(typeState(ctx), "\n", NULL);
         generateTypeName(ctx, typeState(ctx), member->type);
-        format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->_name}});
+        append(typeState(ctx), " ", 1);
+        generateMemberName(typeState(ctx), member->_name);
+        append(typeState(ctx), ";", 1);
     }
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
@@ -388,7 +436,9 @@ static void generateUntaggedUnionType(CodegenContext *ctx, const Type *type)
             &type->untaggedUnion.members->members[i];
         format(typeState(ctx), "\n", NULL);
         generateTypeName(ctx, typeState(ctx), member->type);
-        format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+        append(typeState(ctx), " ", 1);
+        generateMemberName(typeState(ctx), member->name);
+        append(typeState(ctx), ";", 1);
     }
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
@@ -633,24 +683,25 @@ static inline void generateStructOrClassName(FormatState *state,
     AstNode *parent = node->parentScope;
     if (parent) {
         generateModuleName(state, parent);
-        appendString(state, "_");
+        appendString(state, "$");
     }
     format(state, "{s}", (FormatArg[]){{.s = node->_namedNode.name}});
 }
 
 static void generateVariableName(FormatState *state, const AstNode *node)
 {
+    cstring name = node->varDecl.name ?: node->varDecl.names->ident.value;
     if (hasFlag(node, TopLevelDecl)) {
         AstNode *parent = node->parentScope;
         if (nodeIs(parent, Program))
             format(state,
-                   "{s}_",
+                   "{s}$",
                    (FormatArg[]){{.s = getModuleNamespace(parent)}});
     }
-    format(state,
-           "{s}",
-           (FormatArg[]){
-               {.s = node->varDecl.name ?: node->varDecl.names->ident.value}});
+    if (hasFlag(node, TopLevelDecl) || hasFlag(node, Extern))
+        appendString(state, name);
+    else
+        generateLocalName(state, name);
 }
 
 static void generateFunctionName(FormatState *state, const AstNode *node)
@@ -660,11 +711,11 @@ static void generateFunctionName(FormatState *state, const AstNode *node)
         AstNode *parent = node->parentScope;
         if (nodeIs(parent, Program)) {
             generateModuleName(state, parent);
-            appendString(state, "_");
+            appendString(state, "$");
         }
         else if (isClassOrStructAstNode(parent)) {
             generateStructOrClassName(state, parent);
-            appendString(state, "_");
+            appendString(state, "$");
         }
         else if (node->type->name) {
             csAssert0(false);
@@ -706,7 +757,7 @@ static void generateEnumOptionName(CodegenContext *ctx,
     if (nodeIs(node, Identifier))
         node = node->ident.resolvesTo;
     csAssert0(nodeIs(node, EnumOptionDecl));
-    format(state, "_{s}", (FormatArg[]){{.s = node->enumOption.name}});
+    format(state, "${s}", (FormatArg[]){{.s = node->enumOption.name}});
 }
 
 static void generateMainFunction(CodegenContext *ctx, const Type *type)
@@ -867,8 +918,10 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
             format(getState(ctx), ")", NULL);
             format(getState(ctx), "this)", (FormatArg[]){{.s = name}});
         }
+        else if (nodeIs(resolved, FuncParamDecl))
+            generateLocalName(getState(ctx), name);
         else
-            format(getState(ctx), "{s}", (FormatArg[]){{.s = name}});
+            generateMemberName(getState(ctx), name);
     }
 }
 
@@ -1171,8 +1224,9 @@ static void visitIndexExpr(ConstAstVisitor *visitor, const AstNode *node)
 static void visitFieldExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(
-        getState(ctx), ".{s} = ", (FormatArg[]){{.s = node->fieldExpr.name}});
+    append(getState(ctx), ".", 1);
+    generateMemberName(getState(ctx), node->fieldExpr.name);
+    append(getState(ctx), " = ", 3);
     bool nullInit = nodeIs(node->fieldExpr.value, NullLit) &&
                     (isTupleType(node->type) || isUnionType(node->type) ||
                      isArrayType(node->type));
@@ -1822,8 +1876,8 @@ static void visitFuncParamDecl(ConstAstVisitor *visitor, const AstNode *node)
     }
     else {
         generateTypeName(ctx, getState(ctx), node->type);
-        format(
-            getState(ctx), " {s}", (FormatArg[]){{.s = node->funcParam.name}});
+        append(getState(ctx), " ", 1);
+        generateLocalName(getState(ctx), node->funcParam.name);
     }
 }
 
@@ -1908,7 +1962,7 @@ static void generateTestMainFunction(CodegenContext *ctx,
     sprintf(testsVariable,
             "%s%sallTestCases",
             moduleName ?: "",
-            moduleName ? "_" : "");
+            moduleName ? "$" : "");
 
     if (ctx->hasTestCases) {
         format(getState(ctx),
@@ -1919,7 +1973,7 @@ static void generateTestMainFunction(CodegenContext *ctx,
     }
     format(getState(ctx),
            "int main(int argc, char *argv[]) {{{>}\n"
-           "return builtins_runTests((SliceI_sE){{.data = argv, .len = argc}, "
+           "return builtins$runTests((SliceI_sE){{.data = argv, .len = argc}, "
            "\"{s}\", (SliceI_TsFU_ZVoid_ZException____E){{",
            (FormatArg[]){{.s = testFile}});
     if (ctx->hasTestCases) {
@@ -2096,7 +2150,7 @@ static void generateCodeEpilogue(FILE *f)
                "#endif\n"
                "\n"
                "#ifdef __MAIN_RAISED_TYPE__\n"
-               "    __MAIN_RAISED_TYPE__ ex = _main(__MAIN_ARGS__);\n"
+               "    __MAIN_RAISED_TYPE__ ex = $main(__MAIN_ARGS__);\n"
                "    if (ex.tag == 1) {\n"
                "         panicUnhandledException(ex._1);\n"
                "         unreachable();\n"
@@ -2111,9 +2165,9 @@ static void generateCodeEpilogue(FILE *f)
                "#endif\n"
                "#else\n"
                "#ifdef __MAIN_RETURNS__\n"
-               "      return _main(__MAIN_ARGS__);\n"
+               "      return $main(__MAIN_ARGS__);\n"
                "#else\n"
-               "      _main(__MAIN_ARGS__);\n"
+               "      $main(__MAIN_ARGS__);\n"
                "      return 0;\n"
                "#endif\n"
                "#endif\n"
diff --git a/src/cxy/lang/middle/mangle.c b/src/cxy/lang/middle/mangle.c
index d5a99d1..c611b27 100644
--- a/src/cxy/lang/middle/mangle.c
+++ b/src/cxy/lang/middle/mangle.c
@@ -112,8 +112,10 @@ static void mangleType(FormatState *state, const Type *type)
         break;
     default:
         append(state, "Z", 1);
-        if (type->ns)
+        if (type->ns) {
             appendString(state, type->ns);
+            append(state, "$", 1);
+        }
         if (type->name != NULL) {
             appendString(state, type->name);
         }
-- 
2.43.0


From 2149c1d58d97a7a03836200a40181243a593b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:40 +0000
Subject: [PATCH 100/110] fix: types of the main file do not clash with those
 of the builtins and of C

---
 src/cxy/lang/frontend/types.c       |  4 ++--
 src/cxy/lang/middle/builtins.c      | 11 +++++++++++
 src/cxy/lang/middle/builtins.h      |  2 ++
 src/cxy/lang/middle/sema/check.c    |  3 +--
 src/cxy/lang/middle/sema/generics.c |  7 ++-----
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index 8671f1b..0993247 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -42,7 +42,7 @@ static void printManyTypes(FormatState *state,
 
 static void printNamedType(FormatState *state, const Type *type)
 {
-    if (type->ns)
+    if (type->ns && type->ns[0])
         format(state, "{s}.", (FormatArg[]){{.s = type->ns}});
     if (type->name) {
         format(state, "{s}", (FormatArg[]){{.s = type->name}});
@@ -1009,7 +1009,7 @@ void printType_(FormatState *state, const Type *type, bool keyword)
         printGenericType(state, type);
         break;
     case typApplied:
-        if (type->applied.from->ns)
+        if (type->applied.from->ns && type->applied.from->ns[0])
             format(state, "{s}.", (FormatArg[]){{.s = type->applied.from->ns}});
         format(state, "{s}[", (FormatArg[]){{.s = type->applied.from->name}});
 
diff --git a/src/cxy/lang/middle/builtins.c b/src/cxy/lang/middle/builtins.c
index eb9ba68..1548829 100644
--- a/src/cxy/lang/middle/builtins.c
+++ b/src/cxy/lang/middle/builtins.c
@@ -39,6 +39,17 @@ static inline void addOverridableBuiltin(cstring name)
                       comparePointers);
 }
 
+cstring getProgramNamespace(const AstNode *program)
+{
+    if (program->program.module)
+        return program->program.module->moduleDecl.name;
+    // the types of the main file are not those of the builtins
+    static const char none[] = "";
+    if (!isBuiltinsInitialized() || hasFlag(program, BuiltinsModule))
+        return NULL;
+    return none;
+}
+
 bool isBuiltinsInitialized() { return cxy_builtins.module != NULL; }
 
 void initializeBuiltins(Log *L)
diff --git a/src/cxy/lang/middle/builtins.h b/src/cxy/lang/middle/builtins.h
index 2d35f55..411f12f 100644
--- a/src/cxy/lang/middle/builtins.h
+++ b/src/cxy/lang/middle/builtins.h
@@ -24,6 +24,8 @@ extern "C" {
 // clang-format on
 
 bool isBuiltinsInitialized();
+// Namespace of the types that are declared in a program
+cstring getProgramNamespace(const AstNode *program);
 void initializeBuiltins(Log *L);
 void setBuiltinsModule(const Type *module, const FileLoc *loc);
 AstNode *findBuiltinDecl(cstring name);
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 9147dc8..bf3d8f2 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -1058,8 +1058,7 @@ const Type *checkMaybeComptime(AstVisitor *visitor, AstNode *node)
 
 AstNode *checkAst(CompilerDriver *driver, AstNode *node)
 {
-    cstring ns =
-        node->program.module ? node->program.module->moduleDecl.name : NULL;
+    cstring ns = getProgramNamespace(node);
     TypingContext context = {.L = driver->L,
                              .pool = driver->pool,
                              .strings = driver->strings,
diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index d80456a..ca74405 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -16,11 +16,8 @@ static cstring pushGenericDeclNamespace(TypeTable *types, const AstNode *decl)
 {
     cstring namespace = types->currentNamespace;
     AstNode *parent = decl->parentScope;
-    if (!nodeIs(parent, Program) || parent->program.module == NULL) {
-        types->currentNamespace = NULL;
-    }
-    else
-        types->currentNamespace = parent->program.module->moduleDecl.name;
+    types->currentNamespace =
+        nodeIs(parent, Program) ? getProgramNamespace(parent) : NULL;
     return namespace;
 }
 
-- 
2.43.0


From 7a5067dfcb90d4182f89c4b21b807285752b9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:22 +0000
Subject: [PATCH 101/110] fix: classes extend and construct classes that are
 named through modules and aliases

---
 src/cxy/lang/frontend/ast.c        |  9 ++++++--
 src/cxy/lang/middle/bind/resolve.c | 37 ++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index d262113..f3a5165 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2820,8 +2820,13 @@ AstNode *resolveAstNode(AstNode *node)
     switch (node->tag) {
     case astTypeDecl:
         return resolveAstNode(node->typeDecl.aliased);
-    case astPath:
-        return resolveAstNode(node->path.elements);
+    case astPath: {
+        // a declaration of a module is the last element, `module.Name`
+        AstNode *elem = node->path.elements;
+        while (elem->next && nodeIs(elem->pathElement.resolvesTo, ImportDecl))
+            elem = elem->next;
+        return resolveAstNode(elem);
+    }
     case astPathElem:
         return resolveAstNode(node->pathElement.resolvesTo);
     case astIdentifier:
diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index d9d6d94..ee576ff 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -537,6 +537,42 @@ void bindStructDecl(AstVisitor *visitor, AstNode *node)
     popScope(ctx->env);
 }
 
+// The members that a class inherits are found before types are checked, a base
+// class `module.Base` is therefore looked up in its module here
+static void bindModuleBase(BindContext *ctx, AstNode *base)
+{
+    if (!nodeIs(base, Path))
+        return;
+    AstNode *elem = base->path.elements;
+    AstNode *import = elem->pathElement.resolvesTo;
+    if (elem->next == NULL || !nodeIs(import, ImportDecl) ||
+        !typeIs(import->type, Module))
+        return;
+
+    cstring name = elem->next->pathElement.name;
+    const NamedTypeMember *member = findModuleMember(import->type, name);
+    if (member == NULL || !hasFlag(member->decl, Public))
+        return;
+    elem->next->pathElement.resolvesTo = (AstNode *)member->decl;
+    base->path.elements = elem->next;
+}
+
+static void bindBaseClass(BindContext *ctx, AstNode *base)
+{
+    bindModuleBase(ctx, base);
+    // an alias of the class
+    for (u64 i = 0; nodeIs(base, Path) && i < 16; i++) {
+        const AstNode *decl = resolvePath(base);
+        if (!nodeIs(decl, TypeDecl) || !nodeIs(decl->typeDecl.aliased, Path) ||
+            decl->typeDecl.aliased->path.elements->pathElement.resolvesTo ==
+                NULL)
+            break;
+        AstNode *aliased = deepCloneAstNode(ctx->pool, decl->typeDecl.aliased);
+        base->path.elements = aliased->path.elements;
+        bindModuleBase(ctx, base);
+    }
+}
+
 void bindClassDecl(AstVisitor *visitor, AstNode *node)
 {
     BindContext *ctx = getAstVisitorContext(visitor);
@@ -544,6 +580,7 @@ void bindClassDecl(AstVisitor *visitor, AstNode *node)
 
     if (nodeIs(node, ClassDecl)) {
         astVisit(visitor, node->classDecl.base);
+        bindBaseClass(ctx, node->classDecl.base);
         astVisitManyNodes(visitor, node->classDecl.implements);
     }
 
-- 
2.43.0


From d732207eeb8ef8efaab8c04a0d93998214fa09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:36 +0000
Subject: [PATCH 102/110] fix: a class is constructed through an alias of an
 imported class

---
 src/cxy/lang/middle/sema/call.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index a06dcfd..abe5d66 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -190,8 +190,9 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
     if (isClassOrStructType(rawType)) {
         AstNode *symbol = NULL;
         if (nodeIs(callee, Path)) {
-            symbol = resolveAstNode(resolvePath(callee));
-            if (nodeIs(symbol, GenericParam))
+            AstNode *decl = resolvePath(callee);
+            symbol = resolveAstNode(decl);
+            if (nodeIs(symbol, GenericParam) || nodeIs(decl, TypeDecl))
                 symbol = getTypeDecl(rawType);
         }
         else if (nodeIs(callee, TypeRef) || nodeIs(callee, TypeDecl)) {
-- 
2.43.0


From d0b8f0c874ca0ffe400272c155a85c60e3b9c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 103/110] fix: test runner: count more than 127 failures, files
 without a module, tests named like functions

---
 src/cxy/lang/backend/c/generate.c | 8 ++++----
 src/cxy/lang/middle/shake/shake.c | 3 ++-
 src/cxy/runtime/builtins.cxy      | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 96f1d74..84b36b9 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1959,10 +1959,10 @@ static void generateTestMainFunction(CodegenContext *ctx,
 {
     csAssert0(ctx->backend->testMode);
     char testsVariable[1024] = {0};
-    sprintf(testsVariable,
-            "%s%sallTestCases",
-            moduleName ?: "",
-            moduleName ? "$" : "");
+    snprintf(testsVariable,
+            sizeof(testsVariable),
+            "%s$allTestCases",
+            moduleName ?: "");
 
     if (ctx->hasTestCases) {
         format(getState(ctx),
diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index 6a89750..e4f64f5 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -931,7 +931,8 @@ static void shakeTestDecl(AstVisitor *visitor, AstNode *node)
 
     char buf[64];
     snprintf(buf, 64, "%" PRIu64, idx);
-    cstring name = makeStringConcat(ctx->strings, "test", buf);
+    // no declaration of the file has such a name
+    cstring name = makeStringConcat(ctx->strings, "test$", buf);
     cstring testName = node->testDecl.name ?: name;
     AstNode *body = node->testDecl.body;
     astVisit(visitor, body);
diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 6578f00..f1c664b 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1591,7 +1591,7 @@ macro ok(cond) {
                   testFile: string,
                   tests: Slice[(string, func() -> !void)] ) {
 
-        var failed = 0;
+        var failed = 0`i32;
         if (len!(tests) == 0) {
             stdout << "0 tests defined in " << testFile << "\n";
             return 0
-- 
2.43.0


From 35e3ed0e0dbe5b490d5944b395cd5d172282a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 104/110] fix: a main file with a module header compiles;
 modules can have a function named main

---
 src/cxy/lang/backend/c/generate.c   | 15 ++++++++++-----
 src/cxy/lang/middle/sema/function.c |  3 ++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 84b36b9..a4958b9 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -760,10 +760,15 @@ static void generateEnumOptionName(CodegenContext *ctx,
     format(state, "${s}", (FormatArg[]){{.s = node->enumOption.name}});
 }
 
-static void generateMainFunction(CodegenContext *ctx, const Type *type)
+static void generateMainFunction(CodegenContext *ctx, const AstNode *node)
 {
 #define NewLine() format(getState(ctx), "\n", NULL)
+    const Type *type = node->type;
     const Type *ret = type->func.retType;
+    // the name has the module's name in front if the main file has one
+    format(getState(ctx), "#define __MAIN_FUNC__ ", NULL);
+    generateFunctionName(getState(ctx), node);
+    NewLine();
     if (isResultType(ret)) {
         const Type *dctor = ret->tUnion.destructorFunc;
         csAssert0(dctor);
@@ -1950,7 +1955,7 @@ static void visitFuncDecl(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "\n", NULL);
 
     if (!ctx->backend->testMode && hasFlag(node, Main))
-        generateMainFunction(ctx, node->type);
+        generateMainFunction(ctx, node);
 }
 
 static void generateTestMainFunction(CodegenContext *ctx,
@@ -2150,7 +2155,7 @@ static void generateCodeEpilogue(FILE *f)
                "#endif\n"
                "\n"
                "#ifdef __MAIN_RAISED_TYPE__\n"
-               "    __MAIN_RAISED_TYPE__ ex = $main(__MAIN_ARGS__);\n"
+               "    __MAIN_RAISED_TYPE__ ex = __MAIN_FUNC__(__MAIN_ARGS__);\n"
                "    if (ex.tag == 1) {\n"
                "         panicUnhandledException(ex._1);\n"
                "         unreachable();\n"
@@ -2165,9 +2170,9 @@ static void generateCodeEpilogue(FILE *f)
                "#endif\n"
                "#else\n"
                "#ifdef __MAIN_RETURNS__\n"
-               "      return $main(__MAIN_ARGS__);\n"
+               "      return __MAIN_FUNC__(__MAIN_ARGS__);\n"
                "#else\n"
-               "      $main(__MAIN_ARGS__);\n"
+               "      __MAIN_FUNC__(__MAIN_ARGS__);\n"
                "      return 0;\n"
                "#endif\n"
                "#endif\n"
diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index b4718f0..4e920cc 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -479,7 +479,8 @@ void checkFunctionType(AstVisitor *visitor, AstNode *node)
 void checkFunctionDecl(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
-    if (node->funcDecl.name == S_main) {
+    // only the main file's, modules can have a function with that name too
+    if (node->funcDecl.name == S_main && hasFlag(ctx->root.parent, Main)) {
         node->flags |= flgMain;
         ctx->root.parent->flags |= flgExecutable;
     }
-- 
2.43.0


From e252785080e237c7db79ac16e1ad2a0d04c4a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 105/110] fix: base64: decoding of short strings and the URL
 variant

---
 src/cxy/stdlib/base64.cxy | 121 ++++++++++++++------------------------
 1 file changed, 44 insertions(+), 77 deletions(-)

diff --git a/src/cxy/stdlib/base64.cxy b/src/cxy/stdlib/base64.cxy
index 99b2bf5..8e27e5d 100644
--- a/src/cxy/stdlib/base64.cxy
+++ b/src/cxy/stdlib/base64.cxy
@@ -81,49 +81,51 @@ pub func encode[T](os: &OutputStream, value: &const T) {
 
 pub exception Base64Error(msg: string) => msg
 
-pub func decodeBuffer(os: &OutputStream, data: ^const void, size: u64): !void {
-    var sz = size
+// appends the bytes encoded by the given characters (without padding),
+// returns false if these are not base64
+func decodeChars(os: &OutputStream, p: ^const u8, size: u64, url: bool) {
+    var bits = 0`u32;
+    var count = 0`u32;
     var i = 0`u64;
-    const p = data !: ^const u8;
-
-    while (sz > 4) {
-        const it = ptroff!(p + i)
-        if (ASCII_LOOKUP.[it.[0]] == 64 ||
-            ASCII_LOOKUP.[it.[1]] == 64 ||
-            ASCII_LOOKUP.[it.[2]] == 64 ||
-            ASCII_LOOKUP.[it.[3]] == 64)
-        {
-            // invalid base64 character
-            raise Base64Error("base64::decode - invalid base64 encoded string passed");
+    while (i < size) {
+        var c = p.[i++];
+        if (url) {
+            if (c == <u8>'-')
+                c = <u8>'+'
+            else if (c == <u8>'_')
+                c = <u8>'/'
+            else if ((c == <u8>'+') || (c == <u8>'/'))
+                return false
         }
 
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4))
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2))
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]))
-        sz -= 4;
-        i += 4
+        const value = ASCII_LOOKUP.[c];
+        if (value == 64`u8)
+            return false
+
+        bits = ((bits << 6) | <u32>value) & 0xFFFF
+        count += 6
+        if (count >= 8) {
+            count -= 8
+            os << <char>(<u8>((bits >> count) & 0xFF))
+        }
     }
+    // a single character doesn't make a byte
+    return count < 6
+}
 
-    const it = ptroff!(p + i);
-    i = 0;
-    while (i < 4 && (p.[i] != <u8>'=') && ASCII_LOOKUP.[it.[i]] != 64)
-        i++
+pub func decodeBuffer(os: &OutputStream, data: ^const void, size: u64): !void {
+    const p = data !: ^const u8;
+    var sz = size
+    if (sz > 0 && p.[sz-1] == <u8>'=') {
+        sz--
+        if (sz > 0 && p.[sz-1] == <u8>'=')
+            sz--
+    }
 
-    if ((sz - i) != 0 && (it.[i] != <u8>'=')) {
+    if ((size & 3) != 0 || !decodeChars(os, p, sz, false)) {
         // invalid base64 character
         raise Base64Error("base64::decode - invalid base64 encoded string passed");
     }
-
-    sz -= 4-i;
-    if (sz > 1) {
-        os << <char>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4)
-    }
-    if (sz > 2) {
-        os << <char>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2)
-    }
-    if (sz > 3) {
-        os << <char>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]);
-    }
 }
 
 pub func decode[T](os: &OutputStream, value: &const T) : !void {
@@ -150,12 +152,12 @@ const b64tableU = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz012345678
 pub func urlEncodeBuffer(os: &OutputStream, buf: ^const void, size: u64) {
     var i = 0`u64;
     var p = buf !: ^const u8;
-    while (i < (<i64>size)-2) {
+    while (i + 2 < size) {
         os << <char>(b64tableU.[(p.[i] >> 2) & 0x3F] )
         os << <char>(b64tableU.[((p.[i] & 0x3) << 4) | (p.[i + 1] & 0xF0) >> 4] )
         os << <char>(b64tableU.[((p.[i + 1] & 0xF) << 2) | (p.[i + 2] & 0xC0) >> 6] )
         os << <char>(b64tableU.[p.[i + 2] & 0x3F] )
-        i +=2
+        i += 3
     }
 
     if (i < size) {
@@ -170,51 +172,16 @@ pub func urlEncodeBuffer(os: &OutputStream, buf: ^const void, size: u64) {
 }
 
 pub func urlEncodeSize(size: u64) {
-    var i = size - (size % 2)
-    var len = 0`u64
-    if (i > 0) {
-        len = i*2
-    }
-    if (i < size) {
-        len++
-        if (i == (size - 1))
-            len++
-        else
-            len += 2
-    }
+    const rem = size % 3
+    var len = (size / 3) * 4
+    if (rem != 0)
+        len += rem + 1
     return len
 }
 
 pub func urlDecodeBuffer(os: &OutputStream, buf: ^const void, size: u64): !void {
-    var p = buf !: const ^u8
-    var i = 0`u64
-    var sz = size
-    while (sz > 4) {
-        var it = ptroff!(p + i)
-        if (ASCII_LOOKUP.[it.[0]] == 64 ||
-            ASCII_LOOKUP.[it.[1]] == 64 ||
-            ASCII_LOOKUP.[it.[2]] == 64 ||
-            ASCII_LOOKUP.[it.[3]] == 64)
-        {
-            raise Base64Error("Base64::urlDecode - invalid base64 encoded string passed");
-        }
-
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4))
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2))
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]))
-        sz -= 4;
-        i += 4
-    }
-
-    var it = ptroff!(p + i)
-    if (sz > 1) {
-       os << <char>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4)
-    }
-    if (sz > 2) {
-       os << <char>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2)
-    }
-    if (sz > 3) {
-       os << <char>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]);
+    if (!decodeChars(os, buf !: ^const u8, size, true)) {
+        raise Base64Error("Base64::urlDecode - invalid base64 encoded string passed");
     }
 }
 
-- 
2.43.0


From 1f51a277b1041b049b525784e4206f550b871680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:35 +0000
Subject: [PATCH 106/110] fix: removing a path does not follow symbolic links;
 long paths

---
 src/cxy/stdlib/path.cxy | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cxy/stdlib/path.cxy b/src/cxy/stdlib/path.cxy
index fcade12..e41e851 100644
--- a/src/cxy/stdlib/path.cxy
+++ b/src/cxy/stdlib/path.cxy
@@ -189,9 +189,8 @@ pub func current() => Path( file! )
 @inline
 func withNullTermination[T](s: &const __string, fn: func(p: ^const char) -> T ) {
     if (s.isnt()) {
-        var p: [char, 1024] = [];
-        s.copyto(p, sizeof!(p))
-        return fn(p !: ^const char)
+        var p = String(__copy!(s));
+        return fn(p.str() !: ^const char)
     }
     else {
         return fn(s.data())
@@ -259,7 +258,7 @@ pub func islink(path: PathLike) {
 
     return withNullTermination[bool](&spath, (p: ^const char) => {
         var s = Stat{};
-        if (stat(p !: string, ptrof s) != 0)
+        if (lstat(p !: string, ptrof s) != 0)
             return false
 
         return (s.st_mode & S_IFMT!) == S_IFLNK!
@@ -361,7 +360,9 @@ pub func isDirEmpty(path: PathLike): !bool {
 
 pub func remove(path: PathLike, recursive: bool = false): !void {
     var spath = cast[__string](&path);
-    if (isdir(spath)) {
+    const link = islink(spath);
+    // a link is deleted itself, not what it points to
+    if (!link && isdir(spath)) {
         if (!isDirEmpty(spath)) {
             if (!recursive)
                 raise IOError(f"attempt to delete a non empty directory ${spath}")
@@ -376,7 +377,7 @@ pub func remove(path: PathLike, recursive: bool = false): !void {
         if (status != 0)
             raise IOError(f"deleting directory '${spath}' failed: ${strerr()}")
     }
-    else if (exists(path)) {
+    else if (link || exists(path)) {
         var status = withNullTermination[i32](&spath, (p: ^const char) => unistd.unlink(p))
         if (status != 0)
             raise IOError(f"deleting file '${spath}' failed: ${strerr()}")
-- 
2.43.0


From 504a2ab8db60774049efeb9a01f96864ccfa01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:04 +0000
Subject: [PATCH 107/110] fix: appending a char of 128 or more appends that
 byte

---
 src/cxy/runtime/builtins.cxy | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index f1c664b..1445022 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -587,6 +587,11 @@ pub class OutputStream {
         append(data !: ^const void, len)
     }
 
+    // a char is a byte, possibly a part of a character
+    func appendByte(ch: char) {
+        append(ptrof ch, 1`u64)
+    }
+
     func appendChar(ch: wchar) {
         var data: [char, 5];
         var size: u64 = 0;
@@ -651,7 +656,9 @@ pub class OutputStream {
             appendFloat(val)
         else #if (U.isBoolean)
             appendBool(val)
-        else #if (#U == #wchar || #U == #char)
+        else #if (#U == #char)
+             appendByte(val)
+        else #if (#U == #wchar)
              appendChar(val)
          else #if(#U == __string)
             appendString(val.s)
-- 
2.43.0


From a7eefcce1c9f0320a97cf1d9d52fdca51e5235b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:32 +0000
Subject: [PATCH 108/110] fix: command line: long and odd arguments, lists of
 warnings, the maximum number of errors

---
 src/cxy/core/args.c      | 43 ++++++++++++++++-------------
 src/cxy/core/args.h      |  2 +-
 src/cxy/core/log.c       | 59 +++++++++++++++++-----------------------
 src/cxy/driver/options.c | 12 ++++----
 4 files changed, 56 insertions(+), 60 deletions(-)

diff --git a/src/cxy/core/args.c b/src/cxy/core/args.c
index d16f364..1e22e59 100644
--- a/src/cxy/core/args.c
+++ b/src/cxy/core/args.c
@@ -330,7 +330,7 @@ static bool cmdParseCommandArguments(CmdParser *P,
                 (dst)[reWrite++] = (char *)arg;
             }
             else if (npos >= cmd->npos) {
-                sprintf(cmd->P->error,
+                snprintf(cmd->P->error, sizeof(cmd->P->error),
                         "error: unexpected number of positional arguments "
                         "passed, expecting %u\n",
                         cmd->npos);
@@ -352,7 +352,7 @@ static bool cmdParseCommandArguments(CmdParser *P,
 
         // parse argument value if any
         if (flag == NULL) {
-            sprintf(cmd->P->error,
+            snprintf(cmd->P->error, sizeof(cmd->P->error),
                     "error: unrecognized command argument '%s'\n",
                     og);
             return false;
@@ -364,7 +364,7 @@ static bool cmdParseCommandArguments(CmdParser *P,
                 --argc;
             }
             if (val == NULL) {
-                sprintf(cmd->P->error,
+                snprintf(cmd->P->error, sizeof(cmd->P->error),
                         "error: command flag '%s' expects a value\n",
                         flag->name);
                 return false;
@@ -374,7 +374,7 @@ static bool cmdParseCommandArguments(CmdParser *P,
             }
         }
         else if (val != NULL) {
-            sprintf(cmd->P->error,
+            snprintf(cmd->P->error, sizeof(cmd->P->error),
                     "error: unexpected value passed to flag '%s'\n",
                     flag->name);
             return false;
@@ -442,8 +442,7 @@ bool cmdParseBoolean(CmdParser *P,
     return true;
 
 parseBoolError:
-    sprintf(
-        P->error,
+    snprintf(P->error, sizeof(P->error),
         "error: value '%s' passed to flag '%s' cannot be parsed as a boolean\n",
         str,
         name);
@@ -456,9 +455,10 @@ bool cmdParseDouble(CmdParser *P,
                     const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = strtod(str, &end);
-    if (errno == ERANGE || *end != '\0') {
-        sprintf(P->error,
+    if (errno == ERANGE || end == str || *end != '\0') {
+        snprintf(P->error, sizeof(P->error),
                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
                 "double\n",
                 str,
@@ -475,9 +475,10 @@ bool cmdParseInteger(CmdParser *P,
                      const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = (double)strtoll(str, &end, 0);
-    if (errno == ERANGE || *end != '\0') {
-        sprintf(P->error,
+    if (errno == ERANGE || end == str || *end != '\0') {
+        snprintf(P->error, sizeof(P->error),
                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
                 "number\n",
                 str,
@@ -495,9 +496,10 @@ bool cmdParseByteSize(CmdParser *P,
                       const char *name)
 {
     char *end;
+    errno = 0;
     dst->num = (double)strtoull(str, &end, 0);
     if (errno == ERANGE) {
-        sprintf(P->error,
+        snprintf(P->error, sizeof(P->error),
                 "error: value '%s' passed to flag '%s' cannot be parsed as a "
                 "number\n",
                 str,
@@ -527,7 +529,7 @@ bool cmdParseByteSize(CmdParser *P,
             break;
         default:
         unsupportedDataSizeUnit:
-            sprintf(P->error,
+            snprintf(P->error, sizeof(P->error),
                     "'%s' is not a supported data len unit "
                     "(use g,G for gigabytes, m,M for megabytes, "
                     "k,K for kilobytes or b, B for bytes)",
@@ -583,8 +585,7 @@ bool cmdParseBitFlags(CmdParser *P,
         }
 
         if (!parsed) {
-            int n = sprintf(
-                P->error,
+            int n = snprintf(P->error, sizeof(P->error),
                 "'%.*s' is not a supported bit flags for argument '%s'\n",
                 size,
                 str,
@@ -606,7 +607,7 @@ bool cmdParseEnumValue(CmdParser *P,
                        const CmdEnumValueDesc *enums,
                        u32 len)
 {
-    while (*str == '\0')
+    while (isspace(*str))
         str++;
     u64 size = 0;
     while (str[size])
@@ -621,6 +622,10 @@ bool cmdParseEnumValue(CmdParser *P,
         }
     }
 
+    snprintf(P->error, sizeof(P->error),
+             "error: '%s' is not a value that flag '%s' accepts\n",
+             str,
+             name);
     return false;
 }
 
@@ -753,7 +758,7 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
     }
 
     if (cmd == NULL) {
-        sprintf(P->error, "error: missing required command to execute\n");
+        snprintf(P->error, sizeof(P->error), "error: missing required command to execute\n");
         return -1;
     }
 
@@ -785,7 +790,7 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
+            snprintf(P->error, sizeof(P->error),
                     "Missing flag '%s' required by command '%s'\n",
                     flag->name,
                     cmd->name);
@@ -815,7 +820,7 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
+            snprintf(P->error, sizeof(P->error),
                     "Missing flag '%s' required by command '%s'\n",
                     flag->name,
                     cmd->name);
@@ -836,7 +841,7 @@ i32 parseCommandLineArguments_(int *pargc, char ***pargv, CmdParser *P)
                 return -1;
         }
         else {
-            sprintf(P->error,
+            snprintf(P->error, sizeof(P->error),
                     "Missing positional argument %d ('%s') required by command "
                     "'%s'\n",
                     i,
diff --git a/src/cxy/core/args.h b/src/cxy/core/args.h
index 6b2b0bf..5f22db3 100644
--- a/src/cxy/core/args.h
+++ b/src/cxy/core/args.h
@@ -84,7 +84,7 @@ typedef struct CommandLineParser {
     u32 nargs;
     CmdCommand **cmds;
     CmdFlag *args;
-    char error[128];
+    char error[512];
 } CmdParser;
 
 typedef struct CmdBitFlagDesc {
diff --git a/src/cxy/core/log.c b/src/cxy/core/log.c
index d1f4a5f..c69f0cb 100644
--- a/src/cxy/core/log.c
+++ b/src/cxy/core/log.c
@@ -52,7 +52,7 @@ static void registerWarnings(HashTable *warnings)
                       compareWarningIds);
 }
 
-static WarningId parseNextWarningId(Log *L, char *start, char *end)
+static WarningId parseNextWarningId(Log *L, char *start)
 {
     static bool initialized = false;
     static HashTable warningIds;
@@ -72,15 +72,9 @@ static WarningId parseNextWarningId(Log *L, char *start, char *end)
         return wrn_Error;
     }
 
-    u64 len;
-    if (end) {
-        while (isspace(*end))
-            end--;
-        end[1] = '\0';
-        len = end - p;
-    }
-    else
-        len = strlen(p);
+    u64 len = strlen(p);
+    while (len > 0 && isspace(p[len - 1]))
+        len--;
 
     Warning *warning = findInHashTable(&warningIds,
                                        &(Warning){.name = p, .len = len},
@@ -317,7 +311,7 @@ static void printDiagnosticToState(FormatState *state,
     else if (diag->kind == dkWarning)
         log->warningCount++;
 
-    if (log->errorCount >= log->maxErrors)
+    if (log->errorCount > log->maxErrors)
         return;
 
     if ((diag->kind == dkError || diag->kind == dkWarning) &&
@@ -424,15 +418,12 @@ u64 parseWarningLevels(Log *L, cstring str)
     if (str == NULL)
         return warnings;
     char *copy = strdup(str);
-    char *start = copy, *end = strchr(str, '|');
-
-    while (start && start[0] != '\0') {
-        char *last = end;
-        if (last) {
-            *last = '\0';
-            last--;
-            end++;
-        }
+    char *start = copy;
+
+    while (start) {
+        char *next = strchr(start, '|');
+        if (next)
+            *next++ = '\0';
 
         while (isspace(*start))
             start++;
@@ -440,22 +431,22 @@ u64 parseWarningLevels(Log *L, cstring str)
         if (flip)
             start++;
 
-        u64 warning = parseNextWarningId(L, start, last);
-        if (warning == wrn_Error || warning == wrnNone || warning == wrnAll) {
-            free(copy);
-            return warning;
+        if (flip || start[0] != '\0') {
+            u64 warning = parseNextWarningId(L, start);
+            if (warning == wrn_Error) {
+                free(copy);
+                return warning;
+            }
+
+            if (flip)
+                warnings &= ~warning;
+            else if (warning == wrnNone)
+                warnings = wrnNone;
+            else
+                warnings |= warning;
         }
 
-        if (flip)
-            warnings &= ~warning;
-        else
-            warnings |= warning;
-
-        while (end && *end == '|')
-            end++;
-
-        start = end;
-        end = last ? strchr(last, '|') : NULL;
+        start = next;
     }
 
     free(copy);
diff --git a/src/cxy/driver/options.c b/src/cxy/driver/options.c
index 0bf43e5..6036a51 100644
--- a/src/cxy/driver/options.c
+++ b/src/cxy/driver/options.c
@@ -91,7 +91,7 @@ static bool cmdOptimizationLevel(CmdParser *P,
             break;
         }
     }
-    sprintf(P->error,
+    snprintf(P->error, sizeof(P->error),
             "error: value '%s' passed to flag '%s' cannot be parsed as an "
             "optimization flag, supported values -O1, -O2, -O3 -Os -Od\n",
             str ?: "null",
@@ -105,7 +105,7 @@ static bool cmdCompilerDefine(CmdParser *P,
                               const char *name)
 {
     if (str == NULL || str[0] == '\0') {
-        sprintf(P->error,
+        snprintf(P->error, sizeof(P->error),
                 "error: command line argument '%s' is missing a value",
                 name);
         return false;
@@ -118,7 +118,7 @@ static bool cmdCompilerDefine(CmdParser *P,
         it++;
     cstring variable = it, value = NULL;
     if (!isalpha(it[0]) && it[0] != '_') {
-        sprintf(P->error,
+        snprintf(P->error, sizeof(P->error),
                 "error: define variable '%s' does not conform to cxy variable "
                 "specification",
                 name);
@@ -132,7 +132,7 @@ static bool cmdCompilerDefine(CmdParser *P,
         ((char *)it)[0] = '\0';
     }
     else if (it[0] != '\0') {
-        sprintf(P->error,
+        snprintf(P->error, sizeof(P->error),
                 "error: define variable '%s' does not conform to cxy variable "
                 "specification",
                 name);
@@ -150,7 +150,7 @@ static bool cmdArrayArgument(CmdParser *P,
                              const char *name)
 {
     if (str == NULL || str[0] == '\0') {
-        sprintf(P->error,
+        snprintf(P->error, sizeof(P->error),
                 "error: command line argument '%s' is missing a value",
                 name);
         return false;
@@ -480,7 +480,7 @@ bool parseCommandLineOptions(
         goto error;
     }
     else if (selected == -1) {
-        logError(log, NULL, P->error, NULL);
+        logError(log, NULL, "{s}", (FormatArg[]){{.s = P->error}});
         goto error;
     }
 
-- 
2.43.0


From ab905237610532a4f7ecd763f740ecde82989fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:13 +0000
Subject: [PATCH 109/110] fix: command line: several input files, odd file
 names, a missing build directory, plugins

---
 src/cxy/driver/driver.c           |  8 ++--
 src/cxy/driver/options.c          | 12 ++++++
 src/cxy/lang/backend/c/generate.c | 68 +++++++++++++++++--------------
 3 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 9e58964..2fd78cf 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -287,7 +287,8 @@ bool initCompilerDriver(CompilerDriver *compiler,
     compiler->mir = mirContextCreate(compiler);
     csAssert0(compiler->mir);
     compiler->backend = initCompilerBackend(compiler, argc, argv);
-    csAssert0(compiler->backend);
+    if (compiler->backend == NULL)
+        return false;
     initCompilerPreprocessor(compiler);
     initCImporter(compiler);
     initializeBuiltins(compiler->L);
@@ -309,7 +310,8 @@ void deinitCompilerDriver(CompilerDriver *driver)
     freeHashTable(&driver->moduleCache);
     freeHashTable(&driver->linkLibraries);
     freeHashTable(&driver->nativeSources);
-    freeTypeTable(driver->types);
+    if (driver->types)
+        freeTypeTable(driver->types);
     deinitCommandLineOptions(&driver->options);
 }
 
@@ -321,7 +323,7 @@ static bool configureDriverSourceDir(CompilerDriver *driver, cstring *fileName)
         logError(driver->L,
                  NULL,
                  "main source file {s} does not exist",
-                 (FormatArg[]){{.s = buf}});
+                 (FormatArg[]){{.s = *fileName}});
         return false;
     }
     driver->sourceDirLen = strrchr(tmp, '/') - tmp;
diff --git a/src/cxy/driver/options.c b/src/cxy/driver/options.c
index 6036a51..e67d837 100644
--- a/src/cxy/driver/options.c
+++ b/src/cxy/driver/options.c
@@ -283,6 +283,7 @@ static void initializeOptions(StrPool *strings, Options *options)
     options->librarySearchPaths = newDynArray(sizeof(char *));
     options->importSearchPaths = newDynArray(sizeof(char *));
     options->frameworkSearchPaths = newDynArray(sizeof(char *));
+    options->loadPassPlugins = newDynArray(sizeof(char *));
     options->libraries = newDynArray(sizeof(char *));
     options->defines = newDynArray(sizeof(CompilerDefine));
     options->operatingSystem = getenv("CXY_OS");
@@ -472,6 +473,7 @@ bool parseCommandLineOptions(
             Help("root directory where cxy standard library is installed"),
             Def("")));
 
+    char **files = argv;
     int selected = argparse(argc, &argv, parser);
 
     if (selected == CMD_help) {
@@ -541,6 +543,15 @@ bool parseCommandLineOptions(
                  NULL);
         goto error;
     }
+
+    if (file_count > 1) {
+        // there is one output only
+        logError(log,
+                 NULL,
+                 "more than one input file, '{s}' is not expected",
+                 (FormatArg[]){{.s = files[2]}});
+        goto error;
+    }
     goto exit;
 
 error:
@@ -555,6 +566,7 @@ void deinitCommandLineOptions(Options *options)
     freeDynArray(&options->cflags);
     freeDynArray(&options->cDefines);
     freeDynArray(&options->frameworkSearchPaths);
+    freeDynArray(&options->loadPassPlugins);
     freeDynArray(&options->importSearchPaths);
     freeDynArray(&options->librarySearchPaths);
     freeDynArray(&options->libraries);
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index a4958b9..894cdae 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -2248,6 +2248,19 @@ void deinitCompilerBackend(CompilerDriver *driver)
     }
 }
 
+// Adds `text` to a shell command as (part of) one word
+static void appendShellWord(FormatState *cmd, cstring text)
+{
+    appendString(cmd, "'");
+    for (; *text; text++) {
+        if (*text == '\'')
+            appendString(cmd, "'\\''");
+        else
+            appendString(cmd, (char[]){*text, '\0'});
+    }
+    appendString(cmd, "'");
+}
+
 bool compilerBackendMakeExecutable(CompilerDriver *driver)
 {
     if (driver->backend == NULL)
@@ -2277,54 +2290,50 @@ bool compilerBackendMakeExecutable(CompilerDriver *driver)
     }
 
     for (int i = 0; i < opts->librarySearchPaths.size; i++) {
-        format(
-            &cmd,
-            " -L{s}",
-            (FormatArg[]){{.s = dynArrayAt(
-                               const char **, &opts->librarySearchPaths, i)}});
+        appendString(&cmd, " -L");
+        appendShellWord(&cmd,
+                        dynArrayAt(const char **, &opts->librarySearchPaths, i));
     }
 
     for (int i = 0; i < opts->libraries.size; i++) {
-        format(&cmd,
-               " -l{s}",
-               (FormatArg[]){
-                   {.s = dynArrayAt(const char **, &opts->libraries, i)}});
+        appendString(&cmd, " -l");
+        appendShellWord(&cmd,
+                        dynArrayAt(const char **, &opts->libraries, i));
     }
 
     for (int i = 0; i < opts->frameworkSearchPaths.size; i++) {
-        format(&cmd,
-               " -I{s}",
-               (FormatArg[]){{.s = dynArrayAt(const char **,
-                                              &opts->frameworkSearchPaths,
-                                              i)}});
+        appendString(&cmd, " -I");
+        appendShellWord(&cmd,
+                        dynArrayAt(const char **, &opts->frameworkSearchPaths, i));
     }
 
     for (int i = 0; i < opts->importSearchPaths.size; i++) {
-        format(
-            &cmd,
-            " -I{s}",
-            (FormatArg[]){
-                {.s = dynArrayAt(const char **, &opts->importSearchPaths, i)}});
+        appendString(&cmd, " -I");
+        appendShellWord(&cmd,
+                        dynArrayAt(const char **, &opts->importSearchPaths, i));
     }
 
     HashtableIt it = newHashTableIt(&driver->nativeSources, sizeof(cstring));
     while (hashTableItHasNext(&it)) {
         cstring *src = hashTableItNext(&it);
-        format(&cmd, " {s}", (FormatArg[]){{.s = *src}});
+        appendString(&cmd, " ");
+        appendShellWord(&cmd, *src);
     }
 
-    format(&cmd, " {s}", (FormatArg[]){{.s = backend->filename}});
+    appendString(&cmd, " ");
+    appendShellWord(&cmd, backend->filename);
 
     it = newHashTableIt(&driver->linkLibraries, sizeof(cstring));
     while (hashTableItHasNext(&it)) {
         cstring *lib = hashTableItNext(&it);
-        format(&cmd, " -l{s}", (FormatArg[]){{.s = *lib}});
+        appendString(&cmd, " -l");
+        appendShellWord(&cmd, *lib);
     }
 
-    format(&cmd,
-           " -o {s}/{s}",
-           (FormatArg[]){{.s = opts->buildDir ?: "."},
-                         {.s = opts->output ?: "app"}});
+    appendString(&cmd, " -o ");
+    appendShellWord(&cmd, opts->buildDir ?: ".");
+    appendString(&cmd, "/");
+    appendShellWord(&cmd, opts->output ?: "app");
 
     cstring command = formatStateToString(&cmd);
     freeFormatState(&cmd);
@@ -2354,10 +2363,9 @@ bool compilerBackendExecuteTestCase(CompilerDriver *driver)
 {
     FormatState cmd = newFormatState("\t", true);
     Options *opts = &driver->options;
-    format(&cmd,
-           "{s}/{s}",
-           (FormatArg[]){{.s = opts->buildDir ?: "."},
-                         {.s = opts->output ?: "app"}});
+    appendShellWord(&cmd, opts->buildDir ?: ".");
+    appendString(&cmd, "/");
+    appendShellWord(&cmd, opts->output ?: "app");
 
     char *command = formatStateToString(&cmd);
     freeFormatState(&cmd);
-- 
2.43.0


From c4303e1b663f9a6930bfa7bad7a6b2df97083374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:09 +0000
Subject: [PATCH 110/110] fix: joining a path longer than PATH_MAX aborted

---
 src/cxy/core/strpool.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index a917e24..dce9090 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -1,5 +1,6 @@
 #include "core/strpool.h"
 #include "core/hash.h"
+#include "core/alloc.h"
 #include "core/mempool.h"
 #include "core/utils.h"
 
@@ -8,6 +9,7 @@
 #include <inttypes.h>
 #include <limits.h>
 #include <stdarg.h>
+#include <stdlib.h>
 #include <string.h>
 
 StrPool newStrPool(MemPool *mem_pool)
@@ -119,8 +121,14 @@ const char *makeStringConcat_(StrPool *pool, const char *s1, ...)
 
 cstring joinPath_(StrPool *pool, const char *p1, ...)
 {
-    char path[PATH_MAX];
     va_list ap;
+    size_t max = 1;
+    va_start(ap, p1);
+    for (const char *s = p1; s; s = va_arg(ap, const char *))
+        max += strlen(s) + 1;
+    va_end(ap);
+
+    char *path = mallocOrDie(max);
     va_start(ap, p1);
     const char *s = p1;
     size_t len = 0;
@@ -128,7 +136,6 @@ cstring joinPath_(StrPool *pool, const char *p1, ...)
         size_t sz = strlen(s);
         const char *next = va_arg(ap, const char *);
         if (sz > 0) {
-            csAssert0(sz + len + 1 < PATH_MAX);
             memcpy(&path[len], s, sz);
             len += sz;
             if (next && s[sz - 1] != '/')
@@ -138,7 +145,9 @@ cstring joinPath_(StrPool *pool, const char *p1, ...)
     }
     path[len] = '\0';
     va_end(ap);
-    return makeString(pool, path);
+    cstring joined = makeString(pool, path);
+    free(path);
+    return joined;
 }
 
 const char *makeStringf(StrPool *strings, const char *fmt, ...)
-- 
2.43.0

