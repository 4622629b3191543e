From d771c871b3f4390649eaaaf3bb7f3087df47be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 01/17] fix: while() must not write a body's value through the
 previous result's reference

If one evaluation of the body returned a reference, the next evaluation
returning a plain value stored that value in the referenced variable or
memory slot, e.g. "n=3; x=7; while(if((n-=1) > 1, x, 0));" set x to 0.
---
 projectm-eval/TreeFunctions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index ecf986d..efefae2 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -289,6 +289,8 @@ prjm_eval_function_decl(execute_while)
     int loop_count_int = MAX_LOOP_COUNT;
     do
     {
+        ctx->value = .0;
+        value_ptr = &ctx->value;
         invoke_arg(0, &value_ptr);
     } while (fabs(*value_ptr) > close_factor_low && --loop_count_int);
 
-- 
2.43.0


From 118315698c6afbe36e7e09959699b85dad1eb0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 02/17] fix: exec3() must not store its second argument in the
 variable its first one returns

"a=1; exec3(a, 5, 7);" set a to 5.
---
 projectm-eval/TreeFunctions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index efefae2..baf272f 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -332,6 +332,9 @@ prjm_eval_function_decl(exec3)
     PRJM_EVAL_F* value_ptr = &ctx->value;
 
     invoke_arg(0, &value_ptr);
+
+    ctx->value = .0;
+    value_ptr = &ctx->value;
     invoke_arg(1, &value_ptr);
     invoke_arg(2, ret_val);
 }
-- 
2.43.0


From 8314ebd6af4d0e3152a68be0a1087163bde24b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 03/17] fix: freembuf() is a no-op as documented, and leaves
 its argument alone

It released all megabuf blocks, so "megabuf(0) = freembuf(0)" wrote to freed
memory, and it set a variable passed as the index to 0.
---
 projectm-eval/TreeFunctions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index baf272f..f11a234 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -378,9 +378,11 @@ prjm_eval_function_decl(freembuf)
     assert_valid_ctx();
     assert(ctx->memory_buffer);
 
-    invoke_arg(0, ret_val);
+    ctx->value = .0;
+    PRJM_EVAL_F* index_ptr = &ctx->value;
+    invoke_arg(0, &index_ptr);
 
-    prjm_eval_memory_free(ctx->memory_buffer);
+    /* Documented to be a no-op. Must not release blocks while expressions may still hold references to them. */
 
     assign_ret_val(.0);
 }
-- 
2.43.0


From 785d75f8ea7dae03ac50c16f4ece913e0b9fa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 04/17] fix: % and %= with a divisor of -1 must not trap

INT_MIN % -1 raises SIGFPE on x86, e.g. for "1e10 % -1", even at compile time.
---
 projectm-eval/TreeFunctions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index f11a234..81c3108 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -607,7 +607,7 @@ prjm_eval_function_decl(mod)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    if (divisor == 0 || divisor == -1) /* Remainder of -1 is always 0, but the division may overflow and trap. */
     {
         assign_ret_val(0.0);
         return;
@@ -808,7 +808,7 @@ prjm_eval_function_decl(modop)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    if (divisor == 0 || divisor == -1) /* Remainder of -1 is always 0, but the division may overflow and trap. */
     {
         assign_ret_val(0.0);
         return;
-- 
2.43.0


From cdc7cdb15748d6c83b88d66937f5ad326544cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 05/17] fix: loop() with a count of 2^31 or more must run the
 maximum number of iterations

The count was converted to int before being limited, so such loops never ran.
---
 projectm-eval/TreeFunctions.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 81c3108..a0361ec 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -263,12 +263,8 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
-    int loop_count_int = (int) (*value_ptr);
-    /* Limit execution count */
-    if (loop_count_int > MAX_LOOP_COUNT)
-    {
-        loop_count_int = MAX_LOOP_COUNT;
-    }
+    /* Limit execution count, before the conversion can overflow. */
+    int loop_count_int = *value_ptr > MAX_LOOP_COUNT ? MAX_LOOP_COUNT : (int) (*value_ptr);
 
     for (int i = 0; i < loop_count_int; i++)
     {
-- 
2.43.0


From 653bd909b4bccd137e06f989c2d6e3b8cfff5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 06/17] fix: global memory must not be reused after its
 destruction, nor created twice by racing contexts

---
 projectm-eval/MemoryBuffer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7e21609..49abf2c 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -11,6 +11,7 @@ static projectm_eval_mem_buffer static_global_memory;
 void prjm_eval_memory_destroy_global()
 {
     prjm_eval_memory_destroy_buffer(static_global_memory);
+    static_global_memory = NULL;
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
@@ -19,7 +20,11 @@ projectm_eval_mem_buffer prjm_eval_memory_global()
     {
         projectm_eval_memory_host_lock_mutex();
 
-        static_global_memory = prjm_eval_memory_create_buffer();
+        /* Another thread may have created the buffer while waiting for the lock. */
+        if (!static_global_memory)
+        {
+            static_global_memory = prjm_eval_memory_create_buffer();
+        }
 
         projectm_eval_memory_host_unlock_mutex();
     }
-- 
2.43.0


From c2489e04846e22d9c8d8cdd18510b6935e97dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 07/17] fix: compiling resets the error state of the previous
 compilation and doesn't leak its message

---
 projectm-eval/CompileContext.c    | 4 ++++
 projectm-eval/CompilerFunctions.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 54fbd56..ddf7a12 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -88,6 +88,10 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
 {
     yyscan_t scanner;
 
+    /* Forget the error of a previous compilation. */
+    free(cctx->error.error);
+    memset(&cctx->error, 0, sizeof(cctx->error));
+
     prjm_eval_lex_init(&scanner);
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 41be59e..3e2bde3 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -15,6 +15,7 @@
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
+    free(cctx->error.error);
     cctx->error.error = strdup(s);
     cctx->error.line = loc->first_line;
     cctx->error.column_start = loc->first_column;
-- 
2.43.0


From ba492bb9207da904b5ce753502e046d8deb81d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 08/17] fix: report error columns of the first line counted
 from 1, like those of all other lines

---
 projectm-eval/CompileContext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index ddf7a12..b8486a8 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -96,7 +96,7 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
     bufferState->yy_bs_lineno = 1;
-    bufferState->yy_bs_column = 0;
+    bufferState->yy_bs_column = 1;
 
     int result = prjm_eval_parse(cctx, scanner);
 
-- 
2.43.0


From 1690c0cfbbf4989a68318b13c7cd9917a912d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 09/17] fix: don't print the text of block comments to stdout

---
 projectm-eval/Scanner.c | 128 +++++++++++++++++++++-------------------
 projectm-eval/Scanner.l |   1 +
 2 files changed, 67 insertions(+), 62 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index d54c3e8..551d7b2 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -755,8 +755,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -766,14 +766,14 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   52,   50,   49,   49,
-       39,   50,   35,   37,   41,   42,   33,   31,   47,   32,
-       50,   34,   13,   46,   48,   29,   40,   30,   45,   14,
-       14,   43,   44,   36,   38,   51,    3,   51,    6,    5,
-       26,    0,   10,    0,    0,   17,   28,   19,   21,   15,
-       16,   13,    1,    4,   20,   13,   13,    0,   24,   23,
-       25,   14,   14,   22,   18,   27,    2,    0,    0,    9,
-        7,   13,    0,   13,   14,    8,   11,   12,    0
+        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
+       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
+       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+       15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
+       27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
+       17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
+       26,   15,   15,   23,   19,   28,    2,    0,    0,   10,
+        8,   14,    0,   14,   15,    9,   12,   13,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -889,11 +889,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1396,19 +1396,23 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-{ BEGIN(IL_COMMENT); }
+{ }
 	YY_BREAK
 case 5:
-/* rule 5 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(IL_COMMENT); }
 	YY_BREAK
 case 6:
+/* rule 6 can match eol */
+YY_RULE_SETUP
+{ BEGIN(INITIAL); }
+	YY_BREAK
+case 7:
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* Constants */
-case 7:
+case 8:
 YY_RULE_SETUP
 {
                         char* p = yytext + 2;
@@ -1416,34 +1420,34 @@ YY_RULE_SETUP
                         return NUM;
                         }
 	YY_BREAK
-case 8:
+case 9:
 YY_RULE_SETUP
 { yylval->NUM = *(char*)(yytext + 2); return NUM; }
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
 { yylval->NUM = 3.141592653589793f; return NUM; }
 	YY_BREAK
-case 10:
+case 11:
 YY_RULE_SETUP
 { yylval->NUM = 2.71828183f; return NUM; }
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
 { yylval->NUM = 1.61803399f; return NUM; }
 	YY_BREAK
-case 12:
+case 13:
 YY_RULE_SETUP
 { return GMEM; }
 	YY_BREAK
-case 13:
+case 14:
 YY_RULE_SETUP
 {
                         yylval->NUM = atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
 {
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
@@ -1456,156 +1460,156 @@ YY_RULE_SETUP
                     }
 	YY_BREAK
 /* Operators */
-case 15:
+case 16:
 YY_RULE_SETUP
 { return ADDOP; }
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
 { return SUBOP; }
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
 { return MODOP; }
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
 { return OROP; }
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
 { return ANDOP; }
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
 { return DIVOP; }
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
 { return MULOP; }
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
 { return POWOP; }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
 { return EQUAL; }
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
 { return BELEQ; }
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
 { return ABOEQ; }
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
 { return NOTEQ; }
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
 { return BOOLOR; }
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
 { return BOOLAND; }
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
 { return '<'; }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
 { return '>'; }
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
 { return '+'; }
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
 { return '-'; }
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
 { return '*'; }
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
 { return '/'; }
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 { return '!'; }
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
 { return '='; }
 	YY_BREAK
 /* Syntactic elements */
-case 41:
+case 42:
 YY_RULE_SETUP
 { return '('; }
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
 { return ')'; }
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
 { return '['; }
 	YY_BREAK
-case 44:
+case 45:
 YY_RULE_SETUP
 { return ']'; }
 	YY_BREAK
-case 45:
+case 46:
 YY_RULE_SETUP
 { return '?'; }
 	YY_BREAK
-case 46:
+case 47:
 YY_RULE_SETUP
 { return ':'; }
 	YY_BREAK
-case 47:
+case 48:
 YY_RULE_SETUP
 { return ','; }
 	YY_BREAK
 /* Expression terminator */
-case 48:
+case 49:
 YY_RULE_SETUP
 { return ';'; }
 	YY_BREAK
 /* Ignored whitespace */
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 50:
+case 51:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 883c55b..bcf381f 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -49,6 +49,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
 <ML_COMMENT>\n      { }
+<ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
 <IL_COMMENT>\n      { BEGIN(INITIAL); }
-- 
2.43.0


From 6d2b8dd9d7395f662ef556983d7061dd2ceec494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 10/17] fix: $PI, $E and $PHI must not be rounded to single
 precision

---
 projectm-eval/Scanner.c | 6 +++---
 projectm-eval/Scanner.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 551d7b2..1659882 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1426,15 +1426,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-{ yylval->NUM = 3.141592653589793f; return NUM; }
+{ yylval->NUM = 3.141592653589793; return NUM; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ yylval->NUM = 2.71828183f; return NUM; }
+{ yylval->NUM = 2.71828183; return NUM; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-{ yylval->NUM = 1.61803399f; return NUM; }
+{ yylval->NUM = 1.61803399; return NUM; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index bcf381f..254ba96 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -62,9 +62,9 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         return NUM;
                         }
 "$'"."'"            { yylval->NUM = *(char*)(yytext + 2); return NUM; }
-"$"(?i:pi)          { yylval->NUM = 3.141592653589793f; return NUM; }
-"$"[eE]             { yylval->NUM = 2.71828183f; return NUM; }
-"$"(?i:phi)         { yylval->NUM = 1.61803399f; return NUM; }
+"$"(?i:pi)          { yylval->NUM = 3.141592653589793; return NUM; }
+"$"[eE]             { yylval->NUM = 2.71828183; return NUM; }
+"$"(?i:phi)         { yylval->NUM = 1.61803399; return NUM; }
 
 (?i:gmem)           { return GMEM; }
 
-- 
2.43.0


From 835ac03687b0811f4824a30465f78c03e2bdda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 11/17] fix: number literals use a decimal point in every
 locale

---
 projectm-eval/CompilerFunctions.c | 24 ++++++++++++++++++++++++
 projectm-eval/CompilerFunctions.h |  7 +++++++
 projectm-eval/Scanner.c           |  2 +-
 projectm-eval/Scanner.l           |  2 +-
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 3e2bde3..fb83c57 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -4,6 +4,7 @@
 #include "TreeVariables.h"
 
 #include <assert.h>
+#include <locale.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -53,6 +54,29 @@ void prjm_eval_compiler_destroy_node(prjm_eval_compiler_node_t* node)
     free(node);
 }
 
+PRJM_EVAL_F prjm_eval_compiler_parse_number(const char* text)
+{
+    const char* point = strchr(text, '.');
+    const char* locale_point = localeconv()->decimal_point;
+    if (!point || strcmp(locale_point, ".") == 0)
+    {
+        return (PRJM_EVAL_F) strtod(text, NULL);
+    }
+
+    /* strtod() only accepts the decimal separator of the current locale. */
+    size_t int_length = point - text;
+    size_t point_length = strlen(locale_point);
+    char* local_text = malloc(strlen(text) + point_length);
+    memcpy(local_text, text, int_length);
+    memcpy(local_text + int_length, locale_point, point_length);
+    strcpy(local_text + int_length + point_length, point + 1);
+
+    PRJM_EVAL_F value = (PRJM_EVAL_F) strtod(local_text, NULL);
+    free(local_text);
+
+    return value;
+}
+
 bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, const char* name)
 {
     prjm_eval_function_list_item_t* entry = cctx->functions.first;
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 43c1215..8780301 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -57,6 +57,13 @@ void prjm_eval_compiler_destroy_arglist(prjm_eval_compiler_arg_list_t* arglist);
  */
 void prjm_eval_compiler_destroy_node(prjm_eval_compiler_node_t* node);
 
+/**
+ * @brief Converts a decimal number literal to its value, independent of the current locale.
+ * @param text The literal, using a dot as the decimal separator.
+ * @return The value of the literal.
+ */
+PRJM_EVAL_F prjm_eval_compiler_parse_number(const char* text);
+
 /**
  * @brief Determines if the given name is a function name.
  * @param cctx The compile context.
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 1659882..205d1ec 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1443,7 +1443,7 @@ YY_RULE_SETUP
 case 14:
 YY_RULE_SETUP
 {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = prjm_eval_compiler_parse_number(yytext);
                         return NUM;
                     }
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 254ba96..9fa71e5 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -69,7 +69,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 (?i:gmem)           { return GMEM; }
 
 {FLOAT}            {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = prjm_eval_compiler_parse_number(yytext);
                         return NUM;
                     }
 {NAME}              {
-- 
2.43.0


From 5f570c35f72e56f067e9f72e66d32b7fef04c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 12/17] fix: function and variable names are case-insensitive
 in every locale

---
 projectm-eval/CompilerFunctions.c |  9 ++-------
 projectm-eval/TreeVariables.c     | 19 +++++++++++++++++--
 projectm-eval/TreeVariables.h     |  8 ++++++++
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index fb83c57..b2bd433 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -8,11 +8,6 @@
 #include <string.h>
 #include <stdlib.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
@@ -82,7 +77,7 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     prjm_eval_function_list_item_t* entry = cctx->functions.first;
     while (entry)
     {
-        if (strcasecmp(entry->function->name, name) == 0)
+        if (prjm_eval_names_equal(entry->function->name, name))
         {
             return true;
         }
@@ -98,7 +93,7 @@ prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_con
     prjm_eval_function_list_item_t* func = cctx->functions.first;
     while (func)
     {
-        if (strcasecmp(func->function->name, name) == 0)
+        if (prjm_eval_names_equal(func->function->name, name))
         {
             return func->function;
         }
diff --git a/projectm-eval/TreeVariables.c b/projectm-eval/TreeVariables.c
index ce1e511..c505a73 100644
--- a/projectm-eval/TreeVariables.c
+++ b/projectm-eval/TreeVariables.c
@@ -5,12 +5,27 @@
 #include <string.h>
 
 #ifdef _MSC_VER
-#define strcasecmp stricmp
 #define strncasecmp _strnicmp
 #endif
 
 static PRJM_EVAL_F static_global_variables[100];
 
+static char ascii_lower(char character)
+{
+    return (char) (character >= 'A' && character <= 'Z' ? character - 'A' + 'a' : character);
+}
+
+bool prjm_eval_names_equal(const char* name1, const char* name2)
+{
+    while (*name1 && ascii_lower(*name1) == ascii_lower(*name2))
+    {
+        name1++;
+        name2++;
+    }
+
+    return ascii_lower(*name1) == ascii_lower(*name2);
+}
+
 static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_context_t* cctx,
                                                        const char* name)
 {
@@ -18,7 +33,7 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
     prjm_eval_variable_entry_t* var = cctx->variables.first;
     while (var)
     {
-        if (strcasecmp(var->variable->name, name) == 0)
+        if (prjm_eval_names_equal(var->variable->name, name))
         {
             break;
         }
diff --git a/projectm-eval/TreeVariables.h b/projectm-eval/TreeVariables.h
index f2c8741..271ca01 100644
--- a/projectm-eval/TreeVariables.h
+++ b/projectm-eval/TreeVariables.h
@@ -4,3 +4,11 @@
 
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx,
                                          const char* name);
+
+/**
+ * @brief Compares two variable or function names, ignoring the case of ASCII letters in every locale.
+ * @param name1 The first name.
+ * @param name2 The second name.
+ * @return true if both names are equal, false if not.
+ */
+bool prjm_eval_names_equal(const char* name1, const char* name2);
-- 
2.43.0


From 26752da1ab3eecb41f0d98fbb85011d85da326b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 13/17] fix: failed compilations must not leak the parsed parts
 of the program

---
 projectm-eval/Compiler.c          | 46 ++++++++++++++++++++++++++-----
 projectm-eval/Compiler.h          |  1 -
 projectm-eval/Compiler.y          |  9 ++++--
 projectm-eval/CompilerFunctions.c |  2 ++
 projectm-eval/CompilerFunctions.h |  1 +
 5 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index b7ef064..951b849 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -518,11 +518,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    77,    77,    78,    88,    92,    93,    97,   101,   102,
-     103,   107,   108,   114,   115,   118,   121,   122,   123,   130,
-     131,   132,   133,   134,   135,   136,   137,   140,   141,   142,
-     143,   144,   145,   148,   149,   152,   155,   158,   161,   162,
-     163,   164,   165,   166,   167,   168,   171,   172,   173,   176
+       0,    82,    82,    83,    93,    97,    98,   102,   106,   107,
+     108,   112,   113,   119,   120,   123,   126,   127,   128,   135,
+     136,   137,   138,   139,   140,   141,   142,   145,   146,   147,
+     148,   149,   150,   153,   154,   157,   160,   163,   166,   167,
+     168,   169,   170,   171,   172,   173,   176,   177,   178,   181
 };
 #endif
 
@@ -1569,7 +1569,39 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_VAR: /* VAR  */
+            { free(((*yyvaluep).VAR)); }
+        break;
+
+    case YYSYMBOL_FUNC: /* FUNC  */
+            { free(((*yyvaluep).FUNC)); }
+        break;
+
+    case YYSYMBOL_function: /* function  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).function)); }
+        break;
+
+    case YYSYMBOL_46_function_arglist: /* function-arglist  */
+            { prjm_eval_compiler_destroy_arglist(((*yyvaluep).yykind_46)); }
+        break;
+
+    case YYSYMBOL_parentheses: /* parentheses  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).parentheses)); }
+        break;
+
+    case YYSYMBOL_48_instruction_list: /* instruction-list  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).yykind_48)); }
+        break;
+
+    case YYSYMBOL_expression: /* expression  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).expression)); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1894,7 +1926,7 @@ yyreduce:
     break;
 
   case 4: /* function: FUNC '(' function-arglist ')'  */
-                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)); free((yyvsp[-3].FUNC)); }
+                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)) }
     break;
 
   case 5: /* function-arglist: instruction-list  */
diff --git a/projectm-eval/Compiler.h b/projectm-eval/Compiler.h
index ae5e1c3..82053b8 100644
--- a/projectm-eval/Compiler.h
+++ b/projectm-eval/Compiler.h
@@ -103,7 +103,6 @@ union PRJM_EVAL_STYPE
   char* VAR;                               /* VAR  */
   char* FUNC;                              /* FUNC  */
   prjm_eval_compiler_arg_list_t* yykind_46; /* function-arglist  */
-  prjm_eval_compiler_node_t* program;      /* program  */
   prjm_eval_compiler_node_t* function;     /* function  */
   prjm_eval_compiler_node_t* parentheses;  /* parentheses  */
   prjm_eval_compiler_node_t* yykind_48;    /* instruction-list  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b035e0b..dcd79fd 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -44,9 +44,14 @@ typedef void* yyscan_t;
 /* Value types */
 %token <PRJM_EVAL_F> NUM
 %token <char*> VAR FUNC
-%nterm <prjm_eval_compiler_node_t*> function program instruction-list expression parentheses
+%nterm <prjm_eval_compiler_node_t*> function instruction-list expression parentheses
 %nterm <prjm_eval_compiler_arg_list_t*> function-arglist
 
+/* Free the values of all discarded symbols if parsing fails. */
+%destructor { free($$); } <char*>
+%destructor { prjm_eval_compiler_destroy_node($$); } <prjm_eval_compiler_node_t*>
+%destructor { prjm_eval_compiler_destroy_arglist($$); } <prjm_eval_compiler_arg_list_t*>
+
 /* Operator precedence, lowest first, highest last. */
 %precedence ','
 %right '='
@@ -85,7 +90,7 @@ program:
 
 /* Functions */
 function:
-  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args); free($name); }
+  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args) }
 ;
 
 function-arglist:
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index b2bd433..f4b06b2 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -146,6 +146,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     if (!func)
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Unknown function \"%s\".", name)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -153,6 +154,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Invalid argument count for function \"%s\": Expected %d, but %d given.",
                               name, func->arg_count, arglist->count)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 8780301..26c3c4c 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -6,6 +6,7 @@
 #define PRJM_EVAL_FUNC(ret, name, args) {\
         char* errval = NULL; \
         ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
+        free(name); \
         if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
     }
 
-- 
2.43.0


From f66598f4c514fc83122c968e2a33285579757d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 14/17] fix: && and || evaluate their right operand only if
 needed, as documented

---
 projectm-eval/Compiler.c | 4 ++--
 projectm-eval/Compiler.y | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 951b849..f47b4c2 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2040,11 +2040,11 @@ yyreduce:
     break;
 
   case 33: /* expression: expression BOOLOR expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_or", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 34: /* expression: expression BOOLAND expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_and", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 35: /* expression: expression '=' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index dcd79fd..0184775 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -150,8 +150,8 @@ expression:
 | expression[left] '>' expression[right]       { PRJM_EVAL_FUNC2($$, "_above", $left, $right) }
 
 /* Boolean operators */
-| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "_or", $left, $right) }
+| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "_and", $left, $right) }
 
 /* Assignment operator */
 | expression[left] '=' expression[right]           { PRJM_EVAL_FUNC2($$, "_set", $left, $right) }
-- 
2.43.0


From 6960a05de6d12e66217791c3d95b26aecb3f6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 15/17] fix: & and | are the documented bitwise operators

---
 projectm-eval/Compiler.c      |  4 ++--
 projectm-eval/Compiler.y      |  4 ++--
 projectm-eval/Scanner.c       |  4 ++--
 projectm-eval/Scanner.l       |  4 ++--
 projectm-eval/TreeFunctions.c | 32 ++++++++++++++++++++++++++++++++
 projectm-eval/TreeFunctions.h |  2 ++
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index f47b4c2..2b22eb6 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2084,11 +2084,11 @@ yyreduce:
     break;
 
   case 44: /* expression: expression '|' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*bitor*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 45: /* expression: expression '&' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*bitand*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 46: /* expression: '-' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index 0184775..c23c750 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -169,8 +169,8 @@ expression:
 | expression[left] '/' expression[right] { PRJM_EVAL_FUNC2($$, "_div", $left, $right) }
 | expression[left] '%' expression[right] { PRJM_EVAL_FUNC2($$, "_mod", $left, $right) }
 | expression[left] '^' expression[right] { PRJM_EVAL_FUNC2($$, "pow", $left, $right) }
-| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "/*bitor*/", $left, $right) }
+| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "/*bitand*/", $left, $right) }
 
 /* Unary operators */
 | '-' expression[value] %prec NEG        { PRJM_EVAL_FUNC1($$, "_neg", $value) }
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 205d1ec..5c9680d 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1550,11 +1550,11 @@ YY_RULE_SETUP
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return '%'; }
+{ return '&'; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return '^'; }
+{ return '|'; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 9fa71e5..84dac66 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -106,8 +106,8 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/"                 { return '/'; }
 "%"                 { return '%'; }
 "^"	                { return '^'; }
-"&"                 { return '%'; }
-"|"	                { return '^'; }
+"&"                 { return '&'; }
+"|"	                { return '|'; }
 "!"	                { return '!'; }
 "="	                { return '='; }
 
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index a0361ec..4fac3d9 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -21,6 +21,8 @@ static prjm_eval_function_def_t intrinsic_function_table[] = {
     { "/*const*/", prjm_eval_func_const,         0, true,  false },
     { "/*var*/",   prjm_eval_func_var,           0, false, false },
     { "/*list*/",  prjm_eval_func_execute_list,  1, true,  false },
+    { "/*bitor*/", prjm_eval_func_bitor,         2, true,  false },
+    { "/*bitand*/", prjm_eval_func_bitand,       2, true,  false },
 
     { "if",        prjm_eval_func_if,            3, true,  false },
     { "_if",       prjm_eval_func_if,            3, true,  false },
@@ -793,6 +795,36 @@ prjm_eval_function_decl(andop)
     assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) & (int)(*val2_ptr)));
 }
 
+prjm_eval_function_decl(bitor)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) | (int)(*val2_ptr)));
+}
+
+prjm_eval_function_decl(bitand)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) & (int)(*val2_ptr)));
+}
+
 prjm_eval_function_decl(modop)
 {
     assert_valid_ctx();
diff --git a/projectm-eval/TreeFunctions.h b/projectm-eval/TreeFunctions.h
index db0dea2..5e6b6ca 100644
--- a/projectm-eval/TreeFunctions.h
+++ b/projectm-eval/TreeFunctions.h
@@ -67,6 +67,8 @@ prjm_eval_function_decl(addop);
 prjm_eval_function_decl(subop);
 prjm_eval_function_decl(mulop);
 prjm_eval_function_decl(divop);
+prjm_eval_function_decl(bitor);
+prjm_eval_function_decl(bitand);
 prjm_eval_function_decl(modop);
 prjm_eval_function_decl(orop);
 prjm_eval_function_decl(andop);
-- 
2.43.0


From 409cdbd96f63081a1cc564a18012a4a9f6240de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 16/17] fix: memcpy() and memset() with block-crossing overlaps
 and with counts or offsets beyond the int range

---
 projectm-eval/MemoryBuffer.c | 66 +++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 49abf2c..38cb702 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -1,5 +1,6 @@
 #include "MemoryBuffer.h"
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -112,14 +113,27 @@ PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int inde
     return NULL;
 }
 
+/**
+ * Converts an offset or count to an integer, limiting it so that the sum of two of them can't overflow.
+ */
+static int64_t prjm_eval_memory_integer(PRJM_EVAL_F value)
+{
+    if (!(value > -4e18))
+    {
+        return value < .0 ? (int64_t) -4e18 : 0;
+    }
+
+    return value < 4e18 ? (int64_t) (value + 0.0001) : (int64_t) 4e18;
+}
+
 PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* dest,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int offset_src = (int) (*src + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_integer(*dest);
+    int64_t offset_src = prjm_eval_memory_integer(*src);
+    int64_t count = prjm_eval_memory_integer(*len);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -135,20 +149,42 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
         offset_dest = 0;
     }
 
+    if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
+        offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+    {
+        return dest;
+    }
+
+    // Trim to the end of the buffer.
+    int64_t max_count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK -
+                        (offset_dest > offset_src ? offset_dest : offset_src);
+    if (count > max_count)
+    {
+        count = max_count;
+    }
+
+    // If the data moves towards the end, start there to not overwrite data which still needs to be copied.
+    bool backwards = offset_dest > offset_src;
+    if (backwards && count > 0)
+    {
+        offset_src += count;
+        offset_dest += count;
+    }
+
     PRJM_EVAL_F* src_pointer;
     PRJM_EVAL_F* dst_pointer;
 
     while (count > 0)
     {
-        int copy_length = count;
+        int copy_length = (int) count;
 
         int max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         int max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
 
-        if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
-            offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+        if (backwards)
         {
-            break;
+            max_dst_len = ((offset_dest - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            max_src_len = ((offset_src - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
         }
 
         if (copy_length > max_dst_len)
@@ -160,9 +196,10 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             copy_length = max_src_len;
         }
 
-        if (copy_length < 1)
+        if (backwards)
         {
-            break;
+            offset_src -= copy_length;
+            offset_dest -= copy_length;
         }
 
         src_pointer = prjm_eval_memory_allocate(buffer, offset_src);
@@ -173,8 +210,11 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
         }
 
         memmove(dst_pointer, src_pointer, sizeof(PRJM_EVAL_F) * copy_length);
-        offset_src += copy_length;
-        offset_dest += copy_length;
+        if (!backwards)
+        {
+            offset_src += copy_length;
+            offset_dest += copy_length;
+        }
         count -= copy_length;
     }
 
@@ -186,8 +226,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_integer(*dest);
+    int64_t count = prjm_eval_memory_integer(*len);
 
     // Trim to front
     if (offset_dest < 0)
-- 
2.43.0


From 8ba3d2b6ba01b41ec13859be653e2fbbdbfb5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 17/17] fix: memory index -1 is out of range and must not
 access index 0

---
 projectm-eval/MemoryBuffer.c  | 2 +-
 projectm-eval/TreeFunctions.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 38cb702..3b9763a 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -123,7 +123,7 @@ static int64_t prjm_eval_memory_integer(PRJM_EVAL_F value)
         return value < .0 ? (int64_t) -4e18 : 0;
     }
 
-    return value < 4e18 ? (int64_t) (value + 0.0001) : (int64_t) 4e18;
+    return value < 4e18 ? (int64_t) (value + (value < .0 ? -0.0001 : 0.0001)) : (int64_t) 4e18;
 }
 
 PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 4fac3d9..a2fd06b 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -361,7 +361,9 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
+    /* Allow for small errors in both directions, but don't turn the invalid index -1 into 0. */
+    double tolerance = *index_ptr < .0 ? -0.0001 : 0.0001;
+    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + tolerance));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
-- 
2.43.0

