From 1effe542270da5d258b3864f5351261aa7d24220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 01/27] fix: keep the parsed event out of a process-wide
 variable

Two threads parsing events at once (betree_search and betree_exists take a
const tree) overwrote each other's result through the global 'root'. Pass it
as a parse parameter, as the expression parser already does.
---
 src/event_parser.c | 48 +++++++++++++++++++++++-----------------------
 src/event_parser.h |  2 +-
 src/event_parser.y | 12 +++++-------
 3 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/src/event_parser.c b/src/event_parser.c
index 84e3e00..aacefca 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -84,9 +84,8 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
     extern int zzlex();
-    void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
+    void zzerror(void *scanner, struct betree_event **root, const char *s) { (void)scanner; (void)root; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
     #pragma GCC diagnostic push
     #pragma GCC diagnostic ignored "-Wswitch-default"
@@ -203,7 +202,7 @@ typedef union ZZSTYPE ZZSTYPE;
 
 
 
-int zzparse (void *scanner);
+int zzparse (void *scanner, struct betree_event **root);
 
 #endif /* !YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED  */
 
@@ -743,7 +742,7 @@ static const yytype_int8 yyr2[] =
       }                                                           \
     else                                                          \
       {                                                           \
-        yyerror (scanner, YY_("syntax error: cannot back up")); \
+        yyerror (scanner, root, YY_("syntax error: cannot back up")); \
         YYERROR;                                                  \
       }                                                           \
   while (0)
@@ -780,7 +779,7 @@ do {                                                                      \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, scanner); \
+                  Type, Value, scanner, root); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
@@ -791,11 +790,12 @@ do {                                                                      \
 `-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner)
+yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner, struct betree_event **root)
 {
   FILE *yyoutput = yyo;
   YYUSE (yyoutput);
   YYUSE (scanner);
+  YYUSE (root);
   if (!yyvaluep)
     return;
 # ifdef YYPRINT
@@ -907,12 +907,12 @@ yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, vo
 `---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner)
+yy_symbol_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner, struct betree_event **root)
 {
   YYFPRINTF (yyo, "%s %s (",
              yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
 
-  yy_symbol_value_print (yyo, yytype, yyvaluep, scanner);
+  yy_symbol_value_print (yyo, yytype, yyvaluep, scanner, root);
   YYFPRINTF (yyo, ")");
 }
 
@@ -945,7 +945,7 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner, struct betree_event **root)
 {
   int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
@@ -959,7 +959,7 @@ yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
       yy_symbol_print (stderr,
                        yystos[+yyssp[yyi + 1 - yynrhs]],
                        &yyvsp[(yyi + 1) - (yynrhs)]
-                                              , scanner);
+                                              , scanner, root);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -967,7 +967,7 @@ yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
 # define YY_REDUCE_PRINT(Rule)          \
 do {                                    \
   if (yydebug)                          \
-    yy_reduce_print (yyssp, yyvsp, Rule, scanner); \
+    yy_reduce_print (yyssp, yyvsp, Rule, scanner, root); \
 } while (0)
 
 /* Nonzero means print parse trace.  It is left uninitialized so that
@@ -1235,10 +1235,11 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
+yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, struct betree_event **root)
 {
   YYUSE (yyvaluep);
   YYUSE (scanner);
+  YYUSE (root);
   if (!yymsg)
     yymsg = "Deleting";
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
@@ -1256,7 +1257,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
 `----------*/
 
 int
-yyparse (void *scanner)
+yyparse (void *scanner, struct betree_event **root)
 {
 /* The lookahead symbol.  */
 int yychar;
@@ -1512,13 +1513,13 @@ yyreduce:
     {
   case 2:
 #line 94 "src/event_parser.y"
-                                                                { root = make_empty_event(); }
+                                                                { *root = make_empty_event(); }
 #line 1517 "src/event_parser.c"
     break;
 
   case 3:
 #line 95 "src/event_parser.y"
-                                                                { root = (yyvsp[-1].event); }
+                                                                { *root = (yyvsp[-1].event); }
 #line 1523 "src/event_parser.c"
     break;
 
@@ -1789,7 +1790,7 @@ yyerrlab:
     {
       ++yynerrs;
 #if ! YYERROR_VERBOSE
-      yyerror (scanner, YY_("syntax error"));
+      yyerror (scanner, root, YY_("syntax error"));
 #else
 # define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
                                         yyssp, yytoken)
@@ -1816,7 +1817,7 @@ yyerrlab:
                 yymsgp = yymsg;
               }
           }
-        yyerror (scanner, yymsgp);
+        yyerror (scanner, root, yymsgp);
         if (yysyntax_error_status == 2)
           goto yyexhaustedlab;
       }
@@ -1840,7 +1841,7 @@ yyerrlab:
       else
         {
           yydestruct ("Error: discarding",
-                      yytoken, &yylval, scanner);
+                      yytoken, &yylval, scanner, root);
           yychar = YYEMPTY;
         }
     }
@@ -1894,7 +1895,7 @@ yyerrlab1:
 
 
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, scanner);
+                  yystos[yystate], yyvsp, scanner, root);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -1933,7 +1934,7 @@ yyabortlab:
 | yyexhaustedlab -- memory exhaustion comes here.  |
 `-------------------------------------------------*/
 yyexhaustedlab:
-  yyerror (scanner, YY_("memory exhausted"));
+  yyerror (scanner, root, YY_("memory exhausted"));
   yyresult = 2;
   /* Fall through.  */
 #endif
@@ -1949,7 +1950,7 @@ yyreturn:
          user semantic actions for why this is necessary.  */
       yytoken = YYTRANSLATE (yychar);
       yydestruct ("Cleanup: discarding lookahead",
-                  yytoken, &yylval, scanner);
+                  yytoken, &yylval, scanner, root);
     }
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYABORT or YYACCEPT.  */
@@ -1958,7 +1959,7 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[+*yyssp], yyvsp, scanner);
+                  yystos[+*yyssp], yyvsp, scanner, root);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
@@ -1988,12 +1989,11 @@ int event_parse(const char *text, struct betree_event** event)
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
-    int rc = zzparse(scanner);
+    int rc = zzparse(scanner, event);
     zz_delete_buffer(buffer, scanner);
     zzlex_destroy(scanner);
     
     if(rc == 0) {
-        *event = root;
         return 0;
     }
     else {
diff --git a/src/event_parser.h b/src/event_parser.h
index 44d01d2..11cfc72 100644
--- a/src/event_parser.h
+++ b/src/event_parser.h
@@ -108,6 +108,6 @@ typedef union ZZSTYPE ZZSTYPE;
 
 
 
-int zzparse (void *scanner);
+int zzparse (void *scanner, struct betree_event **root);
 
 #endif /* !YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED  */
diff --git a/src/event_parser.y b/src/event_parser.y
index 5c1c2ef..4cfd03d 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -9,9 +9,8 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
     extern int zzlex();
-    void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
+    void zzerror(void *scanner, struct betree_event **root, const char *s) { (void)scanner; (void)root; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
     #pragma GCC diagnostic push
     #pragma GCC diagnostic ignored "-Wswitch-default"
@@ -22,7 +21,7 @@
 // %debug
 %pure-parser
 %lex-param {void *scanner}
-%parse-param {void *scanner}
+%parse-param {void *scanner} {struct betree_event **root}
 %define api.prefix {zz}
 
 %{
@@ -91,8 +90,8 @@
 
 %%
 
-program             : EVENT_LCURLY EVENT_RCURLY                 { root = make_empty_event(); }
-                    | EVENT_LCURLY variable_loop EVENT_RCURLY   { root = $2; }
+program             : EVENT_LCURLY EVENT_RCURLY                 { *root = make_empty_event(); }
+                    | EVENT_LCURLY variable_loop EVENT_RCURLY   { *root = $2; }
 ;
 
 variable_loop       : variable                              { $$ = make_empty_event(); add_variable($1, $$); }
@@ -184,12 +183,11 @@ int event_parse(const char *text, struct betree_event** event)
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
-    int rc = zzparse(scanner);
+    int rc = zzparse(scanner, event);
     zz_delete_buffer(buffer, scanner);
     zzlex_destroy(scanner);
     
     if(rc == 0) {
-        *event = root;
         return 0;
     }
     else {
-- 
2.43.0


From 138ffd33873e43220c2c831cd787819917d41c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 02/27] fix: do not write to the string map while searching

map_get stores its result in the map itself, so concurrent searches of one
const tree wrote to the same memory without synchronisation.
---
 src/config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 0a9ec96..7be0624 100644
--- a/src/config.c
+++ b/src/config.c
@@ -306,8 +306,9 @@ betree_str_t try_get_id_for_string(
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
         if(config->string_maps[i].attr_var.var == attr_var.var) {
-            struct string_map* string_map = string_map = &config->string_maps[i];
-            betree_str_t* str = map_get(&string_map->m, string);
+            struct string_map* string_map = &config->string_maps[i];
+            // Not map_get, it writes to the map and searches can be concurrent
+            betree_str_t* str = map_get_(&string_map->m.base, string);
             if(str != NULL) {
                 return *str;
             }
-- 
2.43.0


From 411652c6a0da667f868c7ad18e6461fb84e0f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 03/27] fix: move the right subscription when two share an id

remove_sub took the first entry with the same id out of the lnode, so moving
the second of two subscriptions with one id lost the first one and inserted
the second twice (double free in betree_free).
---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..6a11ac5 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From e5598908b9527eb6df2d7516b1bc16d5242baf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 04/27] fix: free the environment of an event that fails
 validation

betree_search leaked it each time a required variable was missing.
---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index acf6a28..62f9fcd 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -562,6 +562,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From db2df267c909b1e630344e33e9e41fa9da4eb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 05/27] fix: free an expression rejected for its missing
 constants

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 62f9fcd..76618cc 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,6 +491,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
-- 
2.43.0


From 12dac54d528170de4151f7fecf52dc9a61fd09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 06/27] fix: free the partial results of a parse that fails

---
 src/ast.c          |  39 +++++++++++-----
 src/ast.h          |   3 ++
 src/event_parser.c |  73 +++++++++++++++++++++++++++++-
 src/event_parser.y |  15 +++++++
 src/parser.c       | 109 ++++++++++++++++++++++++++++++++++++++++++++-
 src/parser.y       |  14 ++++++
 src/tree.c         |   2 +-
 src/tree.h         |   1 +
 8 files changed, 241 insertions(+), 15 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..7890d95 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -274,52 +274,67 @@ static void free_special_expr(struct ast_special_expr special_expr)
     }
 }
 
-static void free_set_expr(struct ast_set_expr set_expr)
+void free_set_left_value(struct set_left_value left_value)
 {
-    switch(set_expr.left_value.value_type) {
+    switch(left_value.value_type) {
         case AST_SET_LEFT_VALUE_INTEGER: {
             break;
         }
         case AST_SET_LEFT_VALUE_STRING: {
-            bfree((char*)set_expr.left_value.string_value.string);
+            bfree((char*)left_value.string_value.string);
             break;
         }
         case AST_SET_LEFT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.left_value.variable_value);
+            free_attr_var(left_value.variable_value);
             break;
         }
         default: abort();
     }
-    switch(set_expr.right_value.value_type) {
+}
+
+void free_set_right_value(struct set_right_value right_value)
+{
+    switch(right_value.value_type) {
         case AST_SET_RIGHT_VALUE_INTEGER_LIST: {
-            free_integer_list(set_expr.right_value.integer_list_value);
+            free_integer_list(right_value.integer_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_STRING_LIST: {
-            free_string_list(set_expr.right_value.string_list_value);
+            free_string_list(right_value.string_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.right_value.variable_value);
+            free_attr_var(right_value.variable_value);
             break;
         }
         default: abort();
     }
 }
 
-static void free_list_expr(struct ast_list_expr list_expr)
+static void free_set_expr(struct ast_set_expr set_expr)
 {
-    switch(list_expr.value.value_type) {
+    free_set_left_value(set_expr.left_value);
+    free_set_right_value(set_expr.right_value);
+}
+
+void free_list_value(struct list_value value)
+{
+    switch(value.value_type) {
         case AST_LIST_VALUE_INTEGER_LIST: {
-            free_integer_list(list_expr.value.integer_list_value);
+            free_integer_list(value.integer_list_value);
             break;
         }
         case AST_LIST_VALUE_STRING_LIST: {
-            free_string_list(list_expr.value.string_list_value);
+            free_string_list(value.string_list_value);
             break;
         }
         default: abort();
     }
+}
+
+static void free_list_expr(struct ast_list_expr list_expr)
+{
+    free_list_value(list_expr.value);
     free_attr_var(list_expr.attr_var);
 }
 
diff --git a/src/ast.h b/src/ast.h
index acda1a8..3aa867f 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -317,6 +317,9 @@ struct ast_node* ast_special_string_create(
 
 struct ast_node* ast_is_null_expr_create(enum ast_is_null_e type, const char* name);
 
+void free_set_left_value(struct set_left_value left_value);
+void free_set_right_value(struct set_right_value right_value);
+void free_list_value(struct list_value value);
 void free_ast_node(struct ast_node* node);
 
 bool match_node(const struct betree_variable** preds,
diff --git a/src/event_parser.c b/src/event_parser.c
index aacefca..c69fbc2 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -1245,7 +1245,75 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+    case 15: /* EVENT_STRING  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 18: /* variable_loop  */
+      { free_event(((*yyvaluep).event)); }
+        break;
+
+    case 19: /* variable  */
+      { free_pred(((*yyvaluep).variable)); }
+        break;
+
+    case 20: /* value  */
+      { free_value(((*yyvaluep).value)); }
+        break;
+
+    case 24: /* string  */
+      { bfree((char*)((*yyvaluep).string_value).string); }
+        break;
+
+    case 25: /* empty_list_value  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 26: /* integer_list_value  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 27: /* integer_list_loop  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 28: /* string_list_value  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+    case 29: /* string_list_loop  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+    case 30: /* segments_value  */
+      { free_segments(((*yyvaluep).segments_list_value)); }
+        break;
+
+    case 31: /* segments_loop  */
+      { free_segments(((*yyvaluep).segments_list_value)); }
+        break;
+
+    case 32: /* segment_value  */
+      { free_segment(((*yyvaluep).segment_value)); }
+        break;
+
+    case 33: /* frequencies_value  */
+      { free_frequency_caps(((*yyvaluep).frequencies_value)); }
+        break;
+
+    case 34: /* frequencies_loop  */
+      { free_frequency_caps(((*yyvaluep).frequencies_value)); }
+        break;
+
+    case 35: /* frequency_value  */
+      { free_frequency_cap(((*yyvaluep).frequency_value)); }
+        break;
+
+    default:
+      break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1986,6 +2054,7 @@ int event_parse(const char *text, struct betree_event** event)
     // zzdebug = 1;
     
     // Parse using Bison.
+    *event = NULL;
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
@@ -1997,6 +2066,8 @@ int event_parse(const char *text, struct betree_event** event)
         return 0;
     }
     else {
+        free_event(*event);
+        *event = NULL;
         return -1;
     }
 }
diff --git a/src/event_parser.y b/src/event_parser.y
index 4cfd03d..661fcc6 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -76,6 +76,18 @@
 %type<variable> variable
 %type<event> variable_loop
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { free_segments($$); } <segments_list_value>
+%destructor { free_segment($$); } <segment_value>
+%destructor { free_frequency_caps($$); } <frequencies_value>
+%destructor { free_frequency_cap($$); } <frequency_value>
+%destructor { free_value($$); } <value>
+%destructor { free_pred($$); } <variable>
+%destructor { free_event($$); } <event>
+
 %start program
 
 
@@ -180,6 +192,7 @@ int event_parse(const char *text, struct betree_event** event)
     // zzdebug = 1;
     
     // Parse using Bison.
+    *event = NULL;
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
@@ -191,6 +204,8 @@ int event_parse(const char *text, struct betree_event** event)
         return 0;
     }
     else {
+        free_event(*event);
+        *event = NULL;
         return -1;
     }
 }
diff --git a/src/parser.c b/src/parser.c
index 6c74de6..4ec1dd9 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1188,7 +1188,111 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+    case 33: /* TSTRING  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 34: /* TIDENTIFIER  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 39: /* ident  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 42: /* string  */
+      { bfree((char*)((*yyvaluep).string_value).string); }
+        break;
+
+    case 43: /* integer_list_value  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 44: /* integer_list_loop  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 45: /* string_list_value  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+    case 46: /* string_list_loop  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+    case 47: /* expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 48: /* is_null_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 50: /* num_comp_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 51: /* eq_value  */
+      { if(((*yyvaluep).equality_value).value_type == AST_EQUALITY_VALUE_STRING) { bfree((char*)((*yyvaluep).equality_value).string_value.string); } }
+        break;
+
+    case 52: /* eq_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 53: /* variable_value  */
+      { free_attr_var(((*yyvaluep).variable_value)); }
+        break;
+
+    case 54: /* set_left_value  */
+      { free_set_left_value(((*yyvaluep).set_left_value)); }
+        break;
+
+    case 55: /* set_right_value  */
+      { free_set_right_value(((*yyvaluep).set_right_value)); }
+        break;
+
+    case 56: /* set_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 57: /* list_value  */
+      { free_list_value(((*yyvaluep).list_value)); }
+        break;
+
+    case 58: /* list_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 59: /* bool_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 60: /* special_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 61: /* s_frequency_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 62: /* s_segment_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 63: /* s_geo_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 64: /* s_string_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    default:
+      break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -2140,6 +2244,7 @@ int parse(const char *text, struct ast_node **node)
     // xxdebug = 1;
     
     // Parse using Bison.
+    *node = NULL;
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
@@ -2151,6 +2256,8 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..b88d3eb 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -84,6 +84,17 @@
 %type<integer_list_value> integer_list_value integer_list_loop
 %type<string_list_value> string_list_value string_list_loop
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) { bfree((char*)$$.string_value.string); } } <equality_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { free_set_left_value($$); } <set_left_value>
+%destructor { free_set_right_value($$); } <set_right_value>
+%destructor { free_list_value($$); } <list_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { free_ast_node($$); } <node>
+
 %left TCEQ TCNE TCGT TCGE TCLT TCLE
 %left TOR
 %left TAND 
@@ -239,6 +250,7 @@ int parse(const char *text, struct ast_node **node)
     // xxdebug = 1;
     
     // Parse using Bison.
+    *node = NULL;
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
@@ -250,6 +262,8 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/tree.c b/src/tree.c
index 6a11ac5..7805c84 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1088,7 +1088,7 @@ static void free_pdir(struct pdir* pdir)
     bfree(pdir);
 }
 
-static void free_pred(struct betree_variable* pred)
+void free_pred(struct betree_variable* pred)
 {
     if(pred == NULL) {
         return;
diff --git a/src/tree.h b/src/tree.h
index dbc2fcb..bd2f84b 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -84,6 +84,7 @@ struct pdir {
 };
 
 void free_sub(struct betree_sub* sub);
+void free_pred(struct betree_variable* pred);
 void free_event(struct betree_event* event);
 
 bool sub_has_attribute(const struct betree_sub* sub, betree_var_t variable_id);
-- 
2.43.0


From b1885d162c42a3e75939d5131d1271e5b05a4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 07/27] fix: reject text that follows an unknown character

---
 src/event_lexer.c | 2 +-
 src/event_lexer.l | 2 +-
 src/lexer.c       | 2 +-
 src/lexer.l       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/event_lexer.c b/src/event_lexer.c
index 60810a9..4622588 100644
--- a/src/event_lexer.c
+++ b/src/event_lexer.c
@@ -1107,7 +1107,7 @@ SAVE_FLOAT; return EVENT_FLOAT;
 case 16:
 YY_RULE_SETUP
 #line 50 "src/event_lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
diff --git a/src/event_lexer.l b/src/event_lexer.l
index 4c11217..29ea1c9 100644
--- a/src/event_lexer.l
+++ b/src/event_lexer.l
@@ -47,7 +47,7 @@
 [0-9]+              SAVE_INTEGER; return EVENT_INTEGER;
 [0-9]+\.[0-9]*      SAVE_FLOAT; return EVENT_FLOAT;
 
-.                   printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                   printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 
 %%
 
diff --git a/src/lexer.c b/src/lexer.c
index 9661314..23ff03e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..fd5f3b3 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 
 %%
 
-- 
2.43.0


From e0a7834a7a705042e6e56b1a543caca8afeba9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 08/27] fix: refuse a geo expression when the location is not
 in the domains

---
 src/ast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 7890d95..fd1a9e6 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2672,7 +2672,9 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From b1c53b3eeff1ce8234de0d09645885f978e201cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 09/27] fix: refuse expressions without a known variable
 instead of crashing

---
 src/ast.c    | 3 +--
 src/betree.c | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index fd1a9e6..9a83440 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2667,8 +2667,7 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
-            fprintf(stderr, "Invalid set expr");
-            abort();
+            fprintf(stderr, "Invalid set expr\n");
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
diff --git a/src/betree.c b/src/betree.c
index 76618cc..4cf5187 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,6 +463,11 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
-- 
2.43.0


From ec4b894c606ea96413980a9286be2c7d91db58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 10/27] fix: do not keep the strings of an expression that
 make_sub refuses

---
 src/ast.c    | 2 ++
 src/betree.c | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 9a83440..5a0b89c 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2587,6 +2587,8 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
             return (var_type == BETREE_STRING && val_type == AST_EQUALITY_VALUE_STRING)
                 || (var_type == BETREE_FLOAT && val_type == AST_EQUALITY_VALUE_FLOAT)
                 || (var_type == BETREE_INTEGER && val_type == AST_EQUALITY_VALUE_INTEGER)
+                // Becomes an integer enum once it has an id
+                || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER)
                 || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER_ENUM);
         }
         case AST_TYPE_LIST_EXPR: {
diff --git a/src/betree.c b/src/betree.c
index 4cf5187..18c908a 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -521,8 +521,6 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
-    assign_str_id(tree->config, node, true);
-    assign_ienum_id(tree->config, node, true);
     fix_float_with_no_fractions(tree->config, node);
     if(!all_exprs_valid(tree->config, node)) {
         fprintf(stderr, "Invalid expression found\n");
@@ -534,6 +532,8 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
+    assign_str_id(tree->config, node, true);
+    assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From b9572f4c47f0f6cd2ac7390994af511283ad25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 11/27] fix: count each new string once against the bound of
 its domain

---
 src/ast.c | 139 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 83 insertions(+), 56 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 5a0b89c..ca7d1d5 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2689,84 +2689,98 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
+// Strings of the expression being validated that would need a new slot in their domain
+struct new_string {
+    betree_var_t var;
+    const char* string;
+};
+
+struct new_strings {
+    size_t count;
+    struct new_string* strings;
+};
+
+static size_t get_var_string_bound(const struct config* config, betree_var_t var)
 {
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
-        }
+    const struct value_bound* bound = &config->attr_domains[var]->bound;
+    if(bound->value_type != BETREE_STRING && bound->value_type != BETREE_STRING_LIST) {
+        return SIZE_MAX;
     }
-    return SIZE_MAX;
+    return bound->smax + 1;
 }
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+static struct string_map* get_string_map_for_var(const struct config* config, betree_var_t var)
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
         struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
+        if(string_map->attr_var.var == var) {
             return string_map;
         }
     }
     return NULL;
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+static bool str_valid(const struct config* config,
+    struct new_strings* new_strings,
+    struct attr_var attr_var,
+    const char* string)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
+    size_t bound = get_var_string_bound(config, attr_var.var);
+    if(bound == SIZE_MAX) {
+        return true;
+    }
+    size_t used = 0;
+    struct string_map* string_map = get_string_map_for_var(config, attr_var.var);
     if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
+        if(map_get_(&string_map->m.base, string) != NULL) {
             return true;
         }
+        used = string_map->string_value_count;
     }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
+    for(size_t i = 0; i < new_strings->count; i++) {
+        if(new_strings->strings[i].var == attr_var.var) {
+            if(strcmp(new_strings->strings[i].string, string) == 0) {
+                return true;
+            }
+            used++;
+        }
+    }
+    if(used >= bound) {
         fprintf(stderr,
             "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
+            attr_var.attr,
             string,
             bound);
+        return false;
+    }
+    struct new_string* strings
+        = brealloc(new_strings->strings, sizeof(*strings) * (new_strings->count + 1));
+    if(strings == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
     }
-    return within_bound;
+    new_strings->strings = strings;
+    new_strings->strings[new_strings->count].var = attr_var.var;
+    new_strings->strings[new_strings->count].string = string;
+    new_strings->count++;
+    return true;
 }
 
-static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+static bool strs_valid(const struct config* config,
+    struct new_strings* new_strings,
+    struct attr_var attr_var,
+    const struct betree_string_list* strings)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
-        return true;
-    }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    for(size_t i = 0; i < strings->count; i++) {
+        if(!str_valid(config, new_strings, attr_var, strings->strings[i].string)) {
+            return false;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
-    }
-    return within_bound;
+    return true;
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static bool all_bounded_strings_valid_inner(
+    const struct config* config, struct new_strings* new_strings, const struct ast_node* node)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
@@ -2775,7 +2789,8 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
         case AST_TYPE_EQUALITY_EXPR:
             if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
                 return str_valid(config,
-                    node->equality_expr.attr_var.attr,
+                    new_strings,
+                    node->equality_expr.attr_var,
                     node->equality_expr.value.string_value.string);
             }
             return true;
@@ -2783,14 +2798,14 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
                 case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
+                    bool lhs = all_bounded_strings_valid_inner(config, new_strings, node->bool_expr.binary.lhs);
                     if(lhs == false) {
                         return false;
                     }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
+                    return all_bounded_strings_valid_inner(config, new_strings, node->bool_expr.binary.rhs);
                 }
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    return all_bounded_strings_valid_inner(config, new_strings, node->bool_expr.unary.expr);
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
                     return true;
@@ -2800,20 +2815,24 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
                 && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
                 return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
+                    new_strings,
+                    node->set_expr.left_value.variable_value,
                     node->set_expr.right_value.string_list_value);
             }
             if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
                 && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
                 return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
+                    new_strings,
+                    node->set_expr.right_value.variable_value,
                     node->set_expr.left_value.string_value.string);
             }
             return true;
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
-                return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                return strs_valid(config,
+                    new_strings,
+                    node->list_expr.attr_var,
+                    node->list_expr.value.string_list_value);
             }
             return true;
         case AST_TYPE_SPECIAL_EXPR:
@@ -2822,3 +2841,11 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    struct new_strings new_strings = { .count = 0, .strings = NULL };
+    bool valid = all_bounded_strings_valid_inner(config, &new_strings, node);
+    bfree(new_strings.strings);
+    return valid;
+}
+
-- 
2.43.0


From 16792ae4812a8ffeef6887fba1b919108e1df08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 12/27] fix: do not limit frequency cap namespaces to a single
 string

---
 src/config.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 7be0624..d32235a 100644
--- a/src/config.c
+++ b/src/config.c
@@ -364,7 +364,11 @@ betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == string_map->string_value_count) {
+    // The namespaces of frequency caps are strings too, they have no bound
+    bool is_bounded = attr_domain->bound.value_type == BETREE_STRING
+        || attr_domain->bound.value_type == BETREE_STRING_LIST;
+    if(!always_assign && is_bounded
+        && attr_domain->bound.smax + 1 == string_map->string_value_count) {
         return INVALID_STR;
     }
     add_to_string_map(string_map, string);
-- 
2.43.0


From d988854c0fd4fab7a5a848e8f41d195a0d8ad7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 13/27] fix: short-circuit a negation by inverting its
 operand's result

---
 src/tree.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 7805c84..8aaf4e3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1453,6 +1453,19 @@ static enum short_circuit_e short_circuit_for_attr_var(
     return SHORT_CIRCUIT_NONE;
 }
 
+static enum short_circuit_e invert_short_circuit(enum short_circuit_e short_circuit)
+{
+    switch(short_circuit) {
+        case SHORT_CIRCUIT_PASS:
+            return SHORT_CIRCUIT_FAIL;
+        case SHORT_CIRCUIT_FAIL:
+            return SHORT_CIRCUIT_PASS;
+        case SHORT_CIRCUIT_NONE:
+        default:
+            return SHORT_CIRCUIT_NONE;
+    }
+}
+
 static enum short_circuit_e short_circuit_for_node(
     betree_var_t id, bool inverted, const struct ast_node* node)
 {
@@ -1503,7 +1516,10 @@ static enum short_circuit_e short_circuit_for_node(
                     return SHORT_CIRCUIT_NONE;
                 }
                 case AST_BOOL_NOT:
-                    return short_circuit_for_node(id, !inverted, node->bool_expr.unary.expr);
+                    // Whatever settles the operand settles the negation the other way, which is not
+                    // the same as settling the negation of each part of the operand
+                    return invert_short_circuit(
+                        short_circuit_for_node(id, inverted, node->bool_expr.unary.expr));
                 case AST_BOOL_VARIABLE:
                     return short_circuit_for_attr_var(id, inverted, node->bool_expr.variable);
                 default:
-- 
2.43.0


From a90d06f12cfca430e5f75d26509c0e41cd7a1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 14/27] fix: an undefined now fails a frequency cap even
 without any cap

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index ca7d1d5..2263311 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -526,15 +526,15 @@ static bool match_special_expr(
                     if(is_caps_defined == false) {
                         return false;
                     }
-                    if(caps->size == 0) {
-                        // Optimization from looking at what within_frequency_caps does
-                        return true;
-                    }
                     int64_t now;
                     bool is_now_defined = get_integer_var(f->now.var, preds, &now);
                     if(is_now_defined == false) {
                         return false;
                     }
+                    if(caps->size == 0) {
+                        // Optimization from looking at what within_frequency_caps does
+                        return true;
+                    }
                     return within_frequency_caps(
                         caps, f->type, f->id, f->ns, f->value, f->length, now);
                 }
-- 
2.43.0


From 1753dd319fae23e599ebfa85afdd3e61cb0d7688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 15/27] fix: bound a negated and like an or of negations

---
 src/ast.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 2263311..9af7ec4 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1090,6 +1090,22 @@ struct bound_dirty {
     bool max_dirty;
 };
 
+// The negation of an and is the or of the negations, and the other way around
+static enum ast_bool_e reverse_bool_op(enum ast_bool_e op)
+{
+    switch(op) {
+        case AST_BOOL_AND:
+            return AST_BOOL_OR;
+        case AST_BOOL_OR:
+            return AST_BOOL_AND;
+        case AST_BOOL_NOT:
+        case AST_BOOL_VARIABLE:
+        case AST_BOOL_LITERAL:
+        default:
+            return op;
+    }
+}
+
 static void get_variable_bound_inner(const struct attr_domain* domain,
     const struct ast_node* node,
     struct value_bound* bound,
@@ -1394,7 +1410,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                 default: abort();
             }
         case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+            switch(is_reversed ? reverse_bool_op(node->bool_expr.op) : node->bool_expr.op) {
                 case AST_BOOL_LITERAL:
                     return;
                 case AST_BOOL_VARIABLE:
-- 
2.43.0


From 6a89e145a61cd4bc542999b9198779a628f77e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 16/27] fix: do not split a domain whose width overflows

---
 src/tree.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 8aaf4e3..cb6cd91 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -723,14 +723,15 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            // The width of the domain does not have to fit in an int64_t
+            return ((uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin)
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
-                < config->max_domain_for_split;
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
+                < (double)config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
         case BETREE_STRING:
-- 
2.43.0


From aeca6fe995a5950bfdad2a0ca731a6f4e86ef743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 17/27] fix: do not abort when a float bound has no whole width

---
 src/tree.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index cb6cd91..64ea6d9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -836,6 +836,15 @@ static void space_partitioning(const struct config* config, struct cnode* cnode)
     update_cluster_capacity(config, lnode);
 }
 
+// Where to split a float bound, outside of the bound when it is too narrow
+static double float_middle(double start, double end)
+{
+    if(end - start > 2) {
+        return start + ceil((end - start) / 2);
+    }
+    return start + 1;
+}
+
 static bool is_atomic(const struct cdir* cdir)
 {
     switch(cdir->bound.value_type) {
@@ -843,7 +852,11 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            if(feq(cdir->bound.fmax - cdir->bound.fmin, 1)) {
+                return false;
+            }
+            double middle = float_middle(cdir->bound.fmin, cdir->bound.fmax);
+            return !(cdir->bound.fmin < middle && middle < cdir->bound.fmax);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -930,23 +943,18 @@ static struct value_bounds split_value_bound(struct value_bound bound)
             double start = bound.fmin, end = bound.fmax;
             lbound.fmin = start;
             rbound.fmax = end;
-            if(fabs(end - start) > 2) {
-                double middle = start + ceil((end - start) / 2);
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
-            else if(feq(fabs(end - start), 2)) {
-                double middle = start + 1;
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
-            else if(feq(fabs(end - start), 1)) {
+            if(feq(end - start, 1)) {
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
             else {
-                fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
-                abort();
+                double middle = float_middle(start, end);
+                if(!(start < middle && middle < end)) {
+                    fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
+                    abort();
+                }
+                lbound.fmax = middle;
+                rbound.fmin = middle;
             }
             break;
         }
-- 
2.43.0


From d4e90bfae2d532b2dc7d75aa5c5b13cac039ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 18/27] fix: drop the duplicates of a list in an expression

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 9af7ec4..012213d 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2521,10 +2521,10 @@ void sort_lists(struct ast_node* node)
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 switch(node->set_expr.right_value.value_type) {
                     case AST_SET_RIGHT_VALUE_INTEGER_LIST:
-                        sort_integer_list(node->set_expr.right_value.integer_list_value);
+                        sort_and_remove_duplicate_integer_list(node->set_expr.right_value.integer_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_STRING_LIST:
-                        sort_string_list(node->set_expr.right_value.string_list_value);
+                        sort_and_remove_duplicate_string_list(node->set_expr.right_value.string_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_VARIABLE:
                         return;
@@ -2538,10 +2538,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 683f517d0f4bbf00656828111b2421efdfe9af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 19/27] fix: keep the distinct unknown strings of an event's
 list

---
 src/value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value.c b/src/value.c
index a5bdd80..f50ee77 100644
--- a/src/value.c
+++ b/src/value.c
@@ -432,7 +432,10 @@ void remove_duplicates_string_list(struct betree_string_list* list)
     }
     size_t r = 0;
     for (size_t i = 1; i < list->count; i++) {
-        if (list->strings[r].str != list->strings[i].str) {
+        // The strings unknown to the map all share the same id
+        if (list->strings[r].str != list->strings[i].str
+            || (list->strings[r].str == INVALID_STR
+                && strcmp(list->strings[r].string, list->strings[i].string) != 0)) {
             list->strings[++ r] = list->strings[i]; // copy-in next unique number
         }
         else {
-- 
2.43.0


From d750df152afd87dc52ee6016e8e0ea49a4d0040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 20/27] fix: stop when a string cannot be added to its map

---
 src/config.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index d32235a..fe07a26 100644
--- a/src/config.c
+++ b/src/config.c
@@ -280,7 +280,10 @@ static void add_to_string_map(struct string_map* string_map, const char* string)
     if(string_map->string_value_count == 0) {
         map_init(&string_map->m);
     }
-    map_set(&string_map->m, string, string_map->string_value_count);
+    if(map_set(&string_map->m, string, string_map->string_value_count) != 0) {
+        fprintf(stderr, "%s map_set failed\n", __func__);
+        abort();
+    }
     string_map->string_value_count++;
 }
 
-- 
2.43.0


From 8fd4c132d0804d8f24dc7c18e173a48d364a9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 21/27] fix: refuse an integer enum value beyond the bound of
 its domain

---
 src/ast.c | 77 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 012213d..e5457fe 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <inttypes.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -2705,10 +2706,11 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-// Strings of the expression being validated that would need a new slot in their domain
+// Values of the expression being validated that would need a new slot in their domain
 struct new_string {
     betree_var_t var;
-    const char* string;
+    const char* string; // NULL for an integer enum
+    int64_t integer;
 };
 
 struct new_strings {
@@ -2736,6 +2738,22 @@ static struct string_map* get_string_map_for_var(const struct config* config, be
     return NULL;
 }
 
+static void add_new_string(
+    struct new_strings* new_strings, betree_var_t var, const char* string, int64_t integer)
+{
+    struct new_string* strings
+        = brealloc(new_strings->strings, sizeof(*strings) * (new_strings->count + 1));
+    if(strings == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
+    }
+    new_strings->strings = strings;
+    new_strings->strings[new_strings->count].var = var;
+    new_strings->strings[new_strings->count].string = string;
+    new_strings->strings[new_strings->count].integer = integer;
+    new_strings->count++;
+}
+
 static bool str_valid(const struct config* config,
     struct new_strings* new_strings,
     struct attr_var attr_var,
@@ -2769,16 +2787,45 @@ static bool str_valid(const struct config* config,
             bound);
         return false;
     }
-    struct new_string* strings
-        = brealloc(new_strings->strings, sizeof(*strings) * (new_strings->count + 1));
-    if(strings == NULL) {
-        fprintf(stderr, "%s brealloc failed\n", __func__);
-        abort();
+    add_new_string(new_strings, attr_var.var, string, 0);
+    return true;
+}
+
+static bool ienum_valid(const struct config* config,
+    struct new_strings* new_strings,
+    struct attr_var attr_var,
+    int64_t integer)
+{
+    size_t bound = config->attr_domains[attr_var.var]->bound.smax + 1;
+    if(bound == SIZE_MAX) {
+        return true;
     }
-    new_strings->strings = strings;
-    new_strings->strings[new_strings->count].var = attr_var.var;
-    new_strings->strings[new_strings->count].string = string;
-    new_strings->count++;
+    if(try_get_id_for_ienum(config, attr_var, integer) != INVALID_IENUM) {
+        return true;
+    }
+    size_t used = 0;
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == attr_var.var) {
+            used = config->integer_maps[i].integer_value_count;
+        }
+    }
+    for(size_t i = 0; i < new_strings->count; i++) {
+        if(new_strings->strings[i].var == attr_var.var) {
+            if(new_strings->strings[i].integer == integer) {
+                return true;
+            }
+            used++;
+        }
+    }
+    if(used >= bound) {
+        fprintf(stderr,
+            "For attr '%s', integer %" PRId64 " could not fit within the bound %zu\n",
+            attr_var.attr,
+            integer,
+            bound);
+        return false;
+    }
+    add_new_string(new_strings, attr_var.var, NULL, integer);
     return true;
 }
 
@@ -2809,6 +2856,14 @@ static bool all_bounded_strings_valid_inner(
                     node->equality_expr.attr_var,
                     node->equality_expr.value.string_value.string);
             }
+            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER
+                && config->attr_domains[node->equality_expr.attr_var.var]->bound.value_type
+                    == BETREE_INTEGER_ENUM) {
+                return ienum_valid(config,
+                    new_strings,
+                    node->equality_expr.attr_var,
+                    node->equality_expr.value.integer_value);
+            }
             return true;
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
-- 
2.43.0


From 0dd6bfcc3ee91166cf157fae246f0dea4052ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 22/27] fix: stop when a string cannot be copied

---
 src/alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/alloc.c b/src/alloc.c
index 8f5810b..eda5466 100644
--- a/src/alloc.c
+++ b/src/alloc.c
@@ -23,9 +23,11 @@ char* bstrdup(const char *s1)
     size_t size = strlen(s1) + 1;
 
     str = bmalloc(size);
-    if (str) {
-        memcpy(str, s1, size);
+    if(str == NULL) {
+        fprintf(stderr, "%s bmalloc failed\n", __func__);
+        abort();
     }
+    memcpy(str, s1, size);
     return str;
 }
 
-- 
2.43.0


From 6bae5cf1a6ed21a1bfa6fac97d220d9f89d03ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 23/27] fix: find a segment wherever the event lists it

---
 src/special.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..5b9948c 100644
--- a/src/special.c
+++ b/src/special.c
@@ -43,13 +43,9 @@ bool segment_within(
     int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
         if(segments->content[i]->id == segment_id) {
             return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
@@ -58,13 +54,9 @@ bool segment_before(
     int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
         if(segments->content[i]->id == segment_id) {
             return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
-- 
2.43.0


From 922ecf36bf809bf66a3ffe3108e791ff4459867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 24/27] fix: find a float an epsilon away from the bound it
 equals

---
 src/tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 64ea6d9..52fb151 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -152,7 +152,9 @@ static bool is_event_enclosed(const struct betree_variable** preds, const struct
         case BETREE_INTEGER:
             return (open_left || cdir->bound.imin <= pred->value.integer_value) && (open_right || cdir->bound.imax >= pred->value.integer_value);
         case BETREE_FLOAT:
-            return (open_left || cdir->bound.fmin <= pred->value.float_value) && (open_right || cdir->bound.fmax >= pred->value.float_value);
+            // Floats are equal when they are less than an epsilon apart
+            return (open_left || cdir->bound.fmin - __DBL_EPSILON__ <= pred->value.float_value)
+                && (open_right || cdir->bound.fmax + __DBL_EPSILON__ >= pred->value.float_value);
         case BETREE_STRING:
             return (cdir->bound.smin <= pred->value.string_value.str) && (open_right || cdir->bound.smax >= pred->value.string_value.str);
         case BETREE_INTEGER_ENUM:
-- 
2.43.0


From 904837a60d29a4ddf0dd7a3b61e19b9171cb12cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 25/27] fix: do not let a known bound become the value of an
 unknown one

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 18c908a..32826c9 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -392,13 +392,16 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 break;
             case BETREE_INTEGER:
             case BETREE_INTEGER_LIST:
+                // A bound that is known must not become the value of an unknown one
                 if(attr_domain->bound.imin != INT64_MIN) {
+                    bound.imin = bound.imin == INT64_MIN ? INT64_MIN + 1 : bound.imin;
                     attr_domain->bound.imin = bound.imin < attr_domain->bound.imin ? bound.imin : attr_domain->bound.imin;
                 }
                 else {
                     attr_domain->bound.imin = bound.imin;
                 }
                 if(attr_domain->bound.imax != INT64_MAX) {
+                    bound.imax = bound.imax == INT64_MAX ? INT64_MAX - 1 : bound.imax;
                     attr_domain->bound.imax = bound.imax > attr_domain->bound.imax ? bound.imax : attr_domain->bound.imax;
                 }
                 else {
@@ -407,12 +410,14 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 break;
             case BETREE_FLOAT:
                 if(fne(attr_domain->bound.fmin, -DBL_MAX)) {
+                    bound.fmin = feq(bound.fmin, -DBL_MAX) ? nextafter(-DBL_MAX, 0.) : bound.fmin;
                     attr_domain->bound.fmin = bound.fmin < attr_domain->bound.fmin ? bound.fmin : attr_domain->bound.fmin;
                 }
                 else {
                     attr_domain->bound.fmin = bound.fmin;
                 }
                 if(fne(attr_domain->bound.fmax, DBL_MAX)) {
+                    bound.fmax = feq(bound.fmax, DBL_MAX) ? nextafter(DBL_MAX, 0.) : bound.fmax;
                     attr_domain->bound.fmax = bound.fmax > attr_domain->bound.fmax ? bound.fmax : attr_domain->bound.fmax;
                 }
                 else {
-- 
2.43.0


From ccb006b40537773d4636f6ac97578a35ffae41f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 26/27] fix: keep all 64 bits of frequency limits and segment
 windows

---
 src/special.c | 6 +++---
 src/special.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/special.c b/src/special.c
index 5b9948c..7744223 100644
--- a/src/special.c
+++ b/src/special.c
@@ -12,7 +12,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
@@ -40,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id == segment_id) {
@@ -51,7 +51,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id == segment_id) {
diff --git a/src/special.h b/src/special.h
index 688aa9c..869c28f 100644
--- a/src/special.h
+++ b/src/special.h
@@ -10,13 +10,13 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From 794020c97781b909a449f90e5a37731668e99d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 27/27] fix: read an event's float written without a fraction

---
 src/tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 52fb151..faecbff 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1910,6 +1910,11 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
+        // A float with no fraction is written like an integer
+        if(domain->bound.value_type == BETREE_FLOAT
+            && pred->value.value_type == BETREE_INTEGER) {
+            pred->value.float_value = (double)pred->value.integer_value;
+        }
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
-- 
2.43.0

