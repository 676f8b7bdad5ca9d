From c1262e1dbba20f186eeab40cdc1a34919ac52d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:53 +0000
Subject: [PATCH 01/27] fix: reject definitions whose right hand side can not
 be simplified

The wrong tree was checked for NULL, so that 'f = 1/0' crashed.
---
 src/client/commands/cmd_definition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -145,7 +145,7 @@ static bool add_function(char *name, char *left, char *right, bool is_constant)
 
     // Since right expression was parsed raw to detect recursive definitions, do post processing
     right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
+    if (right_tree == NULL)
     {
         goto error;
     }
-- 
2.43.0


From 0d39c0fa968161cfe5b781fc7b5aebca9038072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:54 +0000
Subject: [PATCH 02/27] fix: do not reuse operator ids after an operator has
 been deleted

Ids were derived from the number of operators, so that a new function could get
the id of an existing one and was then evaluated by the wrong definition.
---
 src/engine/parsing/context.c | 6 ++++--
 src/engine/parsing/context.h | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..4703045 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -13,7 +13,8 @@ ParsingContext ctx_create()
     ParsingContext res = {
         .op_list       = list_create(sizeof(Operator)),
         .keywords_trie = trie_create(0),
-        .glue_op       = NULL
+        .glue_op       = NULL,
+        .next_op_id    = 0
     };
 
     for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
@@ -94,7 +95,8 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    // Ids are never reused, not even when operators have been deleted in the meantime
+    op.id = ctx->next_op_id++;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
diff --git a/src/engine/parsing/context.h b/src/engine/parsing/context.h
index 372fb4b..6236995 100644
--- a/src/engine/parsing/context.h
+++ b/src/engine/parsing/context.h
@@ -10,6 +10,7 @@ typedef struct
     LinkedList op_list;               // List of operators (payload: Operator)
     Trie op_tries[OP_NUM_PLACEMENTS]; // Tries for fast operator lookup (payload: *ListNode)
     Trie keywords_trie;               // Contains all names for keyword lookup in tokenizer (no payload)
+    size_t next_op_id;                // Id of next operator to be added
 } ParsingContext;
 
 ParsingContext ctx_create();
-- 
2.43.0


From 0fd15e84cf22e24f381e6c64af76f02d6b683bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:07 +0000
Subject: [PATCH 03/27] fix: record negative results in history when
 simplification is loaded

Simplification replaces negative constants by a negation, which was then not
recognized as a result.
---
 src/client/commands/cmd_evaluation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..b1ad14e 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,10 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Negative results may have been replaced by an operator node by simplification
+    if (count_all_variable_nodes(node) == 0)
     {
-        history_add(get_const_value(node));
+        history_add(arith_evaluate(node));
     }
     free_tree(node);
     return true;
-- 
2.43.0


From a180d00042c7ca78b6c90b28dcbd52b051cba76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:08 +0000
Subject: [PATCH 04/27] fix: do not crash on delimiter within nested
 parentheses

'((1,2))' dereferenced the operator of the outer parenthesis, which is NULL.
---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 17da73c036cb2a15d53ce862bd97afa73cf93b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:29 +0000
Subject: [PATCH 05/27] fix: do not chop off last character of a last line
 without newline

Also, a line starting with a NUL character caused a write before the buffer.
---
 src/engine/transformation/rule_parsing.c |  8 +++++---
 src/util/console_util.c                  | 12 ++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..ca1330c 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -190,14 +190,16 @@ ssize_t parse_rulesets_from_file(FILE *file,
     ssize_t curr_ruleset = -1;
     size_t line_index = 0;
     char *line_start = NULL;
-    size_t line_length = 0;
+    size_t buffer_length = 0;
+    ssize_t line_length;
 
-    while (getline(&line_start, &line_length, file) != EOF)
+    while ((line_length = getline(&line_start, &buffer_length, file)) != EOF)
     {
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        // Overwrite newline char, last line does not need to have one
+        if (line_length > 0 && line[line_length - 1] == '\n') line[line_length - 1] = '\0';
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..9fac71a 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -65,17 +65,21 @@ bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_
         vprintf(prompt_fmt, args);
     }
     
-    size_t size;
+    size_t size = 0;
     *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
+    ssize_t length = getline(out_input, &size, file);
+    if (length == EOF)
     {
         free(*out_input);
         *out_input = NULL;
         return false;
     }
 
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
+    // Overwrite newline char, last line does not need to have one
+    if (length > 0 && (*out_input)[length - 1] == '\n')
+    {
+        (*out_input)[length - 1] = '\0';
+    }
     return true;
 }
 
-- 
2.43.0


From 8e3283e5fd877cef40274e30fefc22285ef3c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:50 +0000
Subject: [PATCH 06/27] fix: report failed reads instead of taking them for the
 end of input

A read error was not reported, did not affect the exit code and the incomplete
line read so far was executed.
---
 src/client/commands/commands.c |  6 +++---
 src/util/console_util.c        | 12 +++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 2721442..8645a5a 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -87,7 +87,7 @@ void init_commands()
 /*
 Summary: Loop to ask user or file for command, ignores comments
     You may want to call set_interactive before.
-Returns: True when no command exited with an error, false otherwise
+Returns: True when no command exited with an error and input was read completely, false otherwise
 */
 bool process_input(FILE *file)
 {
@@ -109,9 +109,9 @@ bool process_input(FILE *file)
         }
         free(input);
     }
-    // Loop was exited because input was EOF
+    // Loop was exited because input was EOF or could not be read
     whisper("\n");
-    return res;
+    return res && !ferror(file);
 }
 
 /*
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 9fac71a..b74525b 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -2,6 +2,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 #ifdef USE_READLINE
 #include <readline/readline.h>
 #include <readline/history.h>
@@ -68,8 +69,17 @@ bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_
     size_t size = 0;
     *out_input = NULL;
     ssize_t length = getline(out_input, &size, file);
-    if (length == EOF)
+    // When reading failed, the line may be incomplete
+    if (length == EOF || ferror(file))
     {
+        if (ferror(file))
+        {
+            report_error("Error reading input: %s\n", strerror(errno));
+        }
+        else if (!feof(file))
+        {
+            software_defect("Out of memory while reading input\n");
+        }
         free(*out_input);
         *out_input = NULL;
         return false;
-- 
2.43.0


From 7d5f308b821fab4e367241a5e7873fad96221b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 07/27] fix: keep simplification rulesets when loading new ones
 fails

A missing or malformed file destroyed the rulesets in use, a malformed one was
reported as success and leaked what had been read so far.
---
 src/client/commands/cmd_load.c             |  6 ++++-
 src/client/simplification/simplification.c | 30 ++++++++++++++++------
 src/engine/transformation/rule_parsing.c   |  7 ++++-
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..bb390ca 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -25,13 +25,17 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
     if (begins_with(LOAD_SIMPLIFICATION, input))
     {
         input += strlen(LOAD_SIMPLIFICATION);
-        unload_simplification();
         ssize_t count = init_simplification(input);
         if (count == -1)
         {
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            report_error("Malformed simplification ruleset\n");
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..4fbfb84 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -67,6 +67,7 @@ static void replace_negative_consts(Node **tree)
 
 /*
 Summary: Initializes tree simplification system
+    Previously loaded rulesets are replaced on success and left unchanged on error
 Returns: -1 if file not readable,
          -2 if ruleset file malformed,
          number of simplification rules loaded on success
@@ -77,21 +78,34 @@ ssize_t init_simplification(const char *ruleset_path)
 
     if (ruleset_file == NULL) return -1;
 
+    // Only replace current rulesets after the new ones have been read successfully
+    Vector new_rulesets[NUM_RULESETS];
     for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        rulesets[i] = get_empty_ruleset();
+        new_rulesets[i] = get_empty_ruleset();
     }
-    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
+    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, new_rulesets);
+    bool read_error = ferror(ruleset_file);
+    fclose(ruleset_file);
+
+    if (!read_error && num_rulesets != -1 && num_rulesets != NUM_RULESETS)
     {
-        return -2;
+        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
     }
-    if (num_rulesets != NUM_RULESETS)
+    if (read_error || num_rulesets != NUM_RULESETS)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
-        return -2;
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&new_rulesets[i]);
+        }
+        return read_error ? -1 : -2;
+    }
+
+    unload_simplification();
+    for (size_t i = 0; i < NUM_RULESETS; i++)
+    {
+        rulesets[i] = new_rulesets[i];
     }
-    fclose(ruleset_file);
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index ca1330c..0ec1c24 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -193,7 +193,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
     size_t buffer_length = 0;
     ssize_t line_length;
 
-    while ((line_length = getline(&line_start, &buffer_length, file)) != EOF)
+    while ((line_length = getline(&line_start, &buffer_length, file)) != EOF && !ferror(file))
     {
         line_index++;
         char *line = line_start;
@@ -223,6 +223,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
             if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
+                vec_pop(&out_rulesets[curr_ruleset]); // Rule has not been initialized
                 goto error;
             }
         }
@@ -233,6 +234,10 @@ ssize_t parse_rulesets_from_file(FILE *file,
     }
 
     free(line_start);
+    if (line_length == EOF && !feof(file) && !ferror(file))
+    {
+        software_defect("Out of memory while reading rulesets\n");
+    }
     return curr_ruleset + 1;
 
     error:
-- 
2.43.0


From 6c48cd4d93ce41ebff14b13f391e1416ac8f1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 08/27] fix: do not let user-defined functions interfere with
 loading of simplification rulesets

Patterns for derivatives were parsed in the context of the user, so that loading
a ruleset crashed after a function 'x' had been defined.
---
 src/client/simplification/simplification.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 4fbfb84..4f0dd2e 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -17,7 +17,7 @@
 #include "propositional_context.h"
 #include "propositional_evaluation.h"
 
-#define P(x) (parse_easy(g_ctx, x))
+#define P(x) (parse_easy(g_propositional_ctx, x)) // Does not contain user-defined functions
 #define NUM_RULESETS 7
 
 /*
-- 
2.43.0


From 014469025f3a23c4bfe4fda67cdab67eef1393bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:12 +0000
Subject: [PATCH 09/27] fix: let load command fail when a command in the loaded
 file failed

Errors in a loaded file did not affect the exit code, although its content is
processed as if it had been typed in.
---
 src/client/commands/cmd_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index bb390ca..a2eb338 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -55,9 +55,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool success = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return success;
     }
 }
-- 
2.43.0


From 4a3e8f076f48ab119badab84fda5e37e1972a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:25 +0000
Subject: [PATCH 10/27] fix: consider all previous errors when quit is used in
 a loaded file

Only errors within the loaded file affected the exit code.
---
 src/client/commands/commands.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 8645a5a..896a5b6 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -49,6 +49,9 @@ static const struct Command commands[] = {
     { cmd_evaluation_check, cmd_evaluation_exec }
 };
 
+// Set when a command failed, also considers surrounding inputs when quit is used in a loaded file
+static bool any_error = false;
+
 /*
 Summary: Frees all resources so that heap is empty after exit,
     except data malloced by readline and input of quit-command
@@ -98,13 +101,14 @@ bool process_input(FILE *file)
         if (strcmp(input, QUIT_COMMAND) == 0)
         {
             free(input);
-            exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
+            exit(any_error ? EXIT_FAILURE : EXIT_SUCCESS);
         }
         if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
         {
             if (!exec_command(input))
             {
                 res = false;
+                any_error = true;
             }
         }
         free(input);
-- 
2.43.0


From 2c01ee73a3675b809ec0e81004bd75558900f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 11/27] fix: treat commands given as arguments as if typed in

Comments, empty commands and quit were evaluated as expressions.
---
 src/client/commands/commands.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 896a5b6..9c63a5b 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -88,7 +88,7 @@ void init_commands()
 }
 
 /*
-Summary: Loop to ask user or file for command, ignores comments
+Summary: Loop to ask user or file for command
     You may want to call set_interactive before.
 Returns: True when no command exited with an error and input was read completely, false otherwise
 */
@@ -98,18 +98,10 @@ bool process_input(FILE *file)
     char *input = NULL;
     while (ask_input(file, &input, NULL))
     {
-        if (strcmp(input, QUIT_COMMAND) == 0)
+        if (!exec_command(input))
         {
-            free(input);
-            exit(any_error ? EXIT_FAILURE : EXIT_SUCCESS);
-        }
-        if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
-        {
-            if (!exec_command(input))
-            {
-                res = false;
-                any_error = true;
-            }
+            res = false;
+            any_error = true;
         }
         free(input);
     }
@@ -121,9 +113,20 @@ bool process_input(FILE *file)
 /*
 Summary: Tries to apply a command to input.
     First command whose check-function does not return 0 is executed.
+    Ignores empty input and comments, does not return on quit-command.
 */
 bool exec_command(char *input)
 {
+    if (strcmp(input, QUIT_COMMAND) == 0)
+    {
+        exit(any_error ? EXIT_FAILURE : EXIT_SUCCESS);
+    }
+
+    if (input[0] == '\0' || input[0] == COMMENT_PREFIX)
+    {
+        return true;
+    }
+
     for (size_t i = 0; i < NUM_COMMANDS; i++)
     {
         int check_code = commands[i].check_handler(input);
-- 
2.43.0


From 78f3da07065298f56b7099b1027a8ec9e60a4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:02 +0000
Subject: [PATCH 12/27] fix: do not lose errors of constant subexpressions when
 simplification is loaded

With a ruleset loaded, errors of the first reduction were ignored and could
disappear by rewriting, e.g. 0*@5 gave 0 although there is no fifth result,
and 0/0 gave 0.
---
 src/client/simplification/simplification.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 4f0dd2e..977ff5d 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -218,6 +218,9 @@ ListenerError simplify(Node **tree, const Node **errnode)
     // It's okay if simplification module is not initialized, just return without doing much
     if (!initialized) return res;
 
+    // Constant derivatives are eliminated below, any other error must not get lost (e.g. by rewriting 0*x to 0)
+    if (res != LISTENERERR_SUCCESS && res != LISTENERERR_IMPOSSIBLE_DERIV) return res;
+
     // Apply elimination rules
     simplify_without_derivative(tree);
     res = apply_derivatives(tree, errnode);
-- 
2.43.0


From d7caa8d0943aa3fe674d59cb729f45f98f4e4d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:15 +0000
Subject: [PATCH 13/27] fix: do not write past the last ruleset when a file
 defines too many

More than one ruleset beyond the expected number, one after another, made
the index skip the check for a full buffer.
---
 src/engine/transformation/rule_parsing.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 0ec1c24..b763067 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -206,16 +206,11 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
-- 
2.43.0


From 2ebad00a4ae1405d077a12e16d4c9734fc16adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:04 +0000
Subject: [PATCH 14/27] fix: only treat 'clear name' as removal of a name, not
 every input that begins with clear

---
 src/client/commands/cmd_clear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_clear.c b/src/client/commands/cmd_clear.c
index aed56c2..793c7a6 100644
--- a/src/client/commands/cmd_clear.c
+++ b/src/client/commands/cmd_clear.c
@@ -13,7 +13,7 @@
 int cmd_clear_check(const char *input)
 {
     if (strcmp(CLEAR_COMMAND, input) == 0) return CLEAR_CODE;
-    if (begins_with(CLEAR_COMMAND, input)) return UNDEF_CODE;
+    if (begins_with(CLEAR_COMMAND " ", input)) return UNDEF_CODE;
     return false;
 }
 
-- 
2.43.0


From 7f0f392422a78c81189d7415c62ddc20d8381917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:05 +0000
Subject: [PATCH 15/27] fix: do not print and remember a fold result that could
 not be evaluated

---
 src/client/commands/cmd_table.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..6519574 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -146,6 +146,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     }
 
     Table *table = get_empty_table();
+    ListenerError fold_err = LISTENERERR_SUCCESS;
     
     // Print header row only if interactive
     if (is_interactive())
@@ -188,7 +189,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
                 Node *current_fold_y = malloc_constant_node(result, 0);
                 replace_variable_nodes(&current_fold, current_fold_x, FOLD_VAR_1);
                 replace_variable_nodes(&current_fold, current_fold_y, FOLD_VAR_2);
-                fold_val = arith_evaluate(current_fold);
+                fold_err = tree_reduce(current_fold, arith_op_evaluate, &fold_val, NULL);
                 free_tree(current_fold);
                 free_tree(current_fold_x);
                 free_tree(current_fold_y);
@@ -203,6 +204,13 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         free_tree(current_val);
         next_row(table);
         start_val += step_val;
+
+        if (fold_err != LISTENERERR_SUCCESS)
+        {
+            report_error_at(args[4] - input, strlen(args[4]), "Error: Fold expression can not be evaluated");
+            free_table(table);
+            goto exit;
+        }
     }
 
     set_default_alignments(table, 3, (TableHAlign[]){ H_ALIGN_RIGHT, H_ALIGN_RIGHT, H_ALIGN_RIGHT }, NULL);
-- 
2.43.0


From 73b1aef4b04a1a9eb1e959d975e09e8fecddc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:12 +0000
Subject: [PATCH 16/27] fix: Report a rule with too many constraints instead of
 ignoring the rest of them

---
 src/engine/transformation/rule_parsing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index b763067..91805cf 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -53,6 +53,12 @@ bool parse_constraints(const char *string,
     *num_constraints = 0;
     while (str != NULL)
     {
+        if (*num_constraints == buffer_size)
+        {
+            report_pattern_errcode(MATCHING_MAX_CONSTRAINTS_EXCEEDED);
+            goto error;
+        }
+
         char *next_and = strstr(str, AND);
         if (next_and != NULL)
         {
@@ -63,11 +69,9 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
         str = next_and;
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From 2863fd3643f3120f1a00686d4b6de588a3b9ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:52 +0000
Subject: [PATCH 17/27] fix: Do not lose errors of constant subexpressions next
 to a derivative of a constant

---
 src/client/simplification/simplification.c | 28 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 977ff5d..11bd452 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -204,6 +204,25 @@ void simplify_without_derivative(Node **tree)
     apply_simplification(tree, rulesets + 6);
 }
 
+/*
+Summary: Reduces constant subtrees that do not contain derivatives, since those are yet to be eliminated
+*/
+static ListenerError reduce_except_derivatives(Node **tree, const Node **errnode)
+{
+    if (find_op((const Node**)tree, get_op(deriv_after)) == NULL
+        && find_op((const Node**)tree, get_op(deriv_before.pattern)) == NULL)
+    {
+        return tree_reduce_constant_subtrees(tree, arith_op_evaluate, errnode);
+    }
+
+    for (size_t i = 0; i < get_num_children(*tree); i++)
+    {
+        ListenerError res = reduce_except_derivatives(get_child_addr(*tree, i), errnode);
+        if (res != LISTENERERR_SUCCESS) return res;
+    }
+    return LISTENERERR_SUCCESS;
+}
+
 /*
 Summary: Applies all pre-defined rewrite rules to tree
 Params
@@ -213,13 +232,12 @@ Returns: True when transformations could be applied, False otherwise
 */
 ListenerError simplify(Node **tree, const Node **errnode)
 {
-    ListenerError res = tree_reduce_constant_subtrees(tree, arith_op_evaluate, errnode);
-
     // It's okay if simplification module is not initialized, just return without doing much
-    if (!initialized) return res;
+    if (!initialized) return tree_reduce_constant_subtrees(tree, arith_op_evaluate, errnode);
 
-    // Constant derivatives are eliminated below, any other error must not get lost (e.g. by rewriting 0*x to 0)
-    if (res != LISTENERERR_SUCCESS && res != LISTENERERR_IMPOSSIBLE_DERIV) return res;
+    // Errors must not get lost (e.g. by rewriting 0*x to 0)
+    ListenerError res = reduce_except_derivatives(tree, errnode);
+    if (res != LISTENERERR_SUCCESS) return res;
 
     // Apply elimination rules
     simplify_without_derivative(tree);
-- 
2.43.0


From 03ca9cf1f7039c477c1c97f4f89130deb297c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:14 +0000
Subject: [PATCH 18/27] fix: Evaluate count(...) in constraints of rules
 instead of exiting

---
 src/client/simplification/propositional_evaluation.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/propositional_evaluation.c b/src/client/simplification/propositional_evaluation.c
index 3a69afb..1bc5109 100644
--- a/src/client/simplification/propositional_evaluation.c
+++ b/src/client/simplification/propositional_evaluation.c
@@ -84,13 +84,20 @@ double type_eval(__attribute__((unused)) size_t num_children, Node **children)
     return 0; // To make compiler happy
 }
 
+double count_eval(size_t num_children, __attribute__((unused)) Node **children)
+{
+    return num_children;
+}
+
 bool propositional_checker(Node **tree)
 {
     // Step 1: Reduce type(x)
     tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "type", OP_PLACE_FUNCTION), type_eval);
     // Step 2: Reduce equal(x,y)
     tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "equal", OP_PLACE_FUNCTION), equal_eval);
-    // Step 3: Reduce everything else
+    // Step 3: Reduce count(...)
+    tree_reduce_ops(tree, ctx_lookup_op(g_propositional_ctx, "count", OP_PLACE_FUNCTION), count_eval);
+    // Step 4: Reduce everything else
     double reduced = 0;
     if (tree_reduce(*tree, prop_op_evaluate, &reduced, NULL) != LISTENERERR_SUCCESS)
     {
-- 
2.43.0


From 84e74f0b2514cbce4b2126a5311891478fb4aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:11 +0000
Subject: [PATCH 19/27] fix: Reject rules that use a list in place of a single
 operand

---
 src/engine/transformation/rule_parsing.c | 31 ++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 91805cf..76847fa 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -119,6 +119,26 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
     return false;
 }
 
+/*
+Summary: A list may only take the place of operands of operators of any arity
+*/
+static bool check_lists(const Node *tree, bool list_allowed)
+{
+    switch (get_type(tree))
+    {
+        case NTYPE_VARIABLE:
+            return list_allowed || get_var_name(tree)[0] != MATCHING_LIST_PREFIX;
+        case NTYPE_OPERATOR:
+            for (size_t i = 0; i < get_num_children(tree); i++)
+            {
+                if (!check_lists(get_child(tree, i), get_op(tree)->arity == OP_DYNAMIC_ARITY)) return false;
+            }
+            return true;
+        default:
+            return true;
+    }
+}
+
 bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_rule)
 {
     char *str = malloc_wrapper(strlen(string) + 1);
@@ -162,6 +182,17 @@ bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_
         goto error;
     }
 
+    bool lists_ok = check_lists(right_n, false);
+    for (size_t i = 0; i < num_constrs; i++)
+    {
+        lists_ok = lists_ok && check_lists(constrs[i], false);
+    }
+    if (!lists_ok)
+    {
+        report_error("List used in place of a single operand.\n");
+        goto error;
+    }
+
     Pattern pattern;
     int err_code = get_pattern(left_n, num_constrs, constrs, &pattern);
     if (err_code != 0)
-- 
2.43.0


From b22e1bd5845b70878a0d96913089c539a9aa79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:06:33 +0000
Subject: [PATCH 20/27] fix: Reject rules with constraints on variables that do
 not occur in the pattern

---
 src/engine/transformation/rule_parsing.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 76847fa..0914c04 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -12,6 +12,7 @@ Could be heap but could also be string literal that is readonly
 #include "../util/string_util.h"
 #include "../tree/node.h"
 #include "../parsing/parser.h"
+#include "../tree/tree_util.h"
 #include "rule_parsing.h"
 #include "matching.h"
 
@@ -193,6 +194,22 @@ bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_
         goto error;
     }
 
+    for (size_t i = 0; i < num_constrs; i++)
+    {
+        const char *constr_vars[MAX_MAPPED_VARS];
+        bool bound;
+        size_t num_constr_vars = list_variables(constrs[i], MAX_MAPPED_VARS, constr_vars, &bound);
+        for (size_t j = 0; j < num_constr_vars; j++)
+        {
+            bound = bound && get_variable_nodes((const Node**)&left_n, constr_vars[j], 0, NULL) != 0;
+        }
+        if (!bound)
+        {
+            report_error("Unbounded variable in constraint of rule.\n");
+            goto error;
+        }
+    }
+
     Pattern pattern;
     int err_code = get_pattern(left_n, num_constrs, constrs, &pattern);
     if (err_code != 0)
-- 
2.43.0


From c35678b342d0103a7da20b618050e6aeff4cc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:28 +0000
Subject: [PATCH 21/27] fix: fib of a large, negative or undefined number
 exhausted the stack or took forever

---
 src/client/core/arith_evaluation.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..0c0d57e 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -71,31 +71,37 @@ static double binomial(double n, double k)
     return res;
 }
 
-static long fib(long n)
+static double fib(double n)
 {
-    if (n == 0) return 0;
-    if (n == 1) return 1;
-    if (n == -1) return 1;
-    return fib(n - 1) + fib(n - 2); 
+    double res = 0;
+    double next = 1;
+    for (double i = 0; i < n && !isinf(res); i++)
+    {
+        double sum = res + next;
+        res = next;
+        next = sum;
+    }
+    return res;
 }
 
 static double fibonacci(double n)
 {
-    long l = (long)n;
-    if (l < 0) // Generalization to negative numbers
+    if (isnan(n)) return n;
+    n = trunc(n);
+    if (n < 0) // Generalization to negative numbers
     {
-        if (l % 2 == 0)
+        if (fmod(n, 2) == 0)
         {
-            return -fib(labs(l));
+            return -fib(fabs(n));
         }
         else
         {
-            return fib(labs(l));
+            return fib(fabs(n));
         }
     }
     else
     {
-        return fib(l);
+        return fib(n);
     }
 }
 
-- 
2.43.0


From 50134ba55b6093a0fdbed48a75039d2f1b16d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:28 +0000
Subject: [PATCH 22/27] fix: gcd and lcm did not terminate for large and
 non-finite numbers

---
 src/client/core/arith_evaluation.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 0c0d57e..b36fdd0 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -37,18 +37,17 @@ static double euclid(double a, double b)
     {
         return b;
     }
+    else if (b != 0 && (!isfinite(a) || !isfinite(b)))
+    {
+        return NAN;
+    }
     else
     {
         while (b != 0)
         {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
+            double remainder = fmod(a, b);
+            a = b;
+            b = remainder;
         }
         return a;
     }
-- 
2.43.0


From d66848938cd226652b67ebb1e9bdc640f835c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:28 +0000
Subject: [PATCH 23/27] fix: factorial and binomial coefficient of large
 numbers did not terminate

---
 src/client/core/arith_evaluation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index b36fdd0..1d173b3 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -62,7 +62,7 @@ static double binomial(double n, double k)
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-    for (double i = 1; i <= k; i++)
+    for (double i = 1; i <= k && isfinite(res); i++)
     {
         res = (res * (n - k + i)) / i;
     }
@@ -183,7 +183,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && !isinf(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From a399c4257605ab21f72ab7a8461c2207281ae55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:29 +0000
Subject: [PATCH 24/27] fix: rand left its bounds when they are far apart or
 large

---
 src/client/core/arith_evaluation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 1d173b3..aa10d2d 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -111,9 +111,11 @@ static double random_between(double min, double max)
 {
     min = trunc(min);
     max = trunc(max);
-    long diff = (long)(max - min);
+    long diff = (long)fmin(max - min, RAND_MAX + 1.0);
     if (diff < 1) return -1;
-    return rand() % diff + min;
+    double res = rand() % diff + min;
+    // Sum of great numbers may have been rounded up to max
+    return res < max ? res : nextafter(max, min);
 }
 
 ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const double *args, double *out)
-- 
2.43.0


From fbc25bf4c09e1d1f16250e4d306064220643897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:29 +0000
Subject: [PATCH 25/27] fix: table did not terminate when its step is lost in
 rounding

---
 src/client/commands/cmd_table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index 6519574..d6970ab 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -168,6 +168,14 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     // Loop through all values and add them to table
     for (size_t i = 1; step_val > 0 ? start_val <= end_val : start_val >= end_val; i++)
     {
+        // Step is lost in rounding, loop would not terminate
+        if (start_val + step_val == start_val)
+        {
+            report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' is too small\n");
+            free_table(table);
+            goto exit;
+        }
+
         Node *current_expr = tree_copy(expr);
         Node *current_val = malloc_constant_node(start_val, 0);
         replace_variable_nodes(&current_expr, current_val, var);
-- 
2.43.0


From be36f309df40d4a40516aad96b31aeaf64e679b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:37:29 +0000
Subject: [PATCH 26/27] fix: simplification did not terminate when a constant
 derivative kept other constants from being folded

---
 src/client/simplification/simplification.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 11bd452..c96dcd9 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -134,13 +134,32 @@ void unload_simplification()
     initialized = false;
 }
 
+/*
+Summary: Reduces all constant subtrees that can be evaluated, leaves others (e.g. constant derivatives) as they are
+*/
+static void reduce_evaluable_subtrees(Node **tree)
+{
+    double res;
+    if (count_all_variable_nodes(*tree) == 0 && tree_reduce(*tree, arith_op_evaluate, &res, NULL) == LISTENERERR_SUCCESS)
+    {
+        tree_replace(tree, malloc_constant_node(res, get_token_index(*tree)));
+    }
+    else if (get_type(*tree) == NTYPE_OPERATOR)
+    {
+        for (size_t i = 0; i < get_num_children(*tree); i++)
+        {
+            reduce_evaluable_subtrees(get_child_addr(*tree, i));
+        }
+    }
+}
+
 static void apply_simplification(Node **tree, Vector *ruleset)
 {
     VectorIterator it = vec_get_iterator(ruleset);
     while (apply_ruleset_by_iterator(tree, (Iterator*)&it, propositional_checker, 1) != 0)
     {
         iterator_reset((Iterator*)&it);
-        tree_reduce_constant_subtrees(tree, arith_op_evaluate, NULL);
+        reduce_evaluable_subtrees(tree);
     };
     replace_negative_consts(tree);
 }
-- 
2.43.0


From c9dd3c42baee858486620c704415c447c2ceba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:56 +0000
Subject: [PATCH 27/27] fix: stack overflow when a name of more than 100000
 characters is removed

---
 src/util/trie.c | 75 +++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/util/trie.c b/src/util/trie.c
index 9666515..bead3c7 100644
--- a/src/util/trie.c
+++ b/src/util/trie.c
@@ -47,13 +47,23 @@ Trie trie_create(size_t elem_size)
     };
 }
 
+// Only recurses where strings branch, since a single string can be very long
 static void destroy_rec(TrieNode *node)
 {
-    for (unsigned char i = 0; i < TRIE_END_CHAR - TRIE_START_CHAR; i++)
+    while (node != NULL)
     {
-        if (node->next[i] != NULL) destroy_rec(node->next[i]);
+        TrieNode *last = NULL;
+        for (unsigned char i = 0; i < TRIE_END_CHAR - TRIE_START_CHAR; i++)
+        {
+            if (node->next[i] != NULL)
+            {
+                if (last != NULL) destroy_rec(last);
+                last = node->next[i];
+            }
+        }
+        free(node);
+        node = last;
     }
-    free(node);
 }
 
 void trie_destroy(Trie *trie)
@@ -100,49 +110,42 @@ void *trie_add_str(Trie *trie, const char *string)
     return (void*)curr->data;
 }
 
-// Returns true if node has been freed
-static bool remove_rec(Trie *trie, TrieNode *node, size_t depth, const char *string)
+void trie_remove_str(Trie *trie, const char *string)
 {
-    if (depth == strlen(string))
-    {
-        if (node->is_terminal) trie->count--;
-        node->is_terminal = false;
-    }
-    else
+    assert(trie != NULL);
+    assert(string != NULL);
+
+    // Find end node of string, and the last node before it that is also needed by another string or is the first one
+    TrieNode *curr = trie->first_node;
+    TrieNode *keep = curr;
+    const char *keep_next = string;
+    for (const char *c = string; *c != '\0'; c++)
     {
-        if (!is_legal_char(string[depth])) return false;
-        unsigned char index = char_to_index(string[depth]);
-        if (node->next[index] != NULL)
+        if (curr == trie->first_node || curr->is_terminal || curr->num_successors > 1)
         {
-            if (remove_rec(trie, node->next[index], depth + 1, string))
-            {
-                node->next[index] = NULL;
-                node->num_successors--;
-            }
+            keep = curr;
+            keep_next = c;
         }
+        if (!is_legal_char(*c)) return;
+        curr = curr->next[char_to_index(*c)];
+        if (curr == NULL) return;
     }
 
-    // Never free the first trie node
-    if (node->num_successors == 0
-        && depth != 0
-        && !node->is_terminal)
-    {
-        free(node);
-        return true;
-    }
-    else
+    if (!curr->is_terminal) return;
+    curr->is_terminal = false;
+    trie->count--;
+
+    // Free all nodes that were only needed by string
+    if (curr != trie->first_node && curr->num_successors == 0)
     {
-        return false;
+        unsigned char index = char_to_index(*keep_next);
+        TrieNode *branch = keep->next[index];
+        keep->next[index] = NULL;
+        keep->num_successors--;
+        destroy_rec(branch);
     }
 }
 
-void trie_remove_str(Trie *trie, const char *string)
-{
-    assert(trie != NULL);
-    assert(string != NULL);
-    remove_rec(trie, trie->first_node, 0, string);
-}
-
 // out_data may be written to even if string is not in trie
 // because method uses trie_longest_prefix
 bool trie_contains(const Trie *trie, const char *string, void **out_data)
-- 
2.43.0

