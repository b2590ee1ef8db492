From de31263c41b9a82feca918b31a04e0b745c7e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 01/35] fix: nested template calls without arguments or with
 non-positional ones crashed

---
 src/template.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..d9b6ffb 100644
--- a/src/template.c
+++ b/src/template.c
@@ -75,18 +75,17 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
-	struct string_list *ret = calloc(1, sizeof(struct string_list));
-	struct string_list *cur = ret;
-
-	cur->string = replace_m4(replace_from->string, replace_with);
-	cur->next = NULL;
-	replace_from = replace_from->next;
+	struct string_list *ret = NULL;
+	struct string_list **cur = &ret;
 
 	while (replace_from) {
-		cur->next = calloc(1, sizeof(struct string_list));
-		cur = cur->next;
-		cur->string = replace_m4(replace_from->string, replace_with);
-		cur->next = NULL;
+		*cur = calloc(1, sizeof(struct string_list));
+		(*cur)->string = replace_m4(replace_from->string, replace_with);
+		if (!(*cur)->string) {
+			// Not a positional argument, e.g. "$*"; keep it as it is
+			(*cur)->string = strdup(replace_from->string);
+		}
+		cur = &(*cur)->next;
 		replace_from = replace_from->next;
 	}
 	return ret;
-- 
2.43.0


From 6784f25a2193292c58409273fc7fdc410026b658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 02/35] fix: parse the second level argument of gen_context
 from its start

The scan for the closing parenthesis continued at the index left over from
the previous argument, reading past the end of short category arguments.
---
 src/parse_fc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..43085ca 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From 51e4d4a06ce7929a641c718102de99f6319c832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 03/35] fix: ignore line endings and trailing whitespace in
 file context lines

They became part of raw contexts (unknown types were reported), a <<none>>
entry needed a line ending to be recognised and blank CRLF lines were
reported as malformed.  A lone dash was read past its end.
---
 src/parse_fc.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 43085ca..1c64372 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -28,6 +28,12 @@ struct fc_entry *parse_fc_line(char *line)
 {
 	const char *whitespace = " \t";
 
+	// Strip the line ending and trailing whitespace, they are not part of the context
+	size_t len = strlen(line);
+	while (len > 0 && strchr(" \t\r\n", line[len - 1])) {
+		line[--len] = '\0';
+	}
+
 	struct fc_entry *out = malloc(sizeof(struct fc_entry));
 
 	memset(out, 0, sizeof(struct fc_entry));
@@ -49,7 +55,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
@@ -135,8 +141,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
@@ -250,7 +255,7 @@ struct policy_node *parse_fc_file(const char *filename, const struct string_list
 	unsigned int lineno = 0;
 	while ((len_read = getline(&line, &buf_len, fd)) != -1) {
 		lineno++;
-		if (len_read <= 1 || line[0] == '#') {
+		if (len_read <= 1 || line[0] == '#' || strcmp(line, "\r\n") == 0) {
 			continue;
 		}
 		// Skip over m4 constructs
-- 
2.43.0


From a4b2bf432e46955f6f9ba2423653b495f98ad7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 04/35] fix: do not read past the end of modules.conf entries
 without trailing whitespace

---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From b7f2d1a662cf26575f46e4c5bc87d2b8ce1cda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 05/35] fix: permission macros containing themselves exhausted
 the stack

---
 src/perm_macro.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 46db881..1b52977 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -160,7 +160,13 @@ static const struct pm_ltable pm_ltable_common_file[] = {
 unsigned short popcount(mask_t mask);
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended);
 
-static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+// Macros currently being expanded, to detect macros containing themselves
+struct expansion {
+	const char *name;
+	const struct expansion *parent;
+};
+
+static void str_to_mask_nested(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct expansion *parent)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -171,8 +177,16 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	}
 
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
+	for (const struct expansion *e = parent; e && macro_perms; e = e->parent) {
+		if (0 == strcmp(permission, e->name)) {
+			macro_perms = NULL; // loop
+		}
+	}
 	if (macro_perms) {
-		compute_perm_mask(macro_perms, mask_raw, mask_extended);
+		const struct expansion self = { permission, parent };
+		for (; macro_perms; macro_perms = macro_perms->next) {
+			str_to_mask_nested(macro_perms->string, mask_raw, mask_extended, &self);
+		}
 		return;
 	}
 
@@ -181,6 +195,11 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
+static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+{
+	str_to_mask_nested(permission, mask_raw, mask_extended, NULL);
+}
+
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
 {
 	for (; permissions; permissions = permissions->next) {
-- 
2.43.0


From 47bc2791935ae7286b94b1f450cb562645db1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 06/35] fix: reject an access vector file given as policy file
 that starts with a common definition

A te file holding only a common definition was accepted with no nodes, and
the ordering check crashed on it.
---
 src/parse.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index 9dce0af..3240b2f 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -1056,7 +1056,13 @@ av_class_definition:
 	;
 
 av_common_definition:
-	COMMON STRING av_permission_list { free($2); }
+	COMMON STRING av_permission_list {
+			if (expected_node_flavor != NODE_AV_FILE) {
+				free($2);
+				const struct location loc = { @1.first_line, @1.first_column, @3.last_line, @3.last_column };
+				yyerror(&loc, NULL, "Error: Unexpected av-file parsed"); YYERROR;
+			}
+			free($2); }
 	;
 
 av_permission_list:
-- 
2.43.0


From 495d68c998dd13d3da9dd46adec213340441e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 07/35] fix: handle ifdef inside require blocks in the require
 checks

They raised an internal error in C-006, and names required inside of the
ifdef were treated as not required.
---
 src/if_checks.c |  4 ++++
 src/te_checks.c | 51 +++++++++++++++++++++++++------------------------
 src/tree.c      |  6 ++++--
 3 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/if_checks.c b/src/if_checks.c
index 6af2785..8f9a59e 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -123,6 +123,10 @@ struct check_result *check_unordered_declaration_in_require(const struct
 
 	const struct declaration_data *prev_decl_data = NULL;
 	for (const struct policy_node *cur = child; cur; cur = cur->next) {
+		if (cur->flavor == NODE_IFDEF) {
+			// conditional requirements are not ordered
+			continue;
+		}
 		if (cur->flavor != NODE_DECL) {
 			return alloc_internal_error(
 				"Non declaration node in require block");
diff --git a/src/te_checks.c b/src/te_checks.c
index cce2a5a..ff87520 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -179,6 +179,13 @@ struct check_result *check_require_block(const struct check_data *data,
 
 	struct policy_node *cur = node->first_child;
 	while (cur) {
+		if (cur->flavor == NODE_IFDEF) {
+			// requirements might be conditional
+			struct check_result *res = check_require_block(data, cur);
+			if (res) {
+				return res;
+			}
+		}
 		if (cur->flavor != NODE_DECL) {
 			cur = cur->next;
 			continue;
@@ -371,6 +378,23 @@ struct check_result *check_perm_macro_available(__attribute__((unused)) const st
 	return res;
 }
 
+// Helper for has_require.  Returns 1 if name is declared in the given require
+// block, or in an ifdef inside of it, and 0 otherwise
+static int is_required_in(const struct policy_node *node, const char *name, enum decl_flavor flavor)
+{
+	for (const struct policy_node *cur = node->first_child; cur; cur = cur->next) {
+		if (cur->flavor == NODE_IFDEF && is_required_in(cur, name, flavor)) {
+			return 1;
+		}
+		if (cur->flavor == NODE_DECL && cur->data.d_data->flavor == flavor &&
+		    (0 == strcmp(name, cur->data.d_data->name) ||
+		     str_in_sl(name, cur->data.d_data->attrs))) { // In requires these are types, not attributes
+			return 1;
+		}
+	}
+	return 0;
+}
+
 // Helper for check_no_explicit_declaration.  Returns 1 is there is a require block
 // for name earlier in the file, and 0 otherwise
 static int has_require(const struct policy_node *node, const char *name, enum decl_flavor flavor)
@@ -378,33 +402,10 @@ static int has_require(const struct policy_node *node, const char *name, enum de
 	const struct policy_node *cur = node;
 	while (cur) {
 		if (cur->flavor == NODE_REQUIRE || cur->flavor == NODE_GEN_REQ) {
-			cur = cur->first_child;
-			while (1) {
-				if (cur->flavor == NODE_DECL && cur->data.d_data->flavor == flavor) {
-					if (0 == strcmp(name, cur->data.d_data->name)) {
-						return 1;
-					}
-					struct string_list *other_types = cur->data.d_data->attrs; // In requires these
-					                                                           // are types, not
-					                                                           // attributes
-					while (other_types) {
-						if (0 == strcmp(name, other_types->string)) {
-							return 1;
-						}
-						other_types = other_types->next;
-					}
-				}
-				if (cur->next) {
-					cur = cur->next;
-				} else {
-					break;
-				}
+			if (is_required_in(cur, name, flavor)) {
+				return 1;
 			}
 			// Not found in this require block, keep going
-			cur = cur->parent;
-			if (!cur) {
-				break;
-			}
 		}
 		if (cur->prev) {
 			cur = cur->prev;
diff --git a/src/tree.c b/src/tree.c
index 67239bd..d39e30f 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -311,10 +311,12 @@ struct string_list *get_names_required(const struct policy_node *node)
 	struct policy_node *cur = node->first_child;
 
 	while (cur) {
+		// requirements might be conditional
+		struct string_list *names = (cur->flavor == NODE_IFDEF) ? get_names_required(cur) : get_names_in_node(cur);
 		if (ret_cursor) {
-			ret_cursor->next = get_names_in_node(cur);
+			ret_cursor->next = names;
 		} else {
-			ret = ret_cursor = get_names_in_node(cur);
+			ret = ret_cursor = names;
 		}
 		while (ret_cursor && ret_cursor->next) {
 			ret_cursor = ret_cursor->next;
-- 
2.43.0


From 4881ec914a38e984a393d82993a6e6acfffca425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 08/35] fix: recognise disable comments followed by whitespace
 or a CRLF line ending

---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 8a0469d..5c9cc40 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -176,7 +176,7 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \!\= { return NOT_EQUAL; }
 \! { return NOT; }
 \=\= { return EQUAL; }
-\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
+\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*[ \t\r]*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
 \#.*$ { return COMMENT; }
 dnl(.*)?$ ; /* skip m4 comment lines */
 [ \t\n\r] ; /* normally skip whitespace */
-- 
2.43.0


From c9b06f317daed158d28f8a83cfff740fafd7c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 09/35] fix: apply disable comments to the statement they
 follow

On a require line with several names only the last one was covered, on an
optional block with else branch only the else branch, and on a statement
without a representation of its own (e.g. genfscon) the previous statement
was covered instead.
---
 src/parse.y | 57 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 3240b2f..22328cb 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -60,7 +60,9 @@
 	static const char *parsing_filename;
 	static struct policy_node *cur;
 	static enum node_flavor expected_node_flavor;
+	static unsigned statement_nodes; // number of nodes inserted by the current statement
 	static void yyerror(const YYLTYPE *locp, yyscan_t yyscanner, char const *msg);
+	static void save_statement_command(const char *comm);
 
 	// lexer
 	extern void yyrestart(FILE *input_file , yyscan_t yyscanner);
@@ -272,9 +274,9 @@ lines:
 	;
 
 line:
-	bare_line
+	bare_line { statement_nodes = 1; }
 	|
-	bare_line SELINT_COMMAND { save_command(cur, $2); free($2); }
+	bare_line SELINT_COMMAND { save_statement_command($2); free($2); }
 	;
 
 bare_line:
@@ -312,25 +314,25 @@ bare_line:
 	|
 	cond_expr
 	|
-	genfscon
+	genfscon { statement_nodes = 0; }
 	|
-	sid
+	sid { statement_nodes = 0; }
 	|
-	portcon
+	portcon { statement_nodes = 0; }
 	|
-	netifcon
+	netifcon { statement_nodes = 0; }
 	|
-	nodecon
+	nodecon { statement_nodes = 0; }
 	|
-	fs_use
+	fs_use { statement_nodes = 0; }
 	|
 	define
 	|
-	gen_user
+	gen_user { statement_nodes = 0; }
 	|
 	permissive
 	|
-	typebounds
+	typebounds { statement_nodes = 0; }
 	|
 	SEMICOLON { insert_semicolon(&cur, @$.first_line); }
 	|
@@ -537,7 +539,7 @@ optional_block:
 	optional_open
 	lines SINGLE_QUOTE COMMA { end_optional_policy(&cur); }
 	BACKTICK { begin_optional_else(&cur, @$.first_line); }
-	lines SINGLE_QUOTE CLOSE_PAREN { end_optional_else(&cur); }
+	lines SINGLE_QUOTE CLOSE_PAREN { end_optional_else(&cur); statement_nodes = 2; }
 	;
 
 optional_open:
@@ -576,34 +578,39 @@ require_lines:
 	;
 
 require_line:
-	require_bare
+	require_bare { statement_nodes = 1; }
 	|
-	require_bare SELINT_COMMAND { save_command(cur, $2); free($2); }
+	require_bare SELINT_COMMAND { save_statement_command($2); free($2); }
 	;
 
 require_bare:
 	TYPE comma_string_list SEMICOLON {
-		for (const struct string_list *iter = $2; iter; iter = iter->next) insert_declaration(&cur, DECL_TYPE, iter->string, NULL, @$.first_line);
+		statement_nodes = 0;
+		for (const struct string_list *iter = $2; iter; iter = iter->next, ++statement_nodes) insert_declaration(&cur, DECL_TYPE, iter->string, NULL, @$.first_line);
 		free_string_list($2);
 		}
 	|
 	ATTRIBUTE comma_string_list SEMICOLON {
-		for (const struct string_list *iter = $2; iter; iter = iter->next) insert_declaration(&cur, DECL_ATTRIBUTE, iter->string, NULL, @$.first_line);
+		statement_nodes = 0;
+		for (const struct string_list *iter = $2; iter; iter = iter->next, ++statement_nodes) insert_declaration(&cur, DECL_ATTRIBUTE, iter->string, NULL, @$.first_line);
 		free_string_list($2);
 		}
 	|
 	ROLE comma_string_list SEMICOLON {
-		for (const struct string_list *iter = $2; iter; iter = iter->next) insert_declaration(&cur, DECL_ROLE, iter->string, NULL, @$.first_line);
+		statement_nodes = 0;
+		for (const struct string_list *iter = $2; iter; iter = iter->next, ++statement_nodes) insert_declaration(&cur, DECL_ROLE, iter->string, NULL, @$.first_line);
 		free_string_list($2);
 		}
 	|
 	ATTRIBUTE_ROLE comma_string_list SEMICOLON {
-		for (const struct string_list *iter = $2; iter; iter = iter->next) insert_declaration(&cur, DECL_ATTRIBUTE_ROLE, iter->string, NULL, @$.first_line);
+		statement_nodes = 0;
+		for (const struct string_list *iter = $2; iter; iter = iter->next, ++statement_nodes) insert_declaration(&cur, DECL_ATTRIBUTE_ROLE, iter->string, NULL, @$.first_line);
 		free_string_list($2);
 		}
 	|
 	BOOL comma_string_list SEMICOLON {
-		for (const struct string_list *iter = $2; iter; iter = iter->next) insert_declaration(&cur, DECL_BOOL, iter->string, NULL, @$.first_line);
+		statement_nodes = 0;
+		for (const struct string_list *iter = $2; iter; iter = iter->next, ++statement_nodes) insert_declaration(&cur, DECL_BOOL, iter->string, NULL, @$.first_line);
 		free_string_list($2);
 		}
 	|
@@ -648,11 +655,11 @@ ifelse:
 	;
 
 refpolicywarn:
-	REFPOLICYWARN OPEN_PAREN BACKTICK arbitrary_m4_string SINGLE_QUOTE CLOSE_PAREN
+	REFPOLICYWARN OPEN_PAREN BACKTICK arbitrary_m4_string SINGLE_QUOTE CLOSE_PAREN { statement_nodes = 0; }
 	;
 
 userdebug_or_eng:
-	USERDEBUG_OR_ENG OPEN_PAREN BACKTICK lines SINGLE_QUOTE CLOSE_PAREN
+	USERDEBUG_OR_ENG OPEN_PAREN BACKTICK lines SINGLE_QUOTE CLOSE_PAREN { statement_nodes = 0; }
 	;
 
 arbitrary_m4_string:
@@ -1082,6 +1089,15 @@ av_permission:
 	;
 
 %%
+// Save a disable comment on all nodes inserted by the statement it follows
+static void save_statement_command(const char *comm) {
+	struct policy_node *node = cur;
+	for (; statement_nodes > 0 && node; --statement_nodes, node = node->prev) {
+		save_command(node, comm);
+	}
+	statement_nodes = 1;
+}
+
 static unsigned leading_spaces(const char *str) {
 	unsigned result = 0;
 	while (str[result] == ' ' || str[result] == '\t')
@@ -1188,6 +1204,7 @@ struct policy_node *yyparse_wrapper(FILE *filefd, const char *filename, enum nod
 	yyrestart(filefd, scanner);
 	parsing_filename = filename;
 	cur = ast;
+	statement_nodes = 1;
 
 	const int ret = yyparse(scanner);
 
-- 
2.43.0


From e6dad81a72d506e6f56d45591b609abaef943801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 10/35] fix: do not report declared aliases as used but not
 required in W-002

---
 src/runner.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/runner.c b/src/runner.c
index 9a0cb81..8ae06f5 100644
--- a/src/runner.c
+++ b/src/runner.c
@@ -213,7 +213,6 @@ struct checks *register_checks(char level,
 			add_check(NODE_RT_RULE, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_ROLE_ALLOW, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_ROLE_TYPES, ck, "W-002", check_name_used_but_not_required_in_if);
-			add_check(NODE_ALIAS, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_TYPE_ALIAS, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_TYPE_ATTRIBUTE, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_ROLE_ATTRIBUTE, ck, "W-002", check_name_used_but_not_required_in_if);
-- 
2.43.0


From 2c7a06f1e7a773aeed67e8bfea56cc511707b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 11/35] fix: report blocks on the line they start on when their
 opening spans lines

---
 src/parse.y | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 22328cb..ff5b13e 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -558,10 +558,10 @@ require:
 	gen_require_begin
 	require_lines CLOSE_PAREN { end_gen_require(&cur, 1); }
 	|
-	REQUIRE OPEN_CURLY { begin_require(&cur, @$.first_line); }
+	REQUIRE OPEN_CURLY { begin_require(&cur, @1.first_line); }
 	require_lines CLOSE_CURLY { end_require(&cur); }
 	|
-	REQUIRE OPEN_CURLY SELINT_COMMAND { begin_require(&cur, @$.first_line); save_command(cur->parent, $3); }
+	REQUIRE OPEN_CURLY SELINT_COMMAND { begin_require(&cur, @1.first_line); save_command(cur->parent, $3); }
 	require_lines CLOSE_CURLY { end_require(&cur); free($3); }
 	;
 
@@ -616,10 +616,10 @@ require_bare:
 	|
 	CLASS STRING string_list SEMICOLON { insert_declaration(&cur, DECL_CLASS, $2, $3, @$.first_line); free($2); }
 	|
-	if_or_ifn OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA BACKTICK { begin_ifdef(&cur, @$.first_line); }
+	if_or_ifn OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA BACKTICK { begin_ifdef(&cur, @1.first_line); }
 	require_lines SINGLE_QUOTE CLOSE_PAREN { end_ifdef(&cur); free($4); }
 	|
-	if_or_ifn OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA { begin_ifdef(&cur, @$.first_line); }
+	if_or_ifn OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA { begin_ifdef(&cur, @1.first_line); }
 	require_lines CLOSE_PAREN { end_ifdef(&cur); free($4); }
 	|
 	COMMENT
@@ -640,7 +640,7 @@ m4_call:
 	;
 
 ifdef:
-	if_or_ifn OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA { begin_ifdef(&cur, @$.first_line); }
+	if_or_ifn OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA { begin_ifdef(&cur, @1.first_line); }
 	m4_args CLOSE_PAREN { end_ifdef(&cur); free($4); }
 	;
 
@@ -651,7 +651,7 @@ if_or_ifn:
 	;
 
 ifelse:
-	IFELSE OPEN_PAREN { begin_ifelse(&cur, @$.first_line); } m4_args CLOSE_PAREN { end_ifelse(&cur); }
+	IFELSE OPEN_PAREN { begin_ifelse(&cur, @1.first_line); } m4_args CLOSE_PAREN { end_ifelse(&cur); }
 	;
 
 refpolicywarn:
@@ -794,10 +794,10 @@ boolean_open:
 	;
 
 tunable_block:
-	TUNABLE_POLICY OPEN_PAREN BACKTICK { begin_tunable_policy(&cur, @$.first_line); }
+	TUNABLE_POLICY OPEN_PAREN BACKTICK { begin_tunable_policy(&cur, @1.first_line); }
 	condition SINGLE_QUOTE COMMA m4_args CLOSE_PAREN { end_tunable_policy(&cur); }
 	|
-	TUNABLE_POLICY OPEN_PAREN { begin_tunable_policy(&cur, @$.first_line); }
+	TUNABLE_POLICY OPEN_PAREN { begin_tunable_policy(&cur, @1.first_line); }
 	condition COMMA m4_args CLOSE_PAREN { end_tunable_policy(&cur); }
 	;
 
@@ -854,7 +854,7 @@ fs_use:
 	;
 
 define:
-	DEFINE OPEN_PAREN { begin_define(&cur, @$.first_line); }
+	DEFINE OPEN_PAREN { begin_define(&cur, @1.first_line); }
 	define_name define_content CLOSE_PAREN { end_define(&cur); }
 	;
 
-- 
2.43.0


From 8c9ec911b5a8327a5b7f6bb936f1275c22f03d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 12/35] fix: accept a disable comment on the module statement

---
 src/parse.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.y b/src/parse.y
index ff5b13e..1ff9d14 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -226,6 +226,9 @@ selinux_file:
 
 te_policy:
 	header body
+	|
+	header SELINT_COMMAND { save_command(cur, $2); free($2); }
+	body
 	;
 
 comments:
-- 
2.43.0


From 94f116eb8d1572f68b2a011de6d4e4907aa7c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 13/35] fix: directories named like policy or support files
 aborted the scan

---
 src/main.c    | 19 +++++++++++--------
 src/startup.c |  3 ++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 84bad03..2055dce 100644
--- a/src/main.c
+++ b/src/main.c
@@ -403,7 +403,9 @@ int main(int argc, char **argv)
 	char *access_vector_path = NULL;
 
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		// Directories are never policy or support files, whatever their name
+		const int is_dir = (file->fts_info == FTS_D || file->fts_info == FTS_DP);
+		const char *suffix = (!is_dir && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 
 		if (suffix && !strcmp(suffix, ".te")) {
 			file_list_push_back(te_files,
@@ -421,15 +423,15 @@ int main(int argc, char **argv)
 			file_list_push_back(fc_files,
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
-		} else if (source_flag
+		} else if (source_flag && !is_dir
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
 			modules_conf_path = strdup(file->fts_path);
-		} else if (source_flag
+		} else if (source_flag && !is_dir
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
 			obj_perm_sets_path = strdup(file->fts_path);
-		} else if (source_flag
+		} else if (source_flag && !is_dir
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
 			access_vector_path = strdup(file->fts_path);
@@ -475,7 +477,8 @@ int main(int argc, char **argv)
 		file = fts_read(ftsp);
 
 		while (file) {
-			const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+			const int is_dir = (file->fts_info == FTS_D || file->fts_info == FTS_DP);
+			const char *suffix = (!is_dir && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 			if (suffix &&  !strcmp(suffix, ".te")) {
 				if (!file_name_in_file_list(file->fts_path, te_files)) {
 					file_list_push_back(context_te_files,
@@ -488,15 +491,15 @@ int main(int argc, char **argv)
 							    make_policy_file(file->fts_path,
 							    NULL));
 				}
-			} else if (source_flag
+			} else if (source_flag && !is_dir
                                    && !modules_conf_path
                                    && 0 == strcmp(file->fts_name, "modules.conf")) {
 				modules_conf_path = strdup(file->fts_path);
-			} else if (source_flag
+			} else if (source_flag && !is_dir
                                    && !obj_perm_sets_path
                                    && 0 == strcmp(file->fts_name, "obj_perm_sets.spt")) {
 				obj_perm_sets_path = strdup(file->fts_path);
-			} else if (source_flag
+			} else if (source_flag && !is_dir
                                    && !access_vector_path
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
 				access_vector_path = strdup(file->fts_path);
diff --git a/src/startup.c b/src/startup.c
index 4e44860..958208d 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -230,7 +230,8 @@ IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		const int is_dir = (file->fts_info == FTS_D || file->fts_info == FTS_DP);
+		const char *suffix = (!is_dir && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 		if (suffix && !strcmp(suffix, ".if")) {
 			file_list_push_back(context_files,
 			                    make_policy_file(file->fts_path,
-- 
2.43.0


From 623541e2bb421df949e8b0db50156efd1fcf4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 14/35] fix: template argument substituted more than once
 overflowed the buffer

---
 src/template.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/template.c b/src/template.c
index d9b6ffb..b9dd4d8 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,14 +26,23 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t max_arg_len = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		if (strlen(cur->string) > max_arg_len) {
+			max_arg_len = strlen(cur->string);
+		}
 		cur = cur->next;
 	}
+	// The same argument can be substituted several times
+	for (const char *c = orig; *c; ++c) {
+		if (*c == '$') {
+			len_to_malloc += max_arg_len;
+		}
+	}
 	// len_to_malloc is now overestimated, because the length of the original
-	// arguments wasn't subtracted and not all args are necessarily substituted
+	// arguments wasn't subtracted and not all args are as long as the longest
 	char *ret = malloc(len_to_malloc);
 	*ret = '\0';            // If the string is only a substitution that there is no argument for, we need to be terminated
 	const char *orig_pos = orig;
-- 
2.43.0


From 26e154c13579fece896ae89fd0299cf22e617936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 15/35] fix: keep calls to templates whose expansion fails in
 the parse tree

---
 src/parse_functions.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index da2adcc..8250a7a 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -443,11 +443,9 @@ enum selint_error insert_interface_call(struct policy_node **cur, const char *if
 	if (template_name) {
 		insert_call_into_template_map(template_name, if_data);
 	} else {
-		enum selint_error r = add_template_declarations(if_name, args, NULL, module_name);
-		if (r != SELINT_SUCCESS) {
-			free_if_call_data(if_data);
-			return r;
-		}
+		// A failed expansion (e.g. of a recursive template) does not
+		// make the call itself vanish
+		(void) add_template_declarations(if_name, args, NULL, module_name);
 	}
 
 	if (is_filetrans_if_name(if_name) &&
-- 
2.43.0


From 019fce695af46e6fa2c993b2dc3202bf561f8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 16/35] fix: declarations of templates called by interfaces
 depended on the file order

---
 src/runner.c | 25 +++++++++++++++++++++++++
 src/tree.c   | 11 +++++++++++
 src/tree.h   |  3 +++
 3 files changed, 39 insertions(+)

diff --git a/src/runner.c b/src/runner.c
index 8ae06f5..246cebe 100644
--- a/src/runner.c
+++ b/src/runner.c
@@ -28,6 +28,7 @@
 #include "parse.h"
 #include "util.h"
 #include "startup.h"
+#include "template.h"
 
 #define CHECK_ENABLED(cid) is_check_enabled(cid, config_enabled_checks, config_disabled_checks, cl_enabled_checks, cl_disabled_checks, only_enabled)
 
@@ -401,6 +402,27 @@ enum selint_error run_all_checks(struct checks *ck, enum file_flavor flavor,
 	return SELINT_SUCCESS;
 }
 
+// Declare what the template calls inside of interfaces declare, even if the
+// template is defined after the call or in a file parsed later
+static void expand_template_calls_in_interfaces(const struct policy_file_list *files)
+{
+	for (const struct policy_file_node *file = files->head; file; file = file->next) {
+		char *copy = strdup(file->file->filename);
+		char *mod_name = basename(copy);
+		mod_name[strlen(mod_name) - 3] = '\0'; // Remove suffix
+
+		for (const struct policy_node *node = file->file->ast; node; node = dfs_next(node)) {
+			if (node->flavor == NODE_IF_CALL && is_in_interface(node)) {
+				(void) add_template_declarations(node->data.ic_data->name,
+				                                 node->data.ic_data->args,
+				                                 NULL, mod_name);
+			}
+		}
+
+		free(copy);
+	}
+}
+
 enum selint_error run_analysis(struct checks *ck,
                                struct policy_file_list *te_files,
                                struct policy_file_list *if_files,
@@ -447,6 +469,9 @@ enum selint_error run_analysis(struct checks *ck,
 	}
 	free(all_if_files);
 
+	expand_template_calls_in_interfaces(if_files);
+	expand_template_calls_in_interfaces(context_if_files);
+
 	res = parse_all_files_in_list(context_te_files, NODE_TE_FILE);
 	if (res != SELINT_SUCCESS) {
 		goto out;
diff --git a/src/tree.c b/src/tree.c
index d39e30f..c9b2702 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -119,6 +119,17 @@ const char *get_name_if_in_template(const struct policy_node *cur)
 	return NULL;
 }
 
+int is_in_interface(const struct policy_node *cur)
+{
+	while (cur->parent) {
+		cur = cur->parent;
+		if (cur->flavor == NODE_INTERFACE_DEF) {
+			return 1;
+		}
+	}
+	return 0;
+}
+
 const char *decl_flavor_to_string(enum decl_flavor flavor)
 {
 	switch (flavor) {
diff --git a/src/tree.h b/src/tree.h
index 51e974f..81af27c 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -235,6 +235,9 @@ int is_template_call(const struct policy_node *node);
 
 const char *get_name_if_in_template(const struct policy_node *cur);
 
+// Returns 1 if the node is inside of an interface definition, and 0 if not
+int is_in_interface(const struct policy_node *cur);
+
 struct string_list *get_names_in_node(const struct policy_node *node);
 
 struct string_list *get_names_required(const struct policy_node *node);
-- 
2.43.0


From 29e6c45858b3d8dfb64f79c4d2b5f48b743facb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 17/35] fix: arguments made of several words shifted the
 positional arguments of template calls

---
 src/parse.y       |  5 +++--
 src/string_list.c | 15 +++++++++++++++
 src/string_list.h |  4 ++++
 src/template.c    |  6 +++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 1ff9d14..9d1b8b6 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -730,11 +730,11 @@ m4_argument:
 	;
 
 arg:
-	xperm_list
+	xperm_list { $$ = sl_as_single_arg($1); }
 	|
 	QUOTED_STRING { $$ = sl_from_str_consume($1); }
 	|
-	BACKTICK strings SINGLE_QUOTE { $$ = $2; }
+	BACKTICK strings SINGLE_QUOTE { $$ = sl_as_single_arg($2); }
 	|
 	BACKTICK SINGLE_QUOTE { $$ = sl_from_str(""); }
 	;
@@ -747,6 +747,7 @@ args:
 	args sl_item { struct string_list *sl = calloc(1, sizeof(struct string_list));
 			sl->string = $2;
 			sl->has_incorrect_space = 1;
+			sl->continues_arg = 1;
 			$$ = concat_string_lists($1, sl); }
 	;
 
diff --git a/src/string_list.c b/src/string_list.c
index 78c253c..33a255c 100644
--- a/src/string_list.c
+++ b/src/string_list.c
@@ -46,6 +46,7 @@ struct string_list *copy_string_list(const struct string_list *sl)
 	while (sl) {
 		cur->string = strdup(sl->string);
 		cur->has_incorrect_space = sl->has_incorrect_space;
+		cur->continues_arg = sl->continues_arg;
 
 		if (sl->next) {
 			cur->next = malloc(sizeof(struct string_list));
@@ -64,6 +65,7 @@ struct string_list *sl_from_str(const char *string)
 	ret->string = strdup(string);
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
+	ret->continues_arg = 0;
 
 	return ret;
 }
@@ -74,6 +76,7 @@ struct string_list *sl_from_strn(const char *string, size_t len)
 	ret->string = strndup(string, len);
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
+	ret->continues_arg = 0;
 
 	return ret;
 }
@@ -84,6 +87,7 @@ struct string_list *sl_from_str_consume(char *string)
 	ret->string = string;
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
+	ret->continues_arg = 0;
 
 	return ret;
 }
@@ -121,6 +125,17 @@ struct string_list *concat_string_lists(struct string_list *head, struct string_
 	return head;
 }
 
+struct string_list *sl_as_single_arg(struct string_list *sl)
+{
+	if (sl) {
+		for (struct string_list *cur = sl->next; cur; cur = cur->next) {
+			cur->continues_arg = 1;
+		}
+	}
+
+	return sl;
+}
+
 enum selint_error append_to_sl(struct string_list *sl, const char *string)
 {
 	if (!sl) {
diff --git a/src/string_list.h b/src/string_list.h
index af9a416..547516a 100644
--- a/src/string_list.h
+++ b/src/string_list.h
@@ -24,6 +24,7 @@ struct string_list {
 	char *string;
 	struct string_list *next;
 	int has_incorrect_space;
+	int continues_arg; // part of the same call argument as the preceding string
 };
 
 int str_in_sl(const char *str, const struct string_list *sl);
@@ -46,6 +47,9 @@ struct string_list *sl_from_strs(int count, ...);
 // Note: freeing the returned list will free both original string lists
 struct string_list *concat_string_lists(struct string_list *head, struct string_list *tail);
 
+// Mark all strings of the list as belonging to one call argument
+struct string_list *sl_as_single_arg(struct string_list *sl);
+
 // Append a copy of a string on the end of the given string list
 // Note: this traverses the string list.  In performance critical
 // situations with multiple appends, you should save a pointer to the end of the list
diff --git a/src/template.c b/src/template.c
index b9dd4d8..2d53ee2 100644
--- a/src/template.c
+++ b/src/template.c
@@ -69,7 +69,10 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		orig_pos += after_num_pos;
 		cur = args;
 		while (cur && arg_num > 1) {
-			cur = cur->next;
+			do {
+				// Arguments can consist of several strings
+				cur = cur->next;
+			} while (cur && cur->continues_arg);
 			arg_num--;
 		}
 		if (cur) {
@@ -94,6 +97,7 @@ struct string_list *replace_m4_list(const struct string_list *replace_with,
 			// Not a positional argument, e.g. "$*"; keep it as it is
 			(*cur)->string = strdup(replace_from->string);
 		}
+		(*cur)->continues_arg = replace_from->continues_arg;
 		cur = &(*cur)->next;
 		replace_from = replace_from->next;
 	}
-- 
2.43.0


From 7285b501acb7f91c36bf06c53614920febde12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 18/35] fix: apply the default require ordering without a
 configuration file and document it as implemented

---
 selint.conf | 2 +-
 src/main.c  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/selint.conf b/selint.conf
index 83d455b..eaf1e92 100644
--- a/selint.conf
+++ b/selint.conf
@@ -57,7 +57,7 @@ ordering_rules = "refpolicy-lax"
 # The following six flavors must each be used exactly once:
 #   attribute, attribute_role, bool, class, role, type
 # If unset, this defaults to the following order:
-#ordering_requires = { bool, role, attribute_role, attribute, type, class }
+#ordering_requires = { bool, class, role, attribute_role, attribute, type }
 ordering_requires = { bool, attribute, attribute_role, type, class, role }
 
 # Whether to check the order (alphabetically) of requires of the same flavor when running check C-006
diff --git a/src/main.c b/src/main.c
index 2055dce..3eaabac 100644
--- a/src/main.c
+++ b/src/main.c
@@ -326,7 +326,10 @@ int main(int argc, char **argv)
 		}
 	}
 
-	struct config_check_data ccd = { ORDER_LAX, {}, true, true, NULL };
+	// Defaults in case there is no config, see parse_config()
+	struct config_check_data ccd = { ORDER_LAX,
+		                         { DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE },
+		                         true, true, NULL };
 
 	if (config_filename) {
 		char cfg_severity;
-- 
2.43.0


From 214bb6a2ac56e7f52508bb2026aa0b208ea4ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 19/35] fix: comments on a last line without line break were
 syntax errors

---
 src/lex.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 5c9cc40..d066488 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -151,6 +151,7 @@ template { return TEMPLATE; }
 userdebug_or_eng { return USERDEBUG_OR_ENG; }
 [0-9]+\.[0-9]+(\.[0-9]+)? { yylval->string = strdup(yytext); return VERSION_NO; }
 [0-9]+ { yylval->string = strdup(yytext); return NUMBER; }
+dnl(.*)? ; /* skip m4 comment lines */
 [a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return STRING; }
 [0-9a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return NUM_STRING; }
 [0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = strdup(yytext); return IPV4; }
@@ -176,8 +177,7 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \!\= { return NOT_EQUAL; }
 \! { return NOT; }
 \=\= { return EQUAL; }
-\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*[ \t\r]*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
-\#.*$ { return COMMENT; }
-dnl(.*)?$ ; /* skip m4 comment lines */
+\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*[ \t\r]* { yylval->string = strdup(yytext); return SELINT_COMMAND; }
+\#.* { return COMMENT; }
 [ \t\n\r] ; /* normally skip whitespace */
 . { yylval->symbol = *yytext; return UNKNOWN_TOKEN; }
-- 
2.43.0


From ee6c072d26c40ec609c898ea6a7bc1bb9aa88b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 20/35] fix: identifiers starting with dnl swallowed the rest
 of their line

---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index d066488..62c0971 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -151,7 +151,7 @@ template { return TEMPLATE; }
 userdebug_or_eng { return USERDEBUG_OR_ENG; }
 [0-9]+\.[0-9]+(\.[0-9]+)? { yylval->string = strdup(yytext); return VERSION_NO; }
 [0-9]+ { yylval->string = strdup(yytext); return NUMBER; }
-dnl(.*)? ; /* skip m4 comment lines */
+dnl([^a-zA-Z0-9_\n].*)? ; /* skip m4 comment lines */
 [a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return STRING; }
 [0-9a-zA-Z\$\/][a-zA-Z0-9_\$\*\/\-]* { yylval->string = strdup(yytext); return NUM_STRING; }
 [0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = strdup(yytext); return IPV4; }
-- 
2.43.0


From 4d356128740bd928580119067e44fc7d38df341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:04 +0000
Subject: [PATCH 21/35] fix: unordered lines hid ordering violations and made
 C-001 fail internally

Statements without a place in the ordering compare equal to everything, so as
the end of a sequence they hid misplaced lines before them, and lines the
search left out without a conflicting line were reported as an internal error
(F-002) since no reason could be found.
---
 src/ordering.c | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..99f6734 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -31,6 +31,13 @@ static bool is_boolean(const struct policy_node *node);
 static bool is_tunable(const struct policy_node *node);
 static bool is_in_ifdef(const struct policy_node *node);
 
+static bool is_non_ordered(const struct policy_node *node)
+{
+	const char *section_name = get_section(node);
+
+	return section_name && 0 == strcmp(section_name, SECTION_NON_ORDERED);
+}
+
 // get next node, skip nodes marked with #selint-disable:C-001
 static const struct policy_node *ordering_next(const struct policy_node *node)
 {
@@ -88,6 +95,16 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 		}
 		nodes[index].node = cur;
 
+		// Nodes without a place in the ordering are always in order. They
+		// must not become the end of a sequence, since comparing with them
+		// would hide the nodes before them.
+		if (is_non_ordered(cur)) {
+			nodes[index].in_order = 1;
+			index++;
+			cur = ordering_next(cur);
+			continue;
+		}
+
 		// binary search sequences so far
 		int low = 1;
 		int high = longest_seq;
@@ -117,12 +134,30 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 	}
 
 	// Mark LIS elements
-	index = nodes[longest_seq - 1].end_of_seq;
+	const int node_count = index;
+	index = longest_seq > 0 ? nodes[longest_seq - 1].end_of_seq : -1;
 	while (index != -1) {
 		nodes[index].in_order = 1;
 		index = nodes[index].seq_prev;
 	}
 
+	// Nodes the search left out although they are not out of order with any
+	// node in the sequence are in order as well
+	for (index = 0; index < node_count; index++) {
+		bool conflict = false;
+		for (int i = 0; i < node_count && !nodes[index].in_order && !conflict; i++) {
+			if (!nodes[i].in_order) {
+				continue;
+			}
+			conflict = i < index ?
+			           comp_func(ordering, nodes[i].node, nodes[index].node) < 0 :
+			           comp_func(ordering, nodes[index].node, nodes[i].node) < 0;
+		}
+		if (!conflict) {
+			nodes[index].in_order = 1;
+		}
+	}
+
 #ifdef DEBUG_INFO
 	for (int i=0; i< ordering->order_node_len; i++) {
 		if(nodes[i].node) {
@@ -763,10 +798,10 @@ const char *lss_to_string(enum local_subsection lss)
 char *get_ordering_reason(struct ordering_metadata *order_data, unsigned int index, enum order_conf variant)
 {
 	unsigned int distance = 1;
-	unsigned int nearest_index = 0;
+	unsigned int nearest_index = index;
 	enum order_difference_reason reason = ORDER_EQUAL;
-	while (nearest_index == 0) {
-		if (distance < index &&
+	while (nearest_index == index) {
+		if (distance <= index &&
 		    order_data->nodes[index-distance].in_order) {
 			reason = compare_nodes_refpolicy_generic(order_data,
 								 order_data->nodes[index-distance].node,
@@ -790,7 +825,7 @@ char *get_ordering_reason(struct ordering_metadata *order_data, unsigned int ind
 		}
 		distance++;
 		if ((distance > index) &&
-		    (index + distance > order_data->order_node_len)) {
+		    (index + distance >= order_data->order_node_len)) {
 			return NULL; // Error
 		}
 	}
-- 
2.43.0


From 2389ee31b41b84ce3bf4c1beccd2ea0118ec2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 22/35] fix: the layer of a module depended on how the path to
 its interface file is written

Interface files named as arguments, found below a directory given as '.' or
with a trailing slash, or found in a context path got no layer, which changed
C-001 findings.
---
 src/main.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3eaabac..101da9a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -88,6 +88,29 @@ static void usage(void)
 		printf("%sWarning%s: %s, %s, is not a valid check id.\n", color_warning(), color_reset(), id, desc);\
 	}
 
+// The layer of a module is the name of the directory its interface file is in,
+// however the path to the file is written
+static void insert_module_layer(const FTSENT *file)
+{
+	char *dir = strdup(file->fts_accpath);
+	char *slash = strrchr(dir, '/');
+
+	if (slash) {
+		slash[1] = '\0';
+	}
+
+	char *real_dir = realpath(slash ? dir : ".", NULL);
+	const char *layer = real_dir ? strrchr(real_dir, '/') + 1 : file->fts_parent->fts_name;
+
+	char *mod_name = strdup(file->fts_name);
+	mod_name[file->fts_namelen - 3] = '\0';
+	insert_into_mod_layers_map(mod_name, layer);
+
+	free(mod_name);
+	free(real_dir);
+	free(dir);
+}
+
 int main(int argc, char **argv)
 {
 
@@ -418,10 +441,7 @@ int main(int argc, char **argv)
 			file_list_push_back(if_files,
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
-			char *mod_name = strdup(file->fts_name);
-			mod_name[file->fts_namelen - 3] = '\0';
-			insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
-			free(mod_name);
+			insert_module_layer(file);
 		} else if (suffix && !strcmp(suffix, ".fc")) {
 			file_list_push_back(fc_files,
 			                    make_policy_file(file->fts_path,
@@ -493,6 +513,7 @@ int main(int argc, char **argv)
 					file_list_push_back(context_if_files,
 							    make_policy_file(file->fts_path,
 							    NULL));
+					insert_module_layer(file);
 				}
 			} else if (source_flag && !is_dir
                                    && !modules_conf_path
-- 
2.43.0


From 39ba5f6097147aa1614dfe8a41bb2d6c167cd910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:24 +0000
Subject: [PATCH 23/35] fix: a directory given as configuration file ended
 selint with an undocumented exit status

---
 src/main.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 101da9a..3474483 100644
--- a/src/main.c
+++ b/src/main.c
@@ -88,6 +88,14 @@ static void usage(void)
 		printf("%sWarning%s: %s, %s, is not a valid check id.\n", color_warning(), color_reset(), id, desc);\
 	}
 
+// A directory can be opened, but not be read as a configuration file
+static bool is_readable_file(const char *path)
+{
+	struct stat sb;
+
+	return 0 == access(path, R_OK) && 0 == stat(path, &sb) && !S_ISDIR(sb.st_mode);
+}
+
 // The layer of a module is the name of the directory its interface file is in,
 // however the path to the file is written
 static void insert_module_layer(const FTSENT *file)
@@ -335,12 +343,12 @@ int main(int argc, char **argv)
 		WARN_ON_INVALID_CHECK_ID(cur->string, "enabled on command line");
 	}
 
-	if (config_filename && 0 != access(config_filename, R_OK)) {
+	if (config_filename && !is_readable_file(config_filename)) {
 		printf("%sError%s: No configuration file found at '%s'!\n", color_error(), color_reset(), config_filename);
 		exit(EX_USAGE);
 	} else if (!config_filename) {
 		config_filename = SYSCONFDIR "/selint.conf";    // Default install path
-		if (0 != access(config_filename, R_OK)) {
+		if (!is_readable_file(config_filename)) {
 			//No default config found
 			print_if_verbose(
 				"No config specified and could not find default config at %s.\n",
-- 
2.43.0


From ecc4308add0c289c6e07990c1bda08ed006dfb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:52 +0000
Subject: [PATCH 24/35] fix: type transitions were sorted into the section of
 their target instead of their source

---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 99f6734..44ef64d 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -241,7 +241,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0


From 1cc37a8570008c38256686542434411a8350d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 25/35] fix: files with several 100000 statements exhausted the
 stack when freed

free_policy_node() recursed over the siblings of a node.
---
 src/tree.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index c9b2702..bf4061f 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -425,8 +425,13 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 	free_policy_node(to_free->first_child);
 	to_free->first_child = NULL;
 
-	free_policy_node(to_free->next);
-	to_free->next = NULL;
+	// a file can hold too many statements to recurse over them
+	while (to_free->next) {
+		struct policy_node *sibling = to_free->next;
+		to_free->next = sibling->next;
+		sibling->next = NULL;
+		free_policy_node(sibling);
+	}
 
 	to_free->prev = NULL;
 
-- 
2.43.0


From 4a289f3e4e75877da11c50de161f92222be19c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 26/35] fix: files starting with 10000 comment lines were
 rejected

The right recursive rule for leading comments needed parser stack for each of them.
---
 src/parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index 9d1b8b6..1157077 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -234,7 +234,7 @@ te_policy:
 comments:
 	comment
 	|
-	comment comments
+	comments comment
 	;
 
 comment:
-- 
2.43.0


From efa888b7463e115469770c5e44155aa10d49598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:32 +0000
Subject: [PATCH 27/35] fix: do not read past the end of an empty check id

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..59387be 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -137,7 +137,7 @@ int is_valid_check(const char *check_str)
 		return 0;
 	}
 
-	if (check_str[1] != '-') {
+	if (check_str[0] == '\0' || check_str[1] != '-') {
 		return 0;
 	}
 
-- 
2.43.0


From 3b191601ed379d134e87e91f1ae4c50777a3f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 28/35] fix: an empty path argument crashed the scan for files

fts_open() fails for it.
---
 src/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index 3474483..2ce2572 100644
--- a/src/main.c
+++ b/src/main.c
@@ -14,6 +14,7 @@
 * limitations under the License.
 */
 
+#include <errno.h>
 #include <stdio.h>
 #include <getopt.h>
 #include <sys/types.h>
@@ -21,6 +22,7 @@
 #include <fts.h>
 #include <unistd.h>
 #include <sysexits.h>
+#include <string.h>
 
 #include "runner.h"
 #include "parse.h"
@@ -429,6 +431,11 @@ int main(int argc, char **argv)
 	paths[i] = NULL;
 
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+	if (!ftsp) {
+		// e.g. an empty path
+		printf("%sError%s: Failed to scan paths: %s!\n", color_error(), color_reset(), strerror(errno));
+		exit(EX_USAGE);
+	}
 
 	FTSENT *file = fts_read(ftsp);
 
@@ -505,6 +512,10 @@ int main(int argc, char **argv)
 		paths[1] = NULL;
 
 		ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+		if (!ftsp) {
+			printf("%sError%s: Failed to scan context path: %s!\n", color_error(), color_reset(), strerror(errno));
+			exit(EX_USAGE);
+		}
 		file = fts_read(ftsp);
 
 		while (file) {
-- 
2.43.0


From 246e082f57447b7add4b02b56165c207ceced5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 29/35] fix: accept an excluded name of a single letter

A minus followed by one of the letters b, c, d, l, p or s and a space was
taken for the file type specifier of a genfscon statement everywhere, so
that e.g. { foo_t -b } was rejected with a syntax error.  Look for the
specifier only inside of genfscon statements.
---
 src/lex.l | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 62c0971..75b3201 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -92,6 +92,7 @@ void reset_current_lines(void) {
 %option reentrant
 %option bison-bridge
 %option bison-locations
+%s GENFS
 %%
 policy_module { return POLICY_MODULE; }
 module { return MODULE; }
@@ -133,7 +134,7 @@ if { return IF; }
 else { return ELSE; }
 ifdef { return IFDEF; }
 ifndef { return IFNDEF; }
-genfscon { return GENFSCON; }
+genfscon { BEGIN(GENFS); return GENFSCON; }
 sid { return SID; }
 portcon { return PORTCON; }
 netifcon { return NETIFCON; }
@@ -143,7 +144,7 @@ fs_use_xattr { return FS_USE_XATTR; }
 fs_use_task { return FS_USE_TASK; }
 define { return DEFINE; }
 gen_user { return GEN_USER; }
-gen_context { return GEN_CONTEXT; }
+gen_context { BEGIN(INITIAL); return GEN_CONTEXT; }
 permissive { return PERMISSIVE; }
 typebounds { return TYPEBOUNDS; }
 interface { return INTERFACE; }
@@ -157,14 +158,14 @@ dnl([^a-zA-Z0-9_\n].*)? ; /* skip m4 comment lines */
 [0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3} { yylval->string = strdup(yytext); return IPV4; }
 ([0-9A-Fa-f]{1,4})?\:([0-9A-Fa-f\:])*\:([0-9A-Fa-f]{1,4})? { yylval->string = strdup(yytext); return IPV6; }
 \"[a-zA-Z0-9_\.\-\:~\$]*\" { yylval->string = strdup(yytext); return QUOTED_STRING; }
-\-[\-ldbcsp][ \t] { return FILE_TYPE_SPECIFIER; }
+<GENFS>\-[\-ldbcsp][ \t] { BEGIN(INITIAL); return FILE_TYPE_SPECIFIER; }
 \( { return OPEN_PAREN; }
 \) { return CLOSE_PAREN; }
 \, { return COMMA; }
 \. { return PERIOD; }
 \{ { return OPEN_CURLY; }
 \} { return CLOSE_CURLY; }
-\: { return COLON; }
+\: { BEGIN(INITIAL); return COLON; }
 \; { return SEMICOLON; }
 \` { return BACKTICK; }
 \' { return SINGLE_QUOTE; }
-- 
2.43.0


From 66c5d1d76f7cb3af6d11f746432bec2aba4b6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 30/35] fix: compare the stems of section names by their length
 too

The names foo_ and foo_t were taken for the same section, since they agree
in the length of the longer stem, so that the order of lines of two
different sources was checked as if they were of one.
---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 44ef64d..712e246 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -612,7 +612,7 @@ static bool is_same_section(const char *first_section_name, const char *second_s
 		second_length -= 2;
 	}
 
-	return (0 == strncmp(first_section_name, second_section_name, first_length > second_length ? first_length : second_length));
+	return first_length == second_length && 0 == strncmp(first_section_name, second_section_name, first_length);
 }
 
 #define CHECK_ORDERING(to_check_first, to_check_second, comp, ret) \
-- 
2.43.0


From a3369711e84e966b499e8e3c1565f2682900fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 31/35] fix: terminate a substituted name whose argument is
 missing

When a positional argument at the end of a name had no counterpart in the
call, the result was only terminated if nothing was copied before it.  The
name then continued with uninitialized memory.
---
 src/template.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/template.c b/src/template.c
index 2d53ee2..c91846c 100644
--- a/src/template.c
+++ b/src/template.c
@@ -58,6 +58,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		}
 		strncpy(ret_pos, orig_pos, (size_t)(dollar_pos - orig_pos));
 		ret_pos += dollar_pos - orig_pos;
+		*ret_pos = '\0';        // There may be neither an argument nor more text
 		orig_pos = dollar_pos;
 
 		int ret_count =
-- 
2.43.0


From 5970da4e616bbab6d02db882a91753ab84f58f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 32/35] fix: report file context lines with an unknown file
 type specifier

---
 src/parse_fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 1c64372..075f31d 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -55,7 +55,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[1] == '\0' || pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0' || !strchr("-bcdpls", pos[1])) {
 			goto cleanup;
 		}
 		out->obj = pos[1];
-- 
2.43.0


From be197ca52f579fea7c425bf67c33b523198bb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 33/35] fix: accept levels with categories in raw file contexts

---
 src/parse_fc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 075f31d..1720ebd 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -197,11 +197,18 @@ struct sel_context *parse_context(char *context_str)
 
 	context->type = strdup(pos);
 
-	pos = strtok(NULL, ":");
+	// The range is the rest, each of its at most two levels can have categories
+	pos = strtok(NULL, "");
 
 	if (pos) {
 		context->range = strdup(pos);
-		if (strtok(NULL, ":")) {
+		int colons = 0;
+		for (; *pos; pos++) {
+			if (*pos == ':') {
+				colons++;
+			}
+		}
+		if (colons > (strchr(context->range, '-') ? 2 : 1)) {
 			goto cleanup;
 		}
 	}
-- 
2.43.0


From 21f8e2ab65ac1afd25a8347bbcfc81214e9589f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 34/35] fix: report check ids in another form than X-000 as
 invalid

---
 src/check_hooks.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 59387be..ff537aa 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -165,6 +165,11 @@ int is_valid_check(const char *check_str)
 		return 0;
 	}
 
+	// Check ids are compared as strings, so "W-1" or "W-001x" name no check
+	if (strlen(check_str) != 5 || strspn(check_str + 2, "0123456789") != 3) {
+		return 0;
+	}
+
 	int check_id = atoi(check_str+2);
 	if (check_id > 0 && check_id <= max_id) {
 		return 1;
-- 
2.43.0


From b7510ae36ff927f15758351f1b1b3726dc5dec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 35/35] fix: W-007 counted the entries of a list in braces as
 arguments

The number in the finding was that of the entries so far, so that
call({ a b }, c d) was reported about argument no. 3 instead of 2.
---
 src/te_checks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/te_checks.c b/src/te_checks.c
index ff87520..19a67ac 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -557,7 +557,7 @@ struct check_result *check_space_if_call_arg(__attribute__((unused)) const struc
 							 prev->string,
 							 node->data.ic_data->name);
 			}
-		} else {
+		} else if (!args->continues_arg) {
 			i++;
 		}
 
-- 
2.43.0

