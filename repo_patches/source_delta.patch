From b6fa98167b41d07ab0d55ae23daa0477474de748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:03 +0000
Subject: [PATCH 01/39] fix: subset: do not leave children of rejected lists in
 the parse tree

---
 src/ecoli_node_subset.c | 42 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..fab81f4 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,6 +33,26 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
+/* move the children located after "prev" (all of them if NULL) in "from"
+ * at the end of the children of "to". */
+static void
+move_children(struct ec_pnode *to, struct ec_pnode *from,
+	struct ec_pnode *prev)
+{
+	struct ec_pnode *child;
+
+	for (;;) {
+		if (prev == NULL)
+			child = ec_pnode_get_first_child(from);
+		else
+			child = ec_pnode_next(prev);
+		if (child == NULL)
+			break;
+		ec_pnode_unlink_child(child);
+		ec_pnode_link_child(to, child);
+	}
+}
+
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
 static int
@@ -44,7 +64,7 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	struct ec_strvec *childvec = NULL;
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
-	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode *best_parse = NULL, *prev;
 	int ret;
 
 	if (table_len == 0)
@@ -52,6 +72,14 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	memset(&best_result, 0, sizeof(best_result));
 
+	/* the children parsed before this call */
+	prev = ec_pnode_get_last_child(pstate);
+
+	/* temporary parent of the nodes of the best list */
+	best_parse = ec_pnode(NULL);
+	if (best_parse == NULL)
+		return -1;
+
 	child_table = ec_calloc(table_len - 1, sizeof(*child_table));
 	if (child_table == NULL)
 		goto fail;
@@ -91,14 +119,14 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
 			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			while (ec_pnode_get_last_child(pstate) != prev)
+				ec_pnode_del_last_child(pstate);
 			continue;
 		}
 
 		/* replace the previous best result */
-		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		ec_pnode_free_children(best_parse);
+		move_children(best_parse, pstate, prev);
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
@@ -108,8 +136,8 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	move_children(pstate, best_parse, NULL);
+	ec_pnode_free(best_parse);
 
 	return 0;
 
-- 
2.43.0


From d9c341b044c58848b44bac52123e2dbd1ae5d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:25 +0000
Subject: [PATCH 02/39] fix: string: an empty string is not an integer, set
 errno on failure

---
 src/ecoli_string.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..54f12e0 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,15 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
-		return -1;
-
-	if (*val > max)
+	if (*val < min || *val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 4f820c5584e9b2b3442c5895bcd82d28aaaf7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:25 +0000
Subject: [PATCH 03/39] fix: node_int: keep the minimum when no maximum is
 configured

---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From 9e12ca41e7ddfc142caf76fdd40cfd2245194d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:54 +0000
Subject: [PATCH 04/39] fix: complete: do not loop forever when a group has no
 item of the requested type

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From b92ffd2691fd4a2b8d031381db4e748c96b0f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:35 +0000
Subject: [PATCH 05/39] fix: node_many: no endless recursion when completing a
 child that matches nothing

---
 src/ecoli_node_many.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..7203620 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,9 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest; as in parse, an empty match is not a repetition
+	 * (it would recurse endlessly) */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From 390f1f8ce89d52f047cd93b7d91d10e2dd2e0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:51 +0000
Subject: [PATCH 06/39] fix: subset: do not modify the node while completing

---
 src/ecoli_node_subset.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index fab81f4..553dfbc 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -256,9 +256,23 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table;
+	int ret;
+
+	if (priv->len == 0)
+		return 0;
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	/* work on a copy: the table is modified during completion, and the
+	 * node can be used by its own children if the graph has a loop */
+	table = ec_malloc(priv->len * sizeof(*table));
+	if (table == NULL)
+		return -1;
+	memcpy(table, priv->table, priv->len * sizeof(*table));
+
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From 1be7b1cc3ddaef74cb7329efcc7c496ef8ada0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:57 +0000
Subject: [PATCH 07/39] fix: strvec: report the quote that is really open at
 the end of the string

---
 src/ecoli_strvec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..eb424c4 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -382,7 +382,6 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SPACE:
 				/* end of token */
-				quote = '\0';
 				token[t] = '\0';
 				if (ec_strvec_add(strvec, token) < 0)
 					goto fail;
@@ -392,9 +391,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -416,6 +417,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -429,6 +431,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From 2e88b58574435fa275a92319008cae2507dd34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:57 +0000
Subject: [PATCH 08/39] fix: strvec: keep an empty quoted word at the end of
 the line

---
 src/ecoli_strvec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index eb424c4..68bcce7 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -463,7 +463,8 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
+		/* the token can be empty if it is quoted */
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From 2647272429b253d349e7a39fec706a5937b62d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:57 +0000
Subject: [PATCH 09/39] fix: sh_lex: do not consume a string that is not there

---
 src/ecoli_node_sh_lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..fcc0189 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,7 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From 24dedcea4676482eb4e2c43c1cd60174e036f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:38 +0000
Subject: [PATCH 10/39] fix: strvec: the end of line after a comment is a
 trailing space

---
 src/ecoli_strvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 68bcce7..90da673 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -439,8 +439,10 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			}
 			break;
 		case IN_COMMENT:
-			if (c == '\n' || c == '\r')
+			if (c == '\n' || c == '\r') {
 				state = START;
+				trailing_space = true;
+			}
 			break;
 		}
 	}
-- 
2.43.0


From bb6eb88a5a964b43d5dae3d5e4eaf829bde4a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:11 +0000
Subject: [PATCH 11/39] fix: re_lex: a string that cannot be tokenized does not
 match

---
 src/ecoli_node_re_lex.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..5787376 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -48,7 +48,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 	char c;
 	size_t len, off = 0;
 	size_t i;
-	int ret = 0;
+	int ret;
 	regmatch_t pos = {0};
 
 	dup = ec_strdup(str);
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
@@ -99,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) { /* no pattern matches */
+			errno = EBADMSG;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
@@ -136,6 +139,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		str = ec_strvec_val(strvec, 0);
 		new_vec = tokenize(priv->table, priv->len, str);
 	}
+	if (new_vec == NULL && errno == EBADMSG) /* cannot be tokenized */
+		return EC_PARSE_NOMATCH;
 	if (new_vec == NULL)
 		goto fail;
 
@@ -144,7 +149,7 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From 26718485562e2f20291974ebae4a80dc73821a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:01 +0000
Subject: [PATCH 12/39] fix: node: free and search grammars with loops

- marking could overwrite the not-freeable state of a node reached from
  several paths, and recurse endlessly
- replacing a child that loops back to its parent counted the released
  reference twice and aborted
- cond, cmd and expr did not report all the references they hold, so that
  loops through them were never freed
- ec_node_find() recursed endlessly in a loop when the id does not exist
---
 src/ecoli_node.c        | 24 ++++++++++++++++++---
 src/ecoli_node_bypass.c |  6 ++++--
 src/ecoli_node_cmd.c    | 30 ++++++++++++++++++---------
 src/ecoli_node_cond.c   |  9 ++++++--
 src/ecoli_node_expr.c   | 46 +++++++++++++++++++++++++++++++++--------
 src/ecoli_node_many.c   |  6 ++++--
 src/ecoli_node_once.c   |  6 ++++--
 src/ecoli_node_option.c |  6 ++++--
 src/ecoli_node_or.c     | 13 +++++++-----
 src/ecoli_node_re_lex.c |  6 ++++--
 src/ecoli_node_seq.c    | 13 +++++++-----
 11 files changed, 121 insertions(+), 44 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..dbd7fbb 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -184,7 +184,9 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	size_t i, n;
 	int ret;
 
-	if (mark == node->free.state)
+	/* a node that is not freeable stays so, with all its descendants */
+	if (node->free.state == mark ||
+			node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
 		return;
 
 	if (node->refcnt > node->free.refcnt)
@@ -330,7 +332,7 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+static struct ec_node *__ec_node_find(struct ec_node *node, const char *id)
 {
 	struct ec_node *child, *retnode;
 	const char *node_id = ec_node_id(node);
@@ -338,6 +340,11 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	size_t i, n;
 	int ret;
 
+	/* already visited */
+	if (node->free.state == EC_NODE_FREE_STATE_TRAVERSED)
+		return NULL;
+	node->free.state = EC_NODE_FREE_STATE_TRAVERSED;
+
 	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
 		return node;
 
@@ -345,7 +352,7 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = ec_node_find(child, id);
+		retnode = __ec_node_find(child, id);
 		if (retnode != NULL)
 			return retnode;
 	}
@@ -353,6 +360,17 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	return NULL;
 }
 
+struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+{
+	struct ec_node *retnode;
+
+	/* mark the visited nodes: there may be a loop in the graph */
+	retnode = __ec_node_find(node, id);
+	reset_mark(node);
+
+	return retnode;
+}
+
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
 {
 	return node->type;
diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..cdb77bb 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -90,6 +90,7 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_bypass *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -100,9 +101,10 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..992c137 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -455,6 +455,7 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
+	struct ec_node_cmd old;
 	const struct ec_config *expr = NULL;
 	struct ec_node *cmd = NULL;
 	struct ec_node **table = NULL;
@@ -482,16 +483,18 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 	if (cmd == NULL)
 		goto fail;
 
-	/* ok, store the config */
-	ec_node_free(priv->cmd);
+	/* ok, store the config: detach the old nodes before freeing them,
+	 * there may be a loop */
+	old = *priv;
 	priv->cmd = cmd;
-	ec_free(priv->cmd_str);
 	priv->cmd_str = cmd_str;
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
 	priv->table = table;
 	priv->len = len;
+	ec_node_free(old.cmd);
+	ec_free(old.cmd_str);
+	for (i = 0; i < old.len; i++)
+		ec_node_free(old.table[i]);
+	ec_free(old.table);
 
 	return 0;
 
@@ -513,7 +516,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -522,11 +525,18 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (i >= ec_node_cmd_get_children_count(node))
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+	} else {
+		/* each node of the table is referenced twice: once in the
+		 * config and once in the priv->table[] */
+		*child = priv->table[i - 1];
+		*refs = 2;
+	}
 	return 0;
 }
 
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..bbf23bb 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -769,6 +769,7 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	struct ec_node_cond *priv = ec_node_priv(node);
 	const struct ec_config *cond = NULL;
 	struct ec_pnode *parsed_cond = NULL;
+	struct ec_node *old_child;
 	const struct ec_config *child;
 	char *cond_str = NULL;
 
@@ -796,8 +797,10 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	priv->parsed_cond = parsed_cond;
 	ec_free(priv->cond_str);
 	priv->cond_str = cond_str;
-	ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
@@ -827,7 +830,9 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	/* each child node is referenced twice: once in the config and
+	 * once in the priv->child */
+	*refs = 2;
 	return 0;
 }
 
diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..856edf1 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -98,11 +98,13 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 {
 	struct ec_node *term = NULL, *expr = NULL, *next = NULL,
 		*pre_op = NULL, *post_op = NULL, *ref = NULL,
-		*post = NULL;
+		*post = NULL, *old_child;
 	unsigned int i;
 
-	ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = NULL;
+	ec_node_free(old_child);
 
 	if (priv->val_node == NULL) {
 		errno = EINVAL;
@@ -223,14 +225,24 @@ fail:
 	return -1;
 }
 
+/* list all the references held by the expression node: the built node and
+ * the configuration nodes. */
 static size_t
 ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
-
-	if (priv->child)
-		return 1;
-	return 0;
+	size_t n = 0;
+
+	if (priv->child != NULL)
+		n++;
+	if (priv->val_node != NULL)
+		n++;
+	n += priv->bin_ops_len;
+	n += priv->pre_ops_len;
+	n += priv->post_ops_len;
+	n += 2 * priv->paren_len;
+
+	return n;
 }
 
 static int
@@ -239,11 +251,25 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (i >= 1)
+	if (i >= ec_node_expr_get_children_count(node))
 		return -1;
 
-	*child = priv->child;
 	*refs = 1;
+	if (priv->child != NULL && i-- == 0)
+		*child = priv->child;
+	else if (priv->val_node != NULL && i-- == 0)
+		*child = priv->val_node;
+	else if (i < priv->bin_ops_len)
+		*child = priv->bin_ops[i];
+	else if ((i -= priv->bin_ops_len) < priv->pre_ops_len)
+		*child = priv->pre_ops[i];
+	else if ((i -= priv->pre_ops_len) < priv->post_ops_len)
+		*child = priv->post_ops[i];
+	else if ((i -= priv->post_ops_len) < priv->paren_len)
+		*child = priv->open_ops[i];
+	else
+		*child = priv->close_ops[i - priv->paren_len];
+
 	return 0;
 }
 
@@ -262,6 +288,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *old_val_node;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -271,8 +298,9 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	ec_node_free(old_val_node);
 	ec_node_expr_build(priv);
 
 	return 0;
diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index 7203620..e03dfa5 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -210,6 +210,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_many *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child, *min, *max;
 
 	child = ec_config_dict_get(config, "child");
@@ -232,9 +233,10 @@ static int ec_node_many_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	if (min == NULL)
 		priv->min = 0;
 	else
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..acba83d 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -132,6 +132,7 @@ static int ec_node_once_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_once *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -142,9 +143,10 @@ static int ec_node_once_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..4d61096 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -98,6 +98,7 @@ static int ec_node_option_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_option *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -108,9 +109,10 @@ static int ec_node_option_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 
 	return 0;
 
diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..c33bd49 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -105,19 +105,22 @@ static int ec_node_or_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_or *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table;
+	size_t i, len = 0, old_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* detach the old table before freeing it: there may be a loop */
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 5787376..242d85f 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -260,6 +260,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_re_lex *priv = ec_node_priv(node);
+	struct ec_node *old_child;
 	struct regexp_pattern *table = NULL;
 	const struct ec_config *patterns, *child, *elt, *pattern, *keep, *attr;
 	char *pattern_str = NULL, *attr_name = NULL;
@@ -344,9 +345,10 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 		}
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(old_child);
 	for (i = 0; i < (ssize_t)priv->len; i++) {
 		ec_free(priv->table[i].pattern);
 		ec_free(priv->table[i].attr_name);
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..d90e5fd 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -191,19 +191,22 @@ static int ec_node_seq_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_seq *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **old_table;
+	size_t i, len = 0, old_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* detach the old table before freeing it: there may be a loop */
+	old_table = priv->table;
+	old_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < old_len; i++)
+		ec_node_free(old_table[i]);
+	ec_free(old_table);
 
 	return 0;
 }
-- 
2.43.0


From 7912f19c650ea3277192794ff4330fce030d6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:15 +0000
Subject: [PATCH 13/39] fix: htable: behave as documented on bad arguments and
 NULL values

- a lookup in a NULL table reports EINVAL instead of crashing
- the value is freed when the arguments of ec_htable_set() are refused
- errno is set to 0 when the value that is found is NULL
---
 src/ecoli_htable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..f378d01 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
@@ -97,6 +98,8 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	if (ref->elt->val == NULL)
+		errno = 0;
 	return ref->elt->val;
 }
 
@@ -188,7 +191,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From aab0e427cd5e2adba6028ca2869e6106c9a89d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:55 +0000
Subject: [PATCH 14/39] fix: strvec, vec: refuse ranges that overflow, set
 errno

ec_strvec_ndup() and ec_vec_ndup() computed off + len without caring about
overflows, and did not set errno when refusing a range.
---
 src/ecoli_strvec.c | 4 +++-
 src/ecoli_vec.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 90da673..f8a83ba 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 733d3f5bf697e68a73d17e41655ab7fbdba9c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:04 +0000
Subject: [PATCH 15/39] fix: report an error when using a node that is not
 configured

Parsing or completing with a node created by ec_node() whose child,
pattern or callback was never set crashed.
---
 src/ecoli_complete.c     |  6 ++++++
 src/ecoli_node_dynamic.c | 10 ++++++++++
 src/ecoli_node_re.c      |  5 +++++
 src/ecoli_node_str.c     |  3 +++
 src/ecoli_parse.c        |  6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..d9a2bec 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -108,6 +108,12 @@ ec_complete_child(const struct ec_node *node,
 	ec_complete_t complete_cb;
 	int ret;
 
+	/* the child of a node that is not configured */
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	/* get the complete method, falling back to ec_complete_unknown() */
 	complete_cb = ec_node_type(node)->complete;
 	if (complete_cb == NULL)
diff --git a/src/ecoli_node_dynamic.c b/src/ecoli_node_dynamic.c
index 2eb3495..ee77f81 100644
--- a/src/ecoli_node_dynamic.c
+++ b/src/ecoli_node_dynamic.c
@@ -39,6 +39,11 @@ ec_node_dynamic_parse(const struct ec_node *node,
 	char key[64];
 	int ret = -1;
 
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
 		goto fail;
@@ -72,6 +77,11 @@ ec_node_dynamic_complete(const struct ec_node *node,
 	char key[64];
 	int ret = -1;
 
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	parse = ec_comp_get_cur_pstate(comp);
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
diff --git a/src/ecoli_node_re.c b/src/ecoli_node_re.c
index 8633501..fcc2c0e 100644
--- a/src/ecoli_node_re.c
+++ b/src/ecoli_node_re.c
@@ -36,6 +36,11 @@ ec_node_re_parse(const struct ec_node *node,
 
 	(void)pstate;
 
+	if (priv->re_str == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_strvec_len(strvec) == 0)
 		return EC_PARSE_NOMATCH;
 
diff --git a/src/ecoli_node_str.c b/src/ecoli_node_str.c
index d568430..29fb564 100644
--- a/src/ecoli_node_str.c
+++ b/src/ecoli_node_str.c
@@ -84,6 +84,9 @@ static char *ec_node_str_desc(const struct ec_node *node)
 {
 	struct ec_node_str *priv = ec_node_priv(node);
 
+	if (priv->string == NULL)
+		return ec_strdup("<str>");
+
 	return ec_strdup(priv->string);
 }
 
diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index e4153c0..9705507 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -43,6 +43,12 @@ static int __ec_parse_child(const struct ec_node *node,
 
 	// XXX limit max number of recursions to avoid segfault
 
+	/* the child of a node that is not configured */
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_node_type(node)->parse == NULL) {
 		errno = ENOTSUP;
 		return -1;
-- 
2.43.0


From 18b1c2b0843eeecb24ea4c3331f7d07b14dc9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 16/39] fix: config: dump signed values as signed, count
 dictionaries, set errno

---
 src/ecoli_config.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..4c033fd 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -274,8 +274,10 @@ ec_config_string(const char *string)
 	struct ec_config *value = NULL;
 	char *s = NULL;
 
-	if (string == NULL)
+	if (string == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	s = ec_strdup(string);
 	if (s == NULL)
@@ -302,8 +304,10 @@ ec_config_node(struct ec_node *node)
 {
 	struct ec_config *value = NULL;
 
-	if (node == NULL)
+	if (node == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	value = ec_calloc(1, sizeof(*value));
 	if (value == NULL)
@@ -372,7 +376,7 @@ ssize_t ec_config_count(const struct ec_config *config)
 			n++;
 		return n;
 	case EC_CONFIG_TYPE_DICT:
-		// XXX todo
+		return ec_dict_len(config->dict);
 	default:
 		errno = EINVAL;
 		return -1;
@@ -595,7 +599,8 @@ int
 ec_config_validate(const struct ec_config *dict,
 		const struct ec_config_schema *schema)
 {
-	if (dict->type != EC_CONFIG_TYPE_DICT || schema == NULL) {
+	if (dict == NULL || dict->type != EC_CONFIG_TYPE_DICT ||
+			schema == NULL) {
 		errno = EINVAL;
 		goto fail;
 	}
@@ -855,10 +860,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From 0c0dbf88432c228a6c91b59f85f7c6875b80f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 17/39] fix: cond: child that does not match or matches
 nothing, comparison of node sets

---
 src/ecoli_node_cond.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index bbf23bb..38a07ae 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From 44785792e81238cb3cd299a5d6d9dd88444f7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:19 +0000
Subject: [PATCH 18/39] fix: expr: apply the operators one after the other, and
 release values once

Two consecutive postfix operators aborted the program. A list of binary operators
was evaluated as a op ((b op c) op d). A value that contains an expression, or
an operator node used both as prefix and binary, aborted too. On error, the result
of a callback is undefined: do not free it.
---
 src/ecoli_node_expr.c | 127 ++++++++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 49 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 856edf1..ce06b1e 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -498,6 +498,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val = NULL; /* undefined if a callback fails */
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -505,36 +507,34 @@ static int merge_results(void *userctx,
 		return 0;
 	}
 
-	if (x->has_val && y->has_val && y->op != NULL) {
+	/* an operator after a value */
+	if (x->has_val && x->op == NULL && y->has_val == 0) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
-					y->op, y->val) < 0)
-				return -1;
-
+			x->op = y->op; /* wait for the second operand */
+			x->op_type = y->op_type;
 			return 0;
 		}
+		if (ops->eval_post_op(&val, userctx, x->val, y->op) < 0)
+			return -1;
+		x->val = val;
+		return 0;
 	}
 
-	if (x->has_val == 0 && x->op != NULL && y->has_val && y->op == NULL) {
-		if (x->op_type == PRE_OP) {
-			if (ops->eval_pre_op(&x->val, userctx, y->val,
+	/* a value after an operator */
+	if (x->op != NULL && y->has_val && y->op == NULL) {
+		if (x->has_val) {
+			if (ops->eval_bin_op(&val, userctx, x->val,
+					x->op, y->val) < 0)
+				return -1;
+		} else {
+			if (ops->eval_pre_op(&val, userctx, y->val,
 						x->op) < 0)
 				return -1;
-			x->has_val = true;
-			x->op_type = NONE;
-			x->op = NULL;
-			return 0;
-		} else if (x->op_type == BIN_OP) {
-			x->val = y->val;
-			x->has_val = true;
-			return 0;
 		}
-	}
-
-	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
-			return -1;
-
+		x->val = val;
+		x->has_val = true;
+		x->op_type = NONE;
+		x->op = NULL;
 		return 0;
 	}
 
@@ -546,26 +546,20 @@ static int eval_expression(struct result *result,
 	void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	const struct ec_node *expr_node,
-	const struct ec_pnode *parse)
+	const struct ec_pnode *parse);
 
+/* evaluate the children of the parse node, and merge them in result */
+static int eval_children(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
 {
 	struct ec_pnode *open = NULL, *close = NULL;
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
-
-	memset(result, 0, sizeof(*result));
-	memset(&child_result, 0, sizeof(child_result));
-
-	type = get_node_type(expr_node, ec_pnode_get_node(parse));
-	if (type == VAL) {
-		if (ops->eval_var(&result->val, userctx, parse) < 0)
-			goto fail;
-		result->has_val = 1;
-	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
-		result->op = parse;
-		result->op_type = type;
-	}
+	void *val = NULL; /* undefined if a callback fails */
 
 	EC_PNODE_FOREACH_CHILD(child, parse) {
 
@@ -578,32 +572,67 @@ static int eval_expression(struct result *result,
 			continue;
 		}
 
+		/* operators that follow a value: apply them to this value
+		 * one after the other */
+		if (type == NONE && result->has_val && result->op == NULL) {
+			if (eval_children(result, userctx, ops,
+					expr_node, child) < 0)
+				return -1;
+			continue;
+		}
+
 		if (eval_expression(&child_result, userctx, ops,
 			expr_node, child) < 0)
-			goto fail;
-
-		if (merge_results(userctx, ops, result, &child_result) < 0)
-			goto fail;
+			return -1;
 
-		memset(&child_result, 0, sizeof(child_result));
+		if (merge_results(userctx, ops, result, &child_result) < 0) {
+			if (child_result.has_val)
+				ops->eval_free(child_result.val, userctx);
+			return -1;
+		}
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
-			goto fail;
+			return -1;
+		result->val = val;
 	}
 
 	return 0;
+}
+
+static int eval_expression(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+
+{
+	enum expr_node_type type;
 
-fail:
-	if (result->has_val)
-		ops->eval_free(result->val, userctx);
-	if (child_result.has_val)
-		ops->eval_free(child_result.val, userctx);
 	memset(result, 0, sizeof(*result));
 
-	return -1;
+	type = get_node_type(expr_node, ec_pnode_get_node(parse));
+	if (type == VAL) {
+		if (ops->eval_var(&result->val, userctx, parse) < 0)
+			return -1;
+		result->has_val = 1;
+		return 0;
+	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
+		result->op = parse;
+		result->op_type = type;
+		return 0;
+	}
+
+	if (eval_children(result, userctx, ops, expr_node, parse) < 0) {
+		if (result->has_val)
+			ops->eval_free(result->val, userctx);
+		memset(result, 0, sizeof(*result));
+		return -1;
+	}
+
+	return 0;
 }
 
 int ec_node_expr_eval(void **user_result, const struct ec_node *node,
-- 
2.43.0


From bed7433f0ba713529cacfa77784effc46965f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:19 +0000
Subject: [PATCH 19/39] fix: cmd: keep the order of alternatives, do not modify
 the children, support '+'

'a|b|c' was built as or(b, c, a), and an operand that is a child node of type or, subset
or seq was modified. The documented '+' operator was refused. A group in
a subset was dissolved. A failed evaluation freed a node as a raw block.
---
 src/ecoli_node_cmd.c | 50 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 992c137..a1f92a0 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -5,6 +5,7 @@
 #include <sys/queue.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdbool.h>
 #include <string.h>
 #include <stdarg.h>
 #include <errno.h>
@@ -129,6 +130,13 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 			return -1;
 		ec_node_free(in);
 		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -137,6 +145,16 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* Return true if the node has this type and was created while evaluating the
+ * expression. The nodes provided by the user must not be modified: they have
+ * an id, because they are referenced by id. */
+static bool
+ec_node_cmd_is_own(const struct ec_node *node, const char *type)
+{
+	return !strcmp(ec_node_id(node), EC_NO_ID) &&
+		!strcmp(ec_node_get_type_name(node), type);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
@@ -157,7 +175,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (ec_node_cmd_is_own(in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -172,12 +190,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		if (ec_node_cmd_is_own(in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -192,12 +205,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
-			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		if (ec_node_cmd_is_own(in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -245,7 +253,15 @@ ec_node_cmd_eval_parenthesis(void **result, void *userctx,
 			return -1;
 		ec_node_free(in);
 	} else if (!strcmp(ec_strvec_val(vec, 0), "(")) {
-		out = in;
+		/* keep a group of subset items distinct from the other ones */
+		if (ec_node_cmd_is_own(in, "subset")) {
+			out = EC_NODE_SEQ(EC_NO_ID, ec_node_clone(in));
+			if (out == NULL)
+				return -1;
+			ec_node_free(in);
+		} else {
+			out = in;
+		}
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -260,7 +276,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
@@ -305,7 +321,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
@@ -331,7 +347,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[+*|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From b807081aa8cd1aa1d9e0f6353e106c027c1240d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:13 +0000
Subject: [PATCH 20/39] fix: complete: keep the attributes of a merged
 completion list

They may own nodes (dynamic node) that the merged groups refer to.
---
 src/ecoli_complete.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index d9a2bec..1016a92 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -594,7 +594,23 @@ void ec_comp_dump(FILE *out, const struct ec_comp *comp)
 int ec_comp_merge(struct ec_comp *to,
 		struct ec_comp *from)
 {
+	void (*dict_free)(struct ec_dict *) = ec_dict_free;
 	struct ec_comp_group *grp;
+	char key[64];
+	int ret;
+
+	/* the attributes may own nodes that are referenced by the groups:
+	 * keep them */
+	if (ec_dict_len(from->attrs) > 0) {
+		snprintf(key, sizeof(key), "_merge_%p", from->attrs);
+		ret = ec_dict_set(to->attrs, key, from->attrs,
+				(void *)dict_free);
+		from->attrs = NULL; /* freed on error */
+		if (ret < 0) {
+			ec_comp_free(from);
+			return -1;
+		}
+	}
 
 	while (!TAILQ_EMPTY(&from->groups)) {
 		grp = TAILQ_FIRST(&from->groups);
-- 
2.43.0


From 3c8407d484f85bae02c65616491da674be2659c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:37 +0000
Subject: [PATCH 21/39] fix: node_any: the attribute is optional

ec_node_any(id, NULL) is documented to match any string, but it always
failed: no configuration string can be built from NULL.
---
 src/ecoli_node_any.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_any.c b/src/ecoli_node_any.c
index 06e92f4..c325cc7 100644
--- a/src/ecoli_node_any.c
+++ b/src/ecoli_node_any.c
@@ -111,9 +111,12 @@ ec_node_any(const char *id, const char *attr)
 	if (config == NULL)
 		goto fail;
 
-	ret = ec_config_dict_set(config, "attr", ec_config_string(attr));
-	if (ret < 0)
-		goto fail;
+	if (attr != NULL) {
+		ret = ec_config_dict_set(config, "attr",
+					ec_config_string(attr));
+		if (ret < 0)
+			goto fail;
+	}
 
 	ret = ec_node_set_config(node, config);
 	config = NULL;
-- 
2.43.0


From 8fc364d3e550f739b6fc7932fd2b974ad4031d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:54 +0000
Subject: [PATCH 22/39] fix: node_file: a missing directory is not an error,
 follow links

The completion of the whole grammar failed when the typed directory does
not exist or is not readable, or when the file system does not give the
type of the entries and an entry is a dangling link. A link to a
directory was only completed as a directory when the file system does
not give the type of the entries. Report allocation failures.
---
 src/ecoli_node_file.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..a8457db 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -148,14 +148,18 @@ ec_node_file_complete(const struct ec_node *node,
 	else
 		effective_dir = dname;
 
+	/* no completion if the directory does not exist or is not readable */
 	if (priv->lstat(effective_dir, &st) < 0)
-		goto fail;
+		goto out;
 	if (!S_ISDIR(st.st_mode))
 		goto out;
 
 	dir = priv->opendir(effective_dir);
-	if (dir == NULL)
+	if (dir == NULL) {
+		if (errno == EACCES || errno == ENOENT || errno == ENOTDIR)
+			goto out;
 		goto fail;
+	}
 
 	bname_len = strlen(bname);
 	while (1) {
@@ -180,14 +184,14 @@ ec_node_file_complete(const struct ec_node *node,
 		/* add '/' if it's a dir */
 		if (de->d_type == DT_DIR) {
 			is_dir = 1;
-		} else if (de->d_type == DT_UNKNOWN) {
+		} else if (de->d_type == DT_UNKNOWN || de->d_type == DT_LNK) {
 			int dir_fd = priv->dirfd(dir);
 
 			if (dir_fd < 0)
 				goto fail;
-			if (priv->fstatat(dir_fd, de->d_name, &st2, 0) < 0)
-				goto fail;
-			if (S_ISDIR(st2.st_mode))
+			/* follow links, the target may be missing */
+			if (priv->fstatat(dir_fd, de->d_name, &st2, 0) == 0 &&
+					S_ISDIR(st2.st_mode))
 				is_dir = 1;
 			else
 				is_dir = 0;
@@ -212,12 +216,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0


From 3c119e88ec0f06508e5b66b0a99b7a194d4e0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 23/39] fix: yaml: refuse invalid documents cleanly

A file that cannot be opened deleted an uninitialized parser; a node
without type, a key that is not a scalar, or an attribute whose value is
not a scalar were dereferenced; an empty scalar was accepted as the
integer 0; errno was not set.
---
 src/ecoli_yaml.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..f001bee 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -60,7 +60,7 @@ parse_llint(const char *str, int64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -91,7 +91,7 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
@@ -331,6 +331,10 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +392,10 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -444,6 +452,10 @@ parse_ec_node(struct enode_table *table,
 	}
 
 	/* create the ecoli node */
+	if (type == NULL) {
+		fprintf(stderr, "Missing type\n");
+		goto fail;
+	}
 	if (id == NULL)
 		id = EC_NO_ID;
 	enode = ec_node_from_type(type, id);
@@ -491,6 +503,11 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attrs must be scalars\n");
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
@@ -540,13 +557,16 @@ ec_yaml_import(const char *filename)
 	file = fopen(filename, "rb");
 	if (file == NULL) {
 		fprintf(stderr, "Failed to open file %s\n", filename);
-		goto fail_no_doc;
+		return NULL;
 	}
 
 	if (yaml_parser_initialize(&parser) == 0) {
 		fprintf(stderr, "Failed to initialize yaml parser\n");
-		goto fail_no_doc;
+		fclose(file);
+		errno = ENOMEM;
+		return NULL;
 	}
+	errno = 0;
 
 	yaml_parser_set_input_file(&parser, file);
 
@@ -577,10 +597,11 @@ fail:
 	yaml_document_delete(&document);
 fail_no_doc:
 	yaml_parser_delete(&parser);
-	if (file != NULL)
-		fclose(file);
+	fclose(file);
 	free_table(&table);
 	ec_node_free(root);
+	if (errno == 0)
+		errno = EINVAL;
 
 	return NULL;
 }
-- 
2.43.0


From ef20cec5c04a5ce866c881663b4d7d1fd73274b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:42 +0000
Subject: [PATCH 24/39] fix: editline: sorted matches, partial completions,
 history and lines

The matches were sorted but displayed unsorted; a space was inserted
after a partial completion (a directory); disabling the history left
dangling pointers; the last character of a line without newline was
dropped; no prompt, or an item without completion, were dereferenced;
blocks of ec_malloc() were released with free(); a failure to get the
helps was not handled.
---
 src/ecoli_editline.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..6a52bdf 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -85,7 +85,7 @@ ec_editline_print_cols(struct ec_editline *editline,
 			else
 				space = "    ";
 			fprintf(f, "%s%-*s", space,
-				(int)max_strlen, matches[i+j]);
+				(int)max_strlen, matches_copy[i+j]);
 		}
 		fprintf(f, "\n");
 	}
@@ -157,6 +157,8 @@ prompt_cb(EditLine *el)
 
 	if (editline == NULL)
 		return "> ";
+	if (editline->prompt == NULL)
+		return "";
 
 	return editline->prompt;
 }
@@ -182,7 +184,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -300,8 +302,11 @@ int ec_editline_set_history(struct ec_editline *editline,
 {
 	EditLine *el = editline->el;
 
-	if (editline->history != NULL)
+	if (editline->history != NULL) {
+		el_set(el, EL_HIST, history, NULL);
 		history_end(editline->history);
+		editline->history = NULL;
+	}
 	if (editline->hist_file != NULL) {
 		ec_free(editline->hist_file);
 		editline->hist_file = NULL;
@@ -391,6 +396,8 @@ ec_editline_append_chars(const struct ec_comp *cmpl)
 
 	EC_COMP_FOREACH(item, cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) {
 		append = ec_comp_item_get_completion(item);
+		if (append == NULL)
+			append = "";
 		if (ret == NULL) {
 			ret = ec_strdup(append);
 			if (ret == NULL)
@@ -558,7 +565,7 @@ ec_editline_curline(const struct ec_editline *editline, bool trim_after_cursor)
 	return line;
 
 fail:
-	free(line);
+	ec_free(line);
 	return NULL;
 }
 
@@ -611,6 +618,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get help\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
@@ -648,8 +659,8 @@ ec_editline_complete(EditLine *el, int c)
 			fprintf(err, "completion failure: cannot insert\n");
 			goto fail;
 		}
-		if (ec_comp_count(cmpl, EC_COMP_FULL) +
-			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 1) {
+		if (ec_comp_count(cmpl, EC_COMP_FULL) == 1 &&
+			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 0) {
 			if (el_insertstr(el, " ") < 0) {
 				fprintf(err, "completion failure: cannot insert space\n");
 				goto fail;
@@ -725,7 +736,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
@@ -737,6 +748,7 @@ ec_editline_gets(struct ec_editline *editline)
 	EditLine *el = editline->el;
 	char *line_copy = NULL;
 	const char *line;
+	size_t len;
 	int count;
 
 	line = el_gets(el, &count);
@@ -747,7 +759,10 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	//XXX needed because of sh_lex bug?
+	len = strlen(line_copy);
+	if (len > 0 && line_copy[len - 1] == '\n')
+		line_copy[len - 1] = '\0';
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From 8c7e90af43e9d4dea998e3484071a289c80df170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:17 +0000
Subject: [PATCH 25/39] fix: sh_lex: an item may have no completion

When the full text does not start with what was typed, the item has no
completion: "(null)" was used in place of it.
---
 src/ecoli_node_sh_lex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index fcc0189..126b509 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -127,6 +127,8 @@ ec_node_sh_lex_complete(const struct ec_node *node,
 			new_str = NULL;
 
 			str = ec_comp_item_get_completion(item);
+			if (str == NULL)
+				continue;
 			if (ec_asprintf(&new_str, "%s%c", str,
 					missing_quote) < 0) {
 				new_str = NULL;
-- 
2.43.0


From 81abcea37651137755e60cfb63b8e1fad47a8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:58 +0000
Subject: [PATCH 26/39] fix: node_option/once/bypass: constructors report a
 failure to set the child

---
 src/ecoli_node_bypass.c | 7 +++++--
 src/ecoli_node_once.c   | 7 +++++--
 src/ecoli_node_option.c | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index cdb77bb..c6d15e2 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -174,12 +174,15 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
-	child = NULL;
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index acba83d..a2783b6 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -216,12 +216,15 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
-	child = NULL;
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index 4d61096..68c71ad 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -182,12 +182,15 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
-	child = NULL;
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From 95a69d0f0490aab40b8e7e1c213d840e6a9c3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:17 +0000
Subject: [PATCH 27/39] fix: node_seq/or/subset: don't free a child twice when
 it cannot be added

---
 src/ecoli_node_or.c     | 3 ++-
 src/ecoli_node_seq.c    | 3 ++-
 src/ecoli_node_subset.c | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c33bd49..5bcccb1 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -194,9 +194,10 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 	}
 
 	if (ec_config_list_add(children, ec_config_node(child)) < 0) {
-		child = NULL;
+		child = NULL; /* freed */
 		goto fail;
 	}
+	child = NULL; /* referenced by the configuration */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index d90e5fd..7cc8bf0 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -280,9 +280,10 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 	}
 
 	if (ec_config_list_add(children, ec_config_node(child)) < 0) {
-		child = NULL;
+		child = NULL; /* freed */
 		goto fail;
 	}
+	child = NULL; /* referenced by the configuration */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 553dfbc..da68537 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -368,10 +368,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed on error */
 		}
 	}
 
-- 
2.43.0


From 9f90bd24adba95d8e5dfd46735691d611cb54a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:44 +0000
Subject: [PATCH 28/39] fix: node_re_lex: free the attributes of a token on
 error

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 242d85f..04a98b9 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -113,6 +113,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 fail:
 	ec_free(dup);
+	ec_dict_free(attrs);
 	ec_strvec_free(strvec);
 	return NULL;
 }
-- 
2.43.0


From 77400b221d747afdb361510dfe81ad0e907a7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:54 +0000
Subject: [PATCH 29/39] fix: node_helper: don't free a node twice when it
 cannot be added to the list

---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From 75be074fc5af61566bb350bf70dccb85c75411a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:35 +0000
Subject: [PATCH 30/39] fix: node_expr: report a failure to build the
 expression, keep the previous one

---
 src/ecoli_node_expr.c | 49 +++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index ce06b1e..1dfbdd0 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,21 +101,12 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL, *old_child;
 	unsigned int i;
 
-	/* detach the old child before freeing it: there may be a loop */
-	old_child = priv->child;
-	priv->child = NULL;
-	ec_node_free(old_child);
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
-
+	/* nothing to build until there is a value and an operator */
+	if (priv->val_node == NULL)
+		return 0;
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -210,7 +201,10 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	/* detach the old child before freeing it: there may be a loop */
+	old_child = priv->child;
 	priv->child = expr;
+	ec_node_free(old_child);
 
 	return 0;
 
@@ -300,8 +294,11 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 
 	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = old_val_node;
+		goto fail;
+	}
 	ec_node_free(old_val_node);
-	ec_node_expr_build(priv);
 
 	return 0;
 
@@ -332,7 +329,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -363,7 +363,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -394,7 +397,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -422,17 +428,20 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From 8351e9f65138c208ad97b6872577489803e566d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:39 +0000
Subject: [PATCH 31/39] fix: node_cond: check the allocation of the function
 arguments

---
 src/ecoli_node_cond.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 38a07ae..6ff34bc 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,10 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From 56465847cdcb9fc43a35f17fb259d1d1d904877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:53 +0000
Subject: [PATCH 32/39] fix: editline: report the allocation failures

---
 src/ecoli_editline.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 6a52bdf..7a7646a 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -301,16 +301,21 @@ int ec_editline_set_history(struct ec_editline *editline,
 	size_t hist_size, const char *hist_file)
 {
 	EditLine *el = editline->el;
+	char *file = NULL;
+
+	if (hist_size != 0 && hist_file != NULL) {
+		file = ec_strdup(hist_file);
+		if (file == NULL)
+			return -1;
+	}
 
 	if (editline->history != NULL) {
 		el_set(el, EL_HIST, history, NULL);
 		history_end(editline->history);
 		editline->history = NULL;
 	}
-	if (editline->hist_file != NULL) {
-		ec_free(editline->hist_file);
-		editline->hist_file = NULL;
-	}
+	ec_free(editline->hist_file);
+	editline->hist_file = file;
 
 	if (hist_size == 0)
 		return 0;
@@ -324,9 +329,6 @@ int ec_editline_set_history(struct ec_editline *editline,
 	if (history(editline->history, &editline->histev, H_SETUNIQUE, 1))
 		goto fail;
 	if (hist_file != NULL) {
-		editline->hist_file = ec_strdup(hist_file);
-		if (editline->hist_file == NULL)
-			goto fail;
 		// ignore errors
 		history(editline->history, &editline->histev,
 					H_LOAD, editline->hist_file);
@@ -478,6 +480,8 @@ ec_editline_get_helps(const struct ec_editline *editline, const char *line,
 
 	/* check if the current line matches */
 	parse = ec_parse(editline->node, full_line);
+	if (parse == NULL)
+		goto fail;
 	if (ec_pnode_matches(parse))
 		count = 1;
 	ec_pnode_free(parse);
@@ -611,6 +615,11 @@ ec_editline_complete(EditLine *el, int c)
 		goto fail;
 
 	append = ec_editline_append_chars(cmpl);
+	if (append == NULL &&
+	    ec_comp_count(cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) > 0) {
+		fprintf(err, "completion failure: %s\n", strerror(errno));
+		goto fail;
+	}
 
 	if (c == '?') {
 		struct ec_editline_help *helps = NULL;
@@ -691,7 +700,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	struct ec_pnode *p = NULL;
 	struct ec_comp *c = NULL;
 	ssize_t count = -1;
-	char *line = NULL;
+	char *line = NULL, *copy = NULL;
 	size_t len, i;
 
 	if (editline == NULL || suggestions == NULL) {
@@ -704,8 +713,11 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	if ((line = ec_editline_curline(editline, false)) == NULL)
 		goto out;
 
-	if (full_line != NULL)
-		*full_line = ec_strdup(line);
+	if (full_line != NULL) {
+		*full_line = NULL;
+		if ((copy = ec_strdup(line)) == NULL)
+			goto out;
+	}
 
 	len = strlen(line);
 	for (i = 0; i <= len + 1; i++) {
@@ -736,6 +748,10 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
+	if (count >= 0 && full_line != NULL)
+		*full_line = copy;
+	else
+		ec_free(copy);
 	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
-- 
2.43.0


From 2038acaa1cedf183d90570cf854199316f7a20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:23 +0000
Subject: [PATCH 33/39] fix: complete: don't count an item that could not be
 added

---
 src/ecoli_complete.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 1016a92..f723b55 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -384,17 +384,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		return -1;
 	}
 
-	switch (item->type) {
-	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
-	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
-	case EC_COMP_PARTIAL:
-		comp->count_partial++;
-		break;
-	default:
+	if (item->type != EC_COMP_UNKNOWN && item->type != EC_COMP_FULL &&
+			item->type != EC_COMP_PARTIAL) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -409,6 +400,18 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	switch (item->type) {
+	case EC_COMP_UNKNOWN:
+		comp->count_unknown++;
+		break;
+	case EC_COMP_FULL:
+		comp->count_full++;
+		break;
+	default:
+		comp->count_partial++;
+		break;
+	}
+
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 1a940689a404d3f045c006c28e4d3b6558ce35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:12 +0000
Subject: [PATCH 34/39] fix: node: ec_node_dump() stops when memory is
 exhausted

---
 src/ecoli_node.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index dbd7fbb..416c202 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -386,7 +386,7 @@ const char *ec_node_id(const struct ec_node *node)
 	return node->id;
 }
 
-static void __ec_node_dump(FILE *out,
+static int __ec_node_dump(FILE *out,
 	const struct ec_node *node, size_t indent, struct ec_dict *dict)
 {
 	const char *id, *typename;
@@ -399,6 +399,8 @@ static void __ec_node_dump(FILE *out,
 
 	id = ec_node_id(node);
 	desc = ec_node_desc(node);
+	if (desc == NULL)
+		return -1;
 	typename = node->type->name;
 
 	snprintf(buf, sizeof(buf), "%p", node);
@@ -409,7 +411,9 @@ static void __ec_node_dump(FILE *out,
 		goto end;
 	}
 
-	ec_dict_set(dict, buf, NULL, NULL);
+	/* without this mark, a loop would be followed forever */
+	if (ec_dict_set(dict, buf, NULL, NULL) < 0)
+		goto fail;
 	fprintf(out, "%*s" "%s type=%s id=%s %p refs=%u free_state=%d free_refs=%d\n",
 		(int)indent * 4, "", desc, typename, id, node, node->refcnt,
 		node->free.state, node->free.refcnt);
@@ -418,10 +422,16 @@ static void __ec_node_dump(FILE *out,
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		__ec_node_dump(out, child, indent + 1, dict);
+		if (__ec_node_dump(out, child, indent + 1, dict) < 0)
+			goto fail;
 	}
 end:
 	ec_free(desc);
+	return 0;
+
+fail:
+	ec_free(desc);
+	return -1;
 }
 
 /* XXX this is too much debug-oriented, we should have a parameter or 2 funcs */
@@ -440,7 +450,8 @@ void ec_node_dump(FILE *out, const struct ec_node *node)
 	if (dict == NULL)
 		goto fail;
 
-	__ec_node_dump(out, node, 0, dict);
+	if (__ec_node_dump(out, node, 0, dict) < 0)
+		goto fail;
 
 	ec_dict_free(dict);
 	return;
-- 
2.43.0


From 8a64851f79535eb49a536fa7bd92700aeb2f619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 35/39] fix: log: don't mix allocators when registering a log
 type

---
 src/ecoli_log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_log.c b/src/ecoli_log.c
index c01e65a..4936aa4 100644
--- a/src/ecoli_log.c
+++ b/src/ecoli_log.c
@@ -93,14 +93,17 @@ ec_log_type_register(const char *name)
 	if (id >= 0)
 		return id;
 
+	/* This is called from constructors, before ec_malloc_register(): don't
+	 * use ec_realloc() and ec_strdup(), which could then be given to
+	 * another allocator. */
 	// XXX not that good to allocate in constructor
-	new_types = ec_realloc(log_types,
+	new_types = realloc(log_types,
 		sizeof(*new_types) * (log_types_len + 1));
 	if (new_types == NULL)
 		return -1; /* errno is set */
 	log_types = new_types;
 
-	copy = ec_strdup(name);
+	copy = strdup(name);
 	if (copy == NULL)
 		return -1; /* errno is set */
 
-- 
2.43.0


From 5fa1d95e434c2b4fdbf808db4ebc06fd572694e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 36/39] fix: malloc: ec_realloc_func() returns the new memory
 area

---
 include/ecoli_malloc.h | 2 +-
 src/ecoli_malloc.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ecoli_malloc.h b/include/ecoli_malloc.h
index 7b94e5b..f9ae3ea 100644
--- a/include/ecoli_malloc.h
+++ b/include/ecoli_malloc.h
@@ -182,7 +182,7 @@ void ec_free_func(void *ptr);
  * Use this function when the macro ec_realloc() cannot be used,
  * for instance when it is passed as a callback pointer.
  */
-void ec_realloc_func(void *ptr, size_t size);
+void *ec_realloc_func(void *ptr, size_t size);
 
 /**
  * Allocate and initialize an array of elements.
diff --git a/src/ecoli_malloc.c b/src/ecoli_malloc.c
index 8b1c68e..da77e78 100644
--- a/src/ecoli_malloc.c
+++ b/src/ecoli_malloc.c
@@ -83,9 +83,9 @@ void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
 	return ec_malloc_handler.realloc(ptr, size, file, line);
 }
 
-void ec_realloc_func(void *ptr, size_t size)
+void *ec_realloc_func(void *ptr, size_t size)
 {
-	ec_realloc(ptr, size);
+	return ec_realloc(ptr, size);
 }
 
 char *__ec_strdup(const char *s, const char *file, unsigned int line)
-- 
2.43.0


From 2a542fa41d99f4baf85bb63a1b0e1e17266f6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 37/39] fix: node: a type registered twice corrupts the list

---
 src/ecoli_node.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 416c202..171b3fa 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -69,11 +69,21 @@ ec_node_type_lookup(const char *name)
 
 int ec_node_type_register(struct ec_node_type *type, bool override)
 {
+	struct ec_node_type *cur;
+
 	if (!override && ec_node_type_lookup(type->name) != NULL) {
 		errno = EEXIST;
 		return -1;
 	}
 
+	/* the same structure cannot be twice in the list */
+	TAILQ_FOREACH(cur, &node_type_list, next) {
+		if (cur == type) {
+			TAILQ_REMOVE(&node_type_list, type, next);
+			break;
+		}
+	}
+
 	TAILQ_INSERT_HEAD(&node_type_list, type, next);
 
 	return 0;
-- 
2.43.0


From 19fa354552550dc60e601f8ff2f9ce85d447562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:52 +0000
Subject: [PATCH 38/39] fix: libshell: iteration stops at the first node
 without identifier

An anonymous node has an empty identifier: use the number of strings, which
every node has, to know if the next node exists.
---
 libshell/libecoli.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libshell/libecoli.sh b/libshell/libecoli.sh
index 8e14a1e..7cd3c9d 100644
--- a/libshell/libecoli.sh
+++ b/libshell/libecoli.sh
@@ -34,7 +34,7 @@ ec_pnode_iter_next()
 	local seq=${1#ec_node}
 	seq=$((seq+1))
 	local next=ec_node${seq}
-	if [ "$(ec_pnode_get_id $next)" != "" ]; then
+	if [ "$(ec_pnode_get_strvec_len $next)" != "" ]; then
 		ec_echo $next
 	fi
 }
-- 
2.43.0


From e0aa7e7f30efa1214dac6d56a184855a1a9e4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:14 +0000
Subject: [PATCH 39/39] fix: libshell: strings with blanks or wildcards are
 altered

The strings and identifiers of the parse tree were subject to word splitting
and pathname expansion.
---
 libshell/libecoli.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libshell/libecoli.sh b/libshell/libecoli.sh
index 7cd3c9d..d45dc3b 100644
--- a/libshell/libecoli.sh
+++ b/libshell/libecoli.sh
@@ -43,7 +43,7 @@ ec_pnode_iter_next()
 ec_pnode_get_id()
 {
 	local id=${1}_id
-	ec_echo $(eval 'ec_echo ${'$id'}')
+	ec_echo "$(eval 'ec_echo "${'$id'}"')"
 }
 
 # $1: node sequence number (ex: ec_node4)
@@ -61,7 +61,7 @@ ec_pnode_get_str()
 		return
 	fi
 	local str=${1}_str${2}
-	ec_echo $(eval 'ec_echo ${'$str'}')
+	ec_echo "$(eval 'ec_echo "${'$str'}"')"
 }
 
 # $1: node sequence number (ex: ec_node4)
-- 
2.43.0

