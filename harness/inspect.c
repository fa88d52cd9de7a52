/* C22: what a grammar, a parse tree or a container says about itself. */
#include <ecoli.h>
#include "gram_space.h"

static void begin_grammar(struct gram *gr) { (void)gr; }
static struct mc_buf b1, b2, b3;

static const char *g_type(const struct g *g)
{
	static const char *const t[] = { [G_STR] = "str", [G_ANY] = "any", [G_EMPTY] = "empty", [G_NONE] = "none", [G_SPACE] = "space", [G_INT] = "int",
		[G_ROOT] = "bypass", [G_OPTION] = "option", [G_MANY] = "many", [G_ONCE] = "once", [G_BYPASS] = "bypass", [G_COND] = "cond",
		[G_SEQ] = "seq", [G_OR] = "or", [G_SUBSET] = "subset", [G_DYN] = "dynamic" };
	return t[g->k];
}
static void g_desc(struct mc_buf *b, const struct g *g)
{
	if (g->k == G_STR) mc_buf_add(b, "%s", g->s);
	else mc_buf_add(b, "<%s>", g_type(g));
}
static struct g *reach[1200];
static int nreach;
static int seen(const struct g *g) { for (int i = 0; i < nreach; i++) if (reach[i] == g) return 1; return 0; }
/* depth-first search: the nodes in the order they are first met */
static void dfs(struct g *g)
{
	if (seen(g)) return;
	reach[nreach++] = g;
	for (int i = 0; i < g->n; i++) dfs(g->ch[i]);
}
static void ref_dump(struct mc_buf *b, struct g *g, int ind)
{
	int again = seen(g);
	mc_buf_add(b, "%*s", ind * 4, "");
	g_desc(b, g);
	mc_buf_add(b, " type=%s id=%s%s\n", g_type(g), gram_id(g), again ? " again" : "");
	if (again) return;
	reach[nreach++] = g;
	for (int i = 0; i < g->n; i++) ref_dump(b, g->ch[i], ind + 1);
}
static char *dump_node(struct ec_node *n)
{
	char *t = NULL;
	size_t len = 0;
	FILE *f = open_memstream(&t, &len);
	ec_node_dump(f, n);
	fclose(f);
	return t;
}
/* the lines of a dump up to the identifier, without the header */
static void dump_lines(struct mc_buf *b, const char *t)
{
	const char *l = strchr(t, '\n');
	for (l = l ? l + 1 : ""; *l;) {
		int n = strcspn(l, "\n");
		const char *id = strstr(l, " id="), *e;
		MC_CHECK(id != NULL && id < l + n, "dump-line", "line without identifier in the dump:\n%s", t);
		e = id + 4;
		e += strcspn(e, " \n");
		mc_buf_add(b, "%.*s%s\n", (int)(e - l), l, memmem(l, n, "(loop)", 6) ? " again" : "");
		l += n + (l[n] != 0);
	}
}
static void check_nodes(struct gram *gr, int ids)
{
	char *t1, *t2;
	struct g *all[1200];
	int n, i, j;

	nreach = 0;
	dfs(gr->root);
	n = nreach;
	memcpy(all, reach, n * sizeof(all[0]));
	t1 = dump_node(gr->node);
	mc_trans(1);
	for (i = 0; i < n; i++) {
		struct g *g = all[i];
		char *d;
		MC_CHECK(!strcmp(ec_node_id(g->node), gram_id(g)), "id", "identifier %s instead of %s", ec_node_id(g->node), gram_id(g));
		MC_CHECK(!strcmp(ec_node_get_type_name(g->node), g_type(g)) && !strcmp(ec_node_type_name(ec_node_type(g->node)), g_type(g)), "type", "node %d: type %s instead of %s", g->num, ec_node_get_type_name(g->node), g_type(g));
		d = ec_node_desc(g->node);
		mc_buf_reset(&b1);
		mc_buf_add(&b1, "%s", "");
		g_desc(&b1, g);
		MC_CHECK(d != NULL && !strcmp(d, b1.s), "desc", "node %d: description %s instead of %s", g->num, d ? d : "(null)", b1.s);
		ec_free(d);
		MC_CHECK(ec_node_get_children_count(g->node) == (size_t)g->n, "children", "node %d (%s): %zu children instead of %d", g->num, g_type(g), ec_node_get_children_count(g->node), g->n);
		for (j = 0; j < g->n; j++) {
			struct ec_node *c = NULL;
			unsigned refs = 0;
			MC_CHECK(ec_node_get_child(g->node, j, &c, &refs) == 0 && c == g->ch[j]->node, "child", "node %d: wrong child %d", g->num, j);
			MC_CHECK(refs > 0, "child-refs", "node %d: child %d is held by no reference", g->num, j);
		}
		mc_trans(4 + g->n);
	}
	/* search from every node, every identifier in use and two others */
	for (i = 0; i < n; i++) {
		if (n > 70 && i > 2 && i != n - 1) continue;
		nreach = 0;
		dfs(all[i]);
		for (j = 0; j < n; j++) {
			struct ec_node *exp = NULL, *got;
			const char *want = gram_id(all[j]);
			char *w;
			if (!*want || (n > 70 && j > 2 && j < n - 2)) continue;
			w = strdup(want);
			for (int k = 0; k < nreach && !exp; k++) if (!strcmp(gram_id(reach[k]), w)) exp = reach[k]->node;
			got = ec_node_find(all[i]->node, w);
			mc_trans(1);
			MC_CHECK(got == exp, "find", "search of <%s> from node %d: %s", w, all[i]->num, got == NULL ? "nothing found" : exp == NULL ? "a node was found" : "the wrong node is found");
			free(w);
		}
		MC_CHECK(ec_node_find(all[i]->node, "n") == NULL && ec_node_find(all[i]->node, "zz") == NULL, "find-none", "an unknown identifier is found");
	}
	/* dump from every node */
	for (i = 0; i < n; i++) {
		if (n > 70 && i > 1) break;
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		nreach = 0;
		ref_dump(&b1, all[i], 0);
		t2 = dump_node(all[i]->node);
		mc_trans(1);
		dump_lines(&b2, t2);
		MC_CHECK(!strcmp(b1.s, b2.s), "dump", "dump of node %d:\n%s\nexpected:\n%s", all[i]->num, t2, b1.s);
		free(t2);
	}
	/* nothing changed */
	t2 = dump_node(gr->node);
	MC_CHECK(!strcmp(t1, t2), "changed", "the grammar changes when it is inspected:\n%s\n%s", t1, t2);
	free(t1); free(t2);
	mc_state(mc_hs(mc_hu(MC_H0, ids), b1.s));
	mc_outcome(mc_hu(mc_hu(MC_H0, n), ids));
	if (n > 1) mc_nontrivial();
}
/* ---- parse trees -------------------------------------------------------------- */
static void vec_dump(struct mc_buf *b, const struct ec_strvec *v)
{
	if (v == NULL) { mc_buf_add(b, "none\n"); return; }
	mc_buf_add(b, "strvec (len=%zu) [", ec_strvec_len(v));
	for (size_t i = 0; i < ec_strvec_len(v); i++) mc_buf_add(b, "%s%s", i ? ", " : "", ec_strvec_val(v, i));
	mc_buf_add(b, "]\n");
}
static void ref_pdump(struct mc_buf *b, struct gram *gr, const struct ec_pnode *p, int ind)
{
	const struct ec_pnode *c;
	int num = gram_num(gr, ec_pnode_get_node(p));
	struct g *g;
	for (g = gr->all; g->num != num; g = g->all_next) ;
	mc_buf_add(b, "%*s", ind * 4, "");
	g_desc(b, g);
	mc_buf_add(b, " type=%s id=%s vec=", g_type(g), gram_id(g));
	vec_dump(b, ec_pnode_get_strvec(p));
	for (c = ec_pnode_get_first_child(p); c; c = ec_pnode_next(c)) ref_pdump(b, gr, c, ind + 1);
}
static void check_pdump(struct gram *gr, const struct ec_pnode *p, const char *what)
{
	char *t = NULL, *l;
	size_t len = 0;
	FILE *f = open_memstream(&t, &len);
	ec_pnode_dump(f, p);
	fclose(f);
	mc_trans(1);
	mc_buf_reset(&b1);
	if (!ec_pnode_matches(p) && ec_pnode_get_first_child(p) == NULL) mc_buf_add(&b1, "no match\n");
	else ref_pdump(&b1, gr, p, 0);
	l = strchr(t, '\n');
	MC_CHECK(l != NULL && !strcmp(l + 1, b1.s), "pdump", "dump of %s:\n%s\nexpected:\n%s", what, t, b1.s);
	free(t);
}
static uint64_t hset[1 << 18];
static int fresh(uint64_t h)
{
	size_t i = h & (sizeof(hset) / sizeof(hset[0]) - 1);
	if (hset[i] == h) return 0;
	hset[i] = h;
	return 1;
}
static struct gram *last_gr;
static void check_input(struct gram *gr, const char *const *tok, int n)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	const struct ec_pnode *q;
	struct ec_comp *c;
	struct ec_comp_item *it;

	if (n == 0 || last_gr != gr) { case_desc(gr, tok, n); check_nodes(gr, 0); last_gr = gr; }
	if (n > 2 && gr->count < 60) return;
	if (ref_parse(gr, tok, n, NULL) != R_DIVERGE) {
		case_desc(gr, tok, n);
		v = mk_strvec(tok, n);
		p = ec_parse_strvec(gr->node, v);
		ec_strvec_free(v);
		MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
		mc_buf_reset(&b3);
		pnode_text(&b3, gr, p);
		if (fresh(mc_hu(mc_hs(MC_H0, b3.s), gr->count)) || mc_verbose)
			for (q = p; q; q = EC_PNODE_ITER_NEXT(p, q, 1)) check_pdump(gr, q, "a parse tree");
		mc_buf_reset(&b2);
		pnode_text(&b2, gr, p);
		MC_CHECK(!strcmp(b2.s, b3.s), "changed", "the tree changes when it is dumped");
		ec_pnode_free(p);
	}
	{
		struct rcomp rc;
		int r;
		if (n == 0 || gr->count > 60) return;
		r = ref_complete(gr, tok, n, &rc);
		rcomp_free(&rc);
		if (r == R_DIVERGE) return;
	}
	v = mk_strvec(tok, n);
	c = ec_complete_strvec(gr->node, v);
	ec_strvec_free(v);
	MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		p = EC_PNODE_GET_ROOT(ec_comp_group_get_pstate(ec_comp_item_get_grp(it)));
		mc_buf_reset(&b3);
		pnode_text(&b3, gr, p);
		if (fresh(mc_hu(mc_hs(MC_H0 + 1, b3.s), gr->count)) || mc_verbose) check_pdump(gr, p, "a partial parse tree");
	}
	ec_comp_free(c);
}
/* ---- the same identifier for several nodes --------------------------------------- */
static const char *const id_words[] = { "x", "y", "", "xy" };
static int nid = 4;
static void ids_grammar(const struct ast *a)
{
	struct gram gr;
	const char *id[8];
	int k[8] = { 0 }, n, i;

	if (only_rec && !a->has_root) return;
	if (gram_build(&gr, a, 0) < 0) mc_bug("build");
	n = gr.count;
	gram_free(&gr);
	if (n > 8) mc_bug("ids");
	for (;;) {
		if (mc_next()) {
			for (i = 0; i < n; i++) id[i] = id_words[k[i]];
			mc_buf_reset(&db);
			ast_text(&db, a);
			mc_buf_add(&db, " ids");
			for (i = 0; i < n; i++) mc_buf_add(&db, " <%s>", id[i]);
			mc_desc("grammar %s", db.s);
			gram_ids = id;
			if (gram_build(&gr, a, 0) < 0) mc_fail("build", "cannot build the grammar");
			check_nodes(&gr, 1);
			gram_free(&gr);
			gram_ids = NULL;
			mc_end();
		}
		for (i = n - 1; i >= 0 && ++k[i] == nid; i--) k[i] = 0;
		if (i < 0) break;
	}
}
/* ---- identifiers and texts of any length and content -------------------------------- */
static void one_id(const char *s, int len)
{
	char *id = strdup(s), *d, *t;
	struct ec_node *n, *m, *p;
	n = ec_node_str(id, id);
	m = ec_node("any", id);
	MC_CHECK(n != NULL && m != NULL, "node", "cannot build a node");
	memset(id, '#', len);                       /* the library keeps a copy */
	MC_CHECK(!strcmp(ec_node_id(n), s) && !strcmp(ec_node_id(m), s), "id", "the identifier of %d bytes is not kept", len);
	d = ec_node_desc(n);
	MC_CHECK(d != NULL && !strcmp(d, s), "desc", "the description of a string of %d bytes is wrong", len);
	ec_free(d);
	p = EC_NODE_SEQ("top", m, n);
	MC_CHECK(p != NULL, "node", "cannot build a node");
	memcpy(id, s, len);
	if (len) {
		MC_CHECK(ec_node_find(p, id) == (strcmp(s, "top") ? m : p), "find", "the identifier of %d bytes is not found", len);
		id[len - 1] ^= 1;
		if (id[len - 1] && strcmp(id, "top")) MC_CHECK(ec_node_find(p, id) == NULL, "find", "an identifier that differs in the last byte is found");
		id[len - 1] = 0;
		if (len > 1) MC_CHECK(ec_node_find(p, id) == NULL, "find", "a prefix of an identifier is found");
	}
	t = dump_node(p);
	MC_CHECK(strstr(t, s) != NULL, "dump", "the identifier is not in the dump");
	free(t);
	free(id);
	ec_node_free(p);
	mc_trans(6);
}
static void ids_scale(void)
{
	for (int n = 0; n <= 4200; n = n < 300 ? n + 1 : n + 389) {
		char *s;
		if (!mc_next()) continue;
		mc_desc("identifier of %d bytes", n);
		s = malloc(n + 1);
		for (int i = 0; i < n; i++) s[i] = 'a' + i % 26;
		s[n] = 0;
		one_id(s, n);
		free(s);
		mc_state(mc_hu(MC_H0 + 5, n)); mc_nontrivial();
		mc_end();
	}
	for (int a = 1; a < 256; a++) {
		char s[3] = { a, 0, 0 };
		if (!mc_next()) continue;
		mc_desc("identifiers with byte %d", a);
		one_id(s, 1);
		for (int b = 1; b < 256; b += 3) { s[1] = b; one_id(s, 2); }
		mc_state(mc_hu(MC_H0 + 6, a)); mc_nontrivial();
		mc_end();
	}
	if (mc_next()) {
		mc_desc("nodes without identifier");
		errno = 0;
		MC_CHECK(ec_node("any", NULL) == NULL && errno == EINVAL, "null-id", "a node without identifier is accepted");
		MC_CHECK(ec_node_str(NULL, "a") == NULL, "null-id", "a node without identifier is accepted");
		mc_end();
	}
}
/* ---- every node type ------------------------------------------------------------------ */
static struct ec_node *S(const char *id) { return ec_node_str(id, id); }
static struct ec_node *dcb(struct ec_pnode *p, void *o) { (void)p; (void)o; return S("x"); }
static void types(void)
{
	struct { const char *type; struct ec_node *n; const char *desc, *kids; } t[32];
	int k = 0, i, j;
	if (!mc_next()) return;
	mc_desc("every node type");
#define T(ty, node, d, c) do { t[k].type = ty; t[k].n = node; t[k].desc = d; t[k++].kids = c; } while (0)
	struct ec_node *rl = ec_node_re_lex("id", S("p")), *su = ec_node("subset", "id"), *ex = ec_node("expr", "id");
	MC_CHECK(rl && su && ex, "node", "cannot build");
	ec_node_re_lex_add(rl, "a", 1, NULL);
	ec_node_subset_add(su, S("p")); ec_node_subset_add(su, S("q"));
	ec_node_expr_set_val_node(ex, S("p")); ec_node_expr_add_bin_op(ex, S("q"));
	T("str", ec_node_str("id", "some text"), "some text", "");
	T("str", ec_node_str("id", ""), "", "");
	T("any", ec_node_any("id", NULL), "<any>", "");
	T("any", ec_node_any("id", "at"), "<any>", "");
	T("empty", ec_node("empty", "id"), "<empty>", "");
	T("none", ec_node("none", "id"), "<none>", "");
	T("space", ec_node("space", "id"), "<space>", "");
	T("file", ec_node("file", "id"), "<file>", "");
	T("int", ec_node_int("id", 1, 2, 10), "<int>", "");
	T("uint", ec_node_uint("id", 1, 2, 10), "<uint>", "");
	T("re", ec_node_re("id", "a"), "<re>", "");
	T("re_lex", rl, "<re_lex>", "p");
	T("sh_lex", ec_node_sh_lex("id", S("p")), "<sh_lex>", "p");
	T("option", ec_node_option("id", S("p")), "<option>", "p");
	T("many", ec_node_many("id", S("p"), 0, 0), "<many>", "p");
	T("once", ec_node_once("id", S("p")), "<once>", "p");
	T("bypass", ec_node_bypass("id", S("p")), "<bypass>", "p");
	T("cond", ec_node_cond("id", "1", S("p")), "<cond>", "p");
	T("seq", EC_NODE_SEQ("id", S("p"), S("q")), "<seq>", "pq");
	T("or", EC_NODE_OR("id", S("p"), S("q")), "<or>", "pq");
	T("subset", su, "<subset>", "pq");
	T("dynamic", ec_node_dynamic("id", dcb, NULL), "<dynamic>", "");
	T("cmd", EC_NODE_CMD("id", "p q", S("p"), S("q")), "<cmd>", NULL);
	T("expr", ex, "<expr>", NULL);
	T("seq", ec_node("seq", "id"), "<seq>", "");
	T("many", ec_node("many", "id"), "<many>", "");
	T("bypass", ec_node("bypass", "id"), "<bypass>", "");
	T("str", ec_node("str", "id"), NULL, "");
	for (i = 0; i < k; i++) {
		struct ec_node *n = t[i].n;
		char *d;
		MC_CHECK(n != NULL, "node", "cannot build a %s node", t[i].type);
		MC_CHECK(!strcmp(ec_node_id(n), "id") && !strcmp(ec_node_get_type_name(n), t[i].type), "type", "a %s node is %s", t[i].type, ec_node_get_type_name(n));
		MC_CHECK(ec_node_type(n) == ec_node_type_lookup(t[i].type), "type", "type of a %s node", t[i].type);
		if (t[i].desc) {
			d = ec_node_desc(n);
			MC_CHECK(d != NULL && !strcmp(d, t[i].desc), "desc", "description of a %s node: %s", t[i].type, d ? d : "(null)");
			ec_free(d);
		}
		MC_CHECK(ec_node_find(n, "id") == n && ec_node_find(n, "zz") == NULL, "find", "search in a %s node", t[i].type);
		if (t[i].kids) {
			MC_CHECK(ec_node_get_children_count(n) == strlen(t[i].kids), "children", "a %s node has %zu children", t[i].type, ec_node_get_children_count(n));
			for (j = 0; t[i].kids[j]; j++) {
				struct ec_node *c = NULL;
				unsigned r;
				char w[2] = { t[i].kids[j], 0 };
				MC_CHECK(ec_node_get_child(n, j, &c, &r) == 0 && c != NULL && !strcmp(ec_node_id(c), w), "child", "child %d of a %s node", j, t[i].type);
				MC_CHECK(ec_node_find(n, w) == c, "find", "child %s of a %s node is not found", w, t[i].type);
			}
		} else {
			MC_CHECK(ec_node_find(n, "p") && !strcmp(ec_node_get_type_name(ec_node_find(n, "p")), "str") &&
				ec_node_find(n, "q") && !strcmp(ec_node_get_type_name(ec_node_find(n, "q")), "str"), "find", "the nodes given to a %s node are not found", t[i].type);
		}
		if (strcmp(t[i].type, "str") || t[i].desc) {
			d = dump_node(n);
			MC_CHECK(strstr(d, " id=id ") != NULL, "dump", "dump of a %s node: %s", t[i].type, d);
			if (t[i].kids && t[i].kids[0]) MC_CHECK(strstr(d, " id=p ") != NULL, "dump", "dump of a %s node: %s", t[i].type, d);
			free(d);
		}
		ec_node_free(n);
		mc_trans(6);
	}
	{
		char *d = dump_node(NULL);
		MC_CHECK(strstr(d, "NULL") != NULL, "dump", "dump of NULL");
		free(d);
	}
	mc_nontrivial();
	mc_end();
}
/* ---- containers -------------------------------------------------------------------------- */
static void containers(int max)
{
	static const char *const w[] = { "a", "b c", "", "%s%n", "\xe9", "a, b" };
	int idx[8], n, i;
	for (n = 0; n <= max; n++) {
		memset(idx, 0, sizeof(idx));
		for (;;) {
			if (mc_next()) {
				struct ec_strvec *v = ec_strvec();
				struct ec_dict *d = ec_dict();
				struct ec_htable *h = ec_htable();
				char *t = NULL;
				size_t len = 0;
				FILE *f;
				mc_buf_reset(&b1); mc_buf_reset(&db);
				for (i = 0; i < n; i++) {
					ec_strvec_add(v, w[idx[i]]);
					ec_dict_set(d, w[idx[i]], i & 1 ? NULL : &idx[i], NULL);
					ec_htable_set(h, w[idx[i]], strlen(w[idx[i]]) + 1, NULL, NULL);
					mc_buf_add(&db, " \"%s\"", w[idx[i]]);
				}
				mc_desc("dump of%s", n ? db.s : " nothing");
				vec_dump(&b1, v);
				mc_buf_add(&b1, "dict:\n");
				{
					int cnt = 0;
					for (i = 0; i < n; i++) {
						int j;
						for (j = i + 1; j < n && idx[j] != idx[i]; j++) ;
						if (j < n) continue;
						cnt++;
						mc_buf_add(&b1, "  %s: %p\n", w[idx[i]], i & 1 ? NULL : (void *)&idx[i]);
					}
					mc_buf_add(&b1, "htable: %d elements\n", cnt);
				}
				f = open_memstream(&t, &len);
				ec_strvec_dump(f, v);
				ec_dict_dump(f, d);
				ec_htable_dump(f, h);
				fclose(f);
				mc_trans(3);
				MC_CHECK(!strcmp(t, b1.s), "container", "the dump is\n%s\ninstead of\n%s", t, b1.s);
				free(t);
				ec_strvec_free(v); ec_dict_free(d); ec_htable_free(h);
				mc_state(mc_hs(MC_H0 + 7, b1.s)); mc_outcome(mc_hu(MC_H0 + 7, n));
				mc_nontrivial();
				mc_end();
			}
			for (i = n - 1; i >= 0 && ++idx[i] == 6; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	if (mc_next()) {
		char *t = NULL;
		size_t len = 0;
		FILE *f = open_memstream(&t, &len);
		mc_desc("dump of NULL");
		ec_strvec_dump(f, NULL); ec_dict_dump(f, NULL); ec_htable_dump(f, NULL); ec_comp_dump(f, NULL); ec_pnode_dump(f, NULL);
		fclose(f);
		MC_CHECK(len > 0, "null", "nothing is written");
		free(t);
		mc_end();
	}
}
void mc_run(void)
{
	int i, th = mc_thorough;
	types();
	containers(th ? 5 : 4);
	ids_scale();
	for (i = 1; i <= (th ? 5 : 4); i++) { nid = i == 5 ? 2 : 4; ast_enum(&al_small, i, ids_grammar); }
	only_rec = 1;
	for (i = 1; i <= (th ? 5 : 4); i++) { nid = i == 5 ? 2 : 4; ast_enum(&al_rec, i, ids_grammar); }
	only_rec = 0;
	if (th) enum_space(4, 5, 5, 2, 40, 300, 2);
	else enum_space(3, 4, 4, 2, 20, 129, 2);
}
