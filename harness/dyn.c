/* C16 (dynamic nodes): the node built during the parse or the completion, possibly depending on the partial parse
 * tree, behaves like the node it returns; results outlive the call; nested calls do not disturb the outer one. */
#include <ecoli.h>
#include "gram.h"

static const struct ast leafs[] = { { .k = G_STR, .s = "a" }, { .k = G_STR, .s = "ab" }, { .k = G_EMPTY }, { .k = G_SHARED } };
static const struct ast unary_f[] = { { .k = G_OPTION }, { .k = G_MANY, .min = 1 }, { .k = G_MANY, .max = 2 } };
static const struct ast unary_o[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_ONCE } };
static const enum gk nary_d[] = { G_DYN, G_SEQ, G_OR, G_SUBSET };
static const enum gk nary_e[] = { G_DYN, G_SEQ };
static const struct ast leafs_r[] = { { .k = G_STR, .s = "a" }, { .k = G_ROOT }, { .k = G_EMPTY } };
static const struct alphabet al_f = { leafs, 3, unary_f, 3, nary_d, 4, 2 };
static const struct alphabet al_o = { leafs, 4, unary_o, 3, nary_d, 4, 2 };
static const struct alphabet al_r = { leafs_r, 3, unary_o, 2, nary_d, 4, 2 };
static const struct alphabet al_s = { leafs, 2, unary_f, 2, nary_e, 2, 3 };

static struct mc_buf db, b1, b2;
static int fail_mode, only_rec;

static int has_dyn(const struct ast *a)
{
	if (a->k == G_DYN) return a->n > 0;
	for (int i = 0; i < a->n; i++) if (has_dyn(a->ch[i])) return 1;
	return 0;
}
static int empty_dyn(const struct ast *a)
{
	if (a->k == G_DYN && a->n == 0) return 1;
	for (int i = 0; i < a->n; i++) if (empty_dyn(a->ch[i])) return 1;
	return 0;
}
static int choose(struct g *g, uint64_t h)
{
	if (fail_mode && h % 5 == 0) return -1;
	return (h >> 8) % g->n;
}
/* nested calls, while the outer one is running */
static int nesting;
static const char *const nest_tok[] = { "a", "ab" };
static void nested(struct gram *gr)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct ec_comp *c;
	if (nesting) return;
	nesting = 1;
	v = mk_strvec(nest_tok, 2);
	p = ec_parse_strvec(gr->node, v);
	if (p == NULL && !fail_mode) mc_fail("nested", "a parse in the callback fails");
	c = ec_complete_strvec(gr->node, v);
	if (c == NULL && !fail_mode) mc_fail("nested", "a completion in the callback fails");
	ec_pnode_free(p);
	ec_comp_free(c);
	ec_strvec_free(v);
	nesting = 0;
}
static void comp_text(struct mc_buf *b, struct gram *gr, struct ec_comp *c)
{
	struct ec_comp_item *it;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const struct ec_comp_group *grp = ec_comp_item_get_grp(it);
		const struct ec_pnode *p = ec_comp_group_get_pstate(grp);
		const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it);
		mc_buf_add(b, "%c n%d n%d %s %s ", ec_comp_item_get_type(it) == EC_COMP_FULL ? 'F' : 'U', gram_num(gr, ec_comp_item_get_node(it)),
			gram_num(gr, ec_comp_group_get_node(grp)), s ? s : "?", cm ? cm : "?");
		pnode_text(b, gr, EC_PNODE_GET_ROOT(p));
		mc_buf_add(b, " @");
		for (; p; p = ec_pnode_get_parent(p)) mc_buf_add(b, "n%d<", gram_num(gr, ec_pnode_get_node(p)));
		mc_buf_add(b, "\n");
	}
}
static void check_input(struct gram *gr, const char *const *tok, int n)
{
	struct ec_strvec *v;
	struct ec_pnode *p, *d = NULL;
	struct ec_comp *c, *c2;
	struct rcomp rc;
	struct rt *rt;
	int r, q, i;
	char *keep;

	r = ref_parse(gr, tok, n, &rt);
	if (r == R_DIVERGE && !r_error) { rt_free(rt); return; }
	mc_buf_reset(&b1);
	tok_text(&b1, tok, n);
	mc_desc("grammar %s%s%s%s input %s", db.s, gram_dyn_fresh ? " (new nodes)" : "", gram_dyn_enter ? " (nested calls)" : "",
		fail_mode ? " (failing callbacks)" : "", b1.s);
	v = mk_strvec(tok, n);
	errno = 0;
	p = ec_parse_strvec(gr->node, v);
	mc_trans(1);
	if (r == R_DIVERGE) {
		MC_CHECK(p == NULL && errno == ECHILD, "cb-fail", "the callback fails, but parsing gives %s, errno %d", p ? "a tree" : "NULL", errno);
	} else {
		MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		rt_text(&b1, rt);
		pnode_text(&b2, gr, p);
		MC_CHECK(!strcmp(b1.s, b2.s), "tree", "parse tree %s instead of %s", b2.s, b1.s);
		/* a copy stays valid after the original is freed */
		d = ec_pnode_dup(p);
		MC_CHECK(d != NULL, "dup", "ec_pnode_dup() fails");
		ec_pnode_free(p);
		mc_buf_reset(&b2);
		pnode_text(&b2, gr, d);
		MC_CHECK(!strcmp(b1.s, b2.s), "dup", "the copy is %s instead of %s", b2.s, b1.s);
		mc_outcome(mc_hs(MC_H0, b1.s));
		if (rt->first) mc_nontrivial();
	}
	keep = d ? strdup(b1.s) : NULL;
	rt_free(rt);
	q = ref_complete(gr, tok, n, &rc);
	if (q != R_DIVERGE || r_error) {
		errno = 0;
		c = ec_complete_strvec(gr->node, v);
		mc_trans(1);
		if (q == R_DIVERGE) {
			MC_CHECK(c == NULL && errno == ECHILD, "cb-fail", "the callback fails, but completion gives %s", c ? "a list" : "NULL");
		} else {
			MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
			mc_buf_reset(&b1); mc_buf_reset(&b2);
			mc_buf_add(&b1, "%s", "");
			for (i = 0; i < rc.n; i++)
				mc_buf_add(&b1, "%c n%d n%d %s %s %s\n", rc.it[i].type, rc.it[i].g->num, rc.it[i].g->num, rc.it[i].str ? rc.it[i].str : "?",
					rc.it[i].completion ? rc.it[i].completion : "?", rc.it[i].path);
			mc_buf_add(&b2, "%s", "");
			comp_text(&b2, gr, c);
			MC_CHECK(!strcmp(b1.s, b2.s), "complete", "completion list:\n%sinstead of:\n%s", b2.s, b1.s);
			/* merged lists stay valid */
			c2 = ec_complete_strvec(gr->node, v);
			MC_CHECK(c2 != NULL && ec_comp_merge(c, c2) == 0, "merge", "merge fails");
			mc_buf_reset(&b2);
			mc_buf_add(&b2, "%s", "");
			comp_text(&b2, gr, c);
			MC_CHECK(strlen(b2.s) == 2 * strlen(b1.s) && !strncmp(b1.s, b2.s, strlen(b1.s)) && !strcmp(b1.s, b2.s + strlen(b1.s)), "merge",
				"merged completion list:\n%s", b2.s);
			ec_comp_free(c);
			mc_outcome(mc_hs(MC_H0, b1.s));
		}
	}
	if (d) { /* the tree is still the same */
		mc_buf_reset(&b2);
		pnode_text(&b2, gr, d);
		MC_CHECK(!strcmp(keep, b2.s), "changed", "the parse tree changed from %s to %s", keep, b2.s);
		ec_pnode_free(d);
		free(keep);
	}
	rcomp_free(&rc);
	ec_strvec_free(v);
	mc_state(mc_hu(mc_hs(MC_H0, db.s), gram_dyn_fresh * 8 + fail_mode * 4 + n));
}
static int ntok_max = 3;
static void one(const struct ast *a)
{
	static const char *const toks[] = { "a", "ab", "" };
	struct gram gr;
	const char *tok[4];
	int idx[4], n, i;

	if (!has_dyn(a) || empty_dyn(a) || (only_rec && !a->has_root)) return;
	if (!mc_next()) return;
	mc_buf_reset(&db);
	ast_text(&db, a);
	mc_desc("grammar %s", db.s);
	if (gram_build(&gr, a, 0) < 0) mc_fail("build", "cannot build the grammar");
	for (n = 0; n <= ntok_max; n++) {
		for (i = 0; i < n; i++) idx[i] = 0;
		for (;;) {
			for (i = 0; i < n; i++) tok[i] = toks[idx[i]];
			check_input(&gr, tok, n);
			for (i = n - 1; i >= 0 && ++idx[i] == 3; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	gram_free(&gr);
	mc_end();
}
void mc_run(void)
{
	int t = mc_thorough, i;
	r_dyn = choose;
	for (gram_dyn_fresh = 0; gram_dyn_fresh < 2; gram_dyn_fresh++)
		for (fail_mode = 0; fail_mode < 2; fail_mode++)
			for (int nest = 0; nest < 2; nest++) {
				gram_dyn_enter = nest ? nested : NULL;
				only_rec = 0;
				ntok_max = nest ? 2 : 3;
				for (i = 1; i <= 4 + t - nest; i++) ast_enum(gram_dyn_fresh ? &al_f : &al_o, i, one);
				if (nest) continue;
				for (i = 1; i <= 5 + t; i++) ast_enum(&al_s, i, one);
				only_rec = 1;
				for (i = 1; i <= 4 + t; i++) ast_enum(&al_r, i, one);
			}
}
