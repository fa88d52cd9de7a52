/* C03: the completion list, against the reference. */
#include <ecoli.h>
#include "gram_space.h"

static void begin_grammar(struct gram *gr) { (void)gr; }
static struct mc_buf b1, b2;

static const char *eq(const char *a, const char *b)
{
	if (a == NULL || b == NULL) return a == b ? "" : NULL;
	return strcmp(a, b) ? NULL : "";
}
static void check_input(struct gram *gr, const char *const *tok, int n)
{
	struct ec_strvec *v;
	struct ec_comp *c;
	struct ec_comp_item *it;
	struct rcomp rc;
	const struct ec_comp_group *grp[512];
	int i, nf = 0, nu = 0, k;

	i = ref_complete(gr, tok, n, &rc);
	if (i == R_DIVERGE) { rcomp_free(&rc); return; }
	case_desc(gr, tok, n);
	v = mk_strvec(tok, n);
	MC_CHECK(v != NULL, "alloc", "cannot build the input vector");
	c = ec_complete_strvec(gr->node, v);
	mc_trans(1);
	MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
	ec_strvec_free(v);
	i = 0;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const struct ec_node *nd = ec_comp_item_get_node(it);
		const struct ec_pnode *p;
		enum ec_comp_type t = ec_comp_item_get_type(it);
		const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it), *d = ec_comp_item_get_display(it);

		MC_CHECK(i < rc.n, "extra-item", "the library returns more than the %d expected items: item %d is %s (node n%d)",
			rc.n, i, s ? s : "(unknown)", gram_num(gr, nd));
		MC_CHECK(t == (rc.it[i].type == 'F' ? EC_COMP_FULL : EC_COMP_UNKNOWN), "type", "item %d: type %d", i, t);
		MC_CHECK(gram_num(gr, nd) == rc.it[i].g->num, "node", "item %d: node n%d instead of n%d", i, gram_num(gr, nd), rc.it[i].g->num);
		MC_CHECK(eq(s, rc.it[i].str), "str", "item %d: text %s instead of %s", i, s ? s : "(null)", rc.it[i].str ? rc.it[i].str : "(null)");
		MC_CHECK(eq(cm, rc.it[i].completion), "completion", "item %d (%s): completion '%s' instead of '%s'", i, s ? s : "",
			cm ? cm : "(null)", rc.it[i].completion ? rc.it[i].completion : "(null)");
		MC_CHECK(eq(d, rc.it[i].str), "display", "item %d: display %s", i, d ? d : "(null)");
		grp[i] = ec_comp_item_get_grp(it);
		MC_CHECK(ec_comp_group_get_node(grp[i]) == nd, "grp-node", "item %d: node of the group", i);
		for (k = 0; k < i; k++)
			MC_CHECK((grp[k] == grp[i]) == (rc.it[k].grp == rc.it[i].grp), "group", "items %d and %d: wrong grouping", k, i);
		p = ec_comp_group_get_pstate(grp[i]);
		mc_buf_reset(&b1);
		pnode_text(&b1, gr, EC_PNODE_GET_ROOT(p));
		mc_buf_add(&b1, " @");
		for (; p; p = ec_pnode_get_parent(p)) mc_buf_add(&b1, "n%d<", gram_num(gr, ec_pnode_get_node(p)));
		MC_CHECK(!strcmp(b1.s, rc.it[i].path), "pstate", "item %d: parse state %s instead of %s", i, b1.s, rc.it[i].path);
		if (t == EC_COMP_FULL) nf++; else nu++;
		i++;
		if (i >= 512) mc_bug("too many items");
	}
	MC_CHECK(i == rc.n, "missing-item", "the library returns %d items, %d expected; first missing: %s (node n%d)", i, rc.n,
		rc.it[i].str ? rc.it[i].str : "(unknown)", rc.it[i].g->num);
	MC_CHECK(ec_comp_count(c, EC_COMP_ALL) == (size_t)i && ec_comp_count(c, EC_COMP_FULL) == (size_t)nf &&
		ec_comp_count(c, EC_COMP_UNKNOWN) == (size_t)nu && ec_comp_count(c, EC_COMP_PARTIAL) == 0, "count", "wrong counters");
	/* filtered iteration */
	k = 0;
	EC_COMP_FOREACH(it, c, EC_COMP_UNKNOWN) k++;
	MC_CHECK(k == nu, "iter-unknown", "iteration over unknown items: %d instead of %d", k, nu);
	k = 0;
	EC_COMP_FOREACH(it, c, EC_COMP_FULL) k++;
	MC_CHECK(k == nf, "iter-full", "iteration over full items: %d instead of %d", k, nf);
	ec_comp_free(c);
	if (n == 1 && !gram_attrs) {
		c = ec_complete(gr->node, tok[0]);
		mc_trans(1);
		MC_CHECK(c != NULL && ec_comp_count(c, EC_COMP_ALL) == (size_t)rc.n, "complete1", "ec_complete() differs from ec_complete_strvec()");
		ec_comp_free(c);
	}
	/* the grammar is unchanged: it still parses as before */
	{
		struct rt *rt;
		struct ec_pnode *p;
		k = ref_parse(gr, tok, n, &rt);
		if (k != R_DIVERGE) {
			v = mk_strvec(tok, n);
			p = ec_parse_strvec(gr->node, v);
			ec_strvec_free(v);
			MC_CHECK(p != NULL, "parse-after", "parsing fails after a completion");
			mc_buf_reset(&b1); mc_buf_reset(&b2);
			rt_text(&b1, rt); pnode_text(&b2, gr, p);
			MC_CHECK(!strcmp(b1.s, b2.s), "parse-after", "parse tree after a completion: %s instead of %s", b2.s, b1.s);
			ec_pnode_free(p);
		}
		rt_free(rt);
	}
	uint64_t h = MC_H0;
	for (k = 0; k < rc.n; k++) h = mc_hs(mc_hs(mc_hu(h, rc.it[k].type), rc.it[k].str), rc.it[k].completion);
	mc_outcome(h);
	for (k = 0; k < rc.n; k++) h = mc_hs(h, rc.it[k].path);
	mc_state(mc_hs(h, db.s));
	if (rc.n) mc_nontrivial();
	rcomp_free(&rc);
}
void mc_run(void)
{
	deep();
	if (mc_thorough) enum_space(5, 6, 6, 4, 40, 300, 5);
	else enum_space(4, 4, 5, 2, 20, 129, 4);
}
