/* C16 (histories): every sequence of parse and completion calls, on one grammar of each kind and on pairs of grammars
 * that share nodes, gives the results each call gives alone on a fresh grammar; earlier results stay valid and
 * unchanged; the grammar is not modified. */
#include <ecoli.h>
#include "gram.h"

static struct mc_buf b1, b2;
#define S(s) ec_node_str("s_" s, s)

static void ptext(struct mc_buf *b, const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const struct ec_pnode *c;
	mc_buf_add(b, "%s:%s", ec_node_get_type_name(ec_pnode_get_node(p)), ec_node_id(ec_pnode_get_node(p)));
	if (v == NULL) mc_buf_add(b, "-");
	else {
		mc_buf_add(b, "[");
		for (size_t i = 0; i < ec_strvec_len(v); i++) mc_buf_str(b, ec_strvec_val(v, i));
		mc_buf_add(b, "]");
	}
	mc_buf_add(b, "(");
	for (c = ec_pnode_get_first_child(p); c; c = ec_pnode_next(c)) ptext(b, c);
	mc_buf_add(b, ")");
}
static void ctext(struct mc_buf *b, const struct ec_comp *c)
{
	struct ec_comp_item *it;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const struct ec_comp_group *grp = ec_comp_item_get_grp(it);
		const struct ec_pnode *p = ec_comp_group_get_pstate(grp);
		mc_buf_add(b, "%d %s ", ec_comp_item_get_type(it), ec_node_id(ec_comp_item_get_node(it)));
		mc_buf_str(b, ec_comp_item_get_str(it));
		mc_buf_str(b, ec_comp_item_get_completion(it));
		mc_buf_str(b, ec_comp_item_get_display(it));
		ptext(b, EC_PNODE_GET_ROOT(p));
		for (; p; p = ec_pnode_get_parent(p)) mc_buf_add(b, "<%s", ec_node_id(ec_pnode_get_node(p)));
		mc_buf_add(b, "\n");
	}
	mc_buf_add(b, "%zu", ec_comp_count(c, EC_COMP_ALL));
}
static void gtext(struct mc_buf *b, const struct ec_node *n, int depth)
{
	struct ec_node *c;
	unsigned refs;
	char *dump = NULL;
	size_t len;
	const struct ec_config *cfg = ec_node_get_config(n);
	mc_buf_add(b, "%s:%s", ec_node_get_type_name(n), ec_node_id(n));
	if (cfg != NULL) {
		FILE *f = open_memstream(&dump, &len);
		ec_config_dump(f, cfg);
		fclose(f);
		mc_buf_add(b, "{%s}", dump);
		free(dump);
	}
	mc_buf_add(b, "(");
	for (size_t i = 0; depth && i < ec_node_get_children_count(n); i++)
		if (ec_node_get_child(n, i, &c, &refs) == 0) gtext(b, c, depth - 1);
	mc_buf_add(b, ")");
}

/* ---- the grammars: `sh` is a node that may be shared with another grammar (one reference is consumed) --- */
static struct ec_node *build_cb(struct ec_pnode *p, void *opaque)
{
	struct ec_pnode *root = EC_PNODE_GET_ROOT(p), *it;
	unsigned n = 0;
	char s[16];
	(void)opaque;
	for (it = root; it; it = EC_PNODE_ITER_NEXT(root, it, 1))
		if (!strncmp(ec_node_id(ec_pnode_get_node(it)), "dyn_s", 5)) n++;
	snprintf(s, sizeof(s), "%c", 'a' + n);
	return ec_node_str("dyn_s", s);
}
static struct ec_node *mk_expr(struct ec_node *val)
{
	struct ec_node *e = ec_node("expr", "e");
	if (ec_node_expr_set_val_node(e, val) < 0 || ec_node_expr_add_bin_op(e, S("b")) < 0 ||
			ec_node_expr_add_post_op(e, S("c")) < 0) mc_bug("expr");
	return e;
}
static struct ec_node *mk_relex(struct ec_node *c)
{
	struct ec_node *n = ec_node_re_lex("rl", c);
	if (ec_node_re_lex_add(n, "[a-z]", 1, "letter") < 0 || ec_node_re_lex_add(n, " +", 0, NULL) < 0) mc_bug("re_lex");
	return n;
}
static struct ec_node *mk_re(void) { return ec_node_re("re", "[ab]+"); }
#define NG 26
static struct ec_node *grammar(int k, struct ec_node *sh)
{
	switch (k) {
	case 0: return EC_NODE_SEQ("g", sh, S("b"));
	case 1: return EC_NODE_OR("g", S("a"), sh, S("b"));
	case 2: return EC_NODE_SUBSET("g", sh, S("b"), S("c"));
	case 3: return ec_node_many("g", sh, 0, 0);
	case 4: return ec_node_many("g", EC_NODE_OR("o", ec_node_once("once", sh), S("b")), 1, 3);
	case 5: return ec_node_option("g", sh);
	case 6: return ec_node_bypass("g", sh);
	case 7: return ec_node_sh_lex("g", ec_node_many("m", sh, 0, 0));
	case 8: return ec_node_sh_lex("g", EC_NODE_SEQ("m", sh, ec_node_option("mo", EC_NODE_OR("o", S("b"), S("c")))));
	case 9: return mk_relex(EC_NODE_SEQ("s", sh, ec_node_option("o", S("b"))));
	case 10: return mk_expr(sh);
	case 11: return ec_node_cond("g", "cmp(lt, count(find(root(), s_a)), 2)", ec_node_many("m", sh, 0, 0));
	case 12: return EC_NODE_CMD("g", "a [x] (b, c)*", ec_node_many("x", sh, 0, 0));
	case 13: return EC_NODE_SEQ("g", ec_node_dynamic("dyn", build_cb, NULL), ec_node_dynamic("dyn", build_cb, NULL), sh);
	case 14: ec_node_free(sh); return ec_node_sh_lex("g", ec_node_many("m", ec_node_dynamic("dyn", build_cb, NULL), 0, 0));
	case 15: return EC_NODE_OR("g", ec_node_int("int", 0, 10, 10), mk_re(), sh);
	case 16: return EC_NODE_SEQ("g", ec_node_any("any", NULL), sh, ec_node("empty", "e"));
	case 17: return EC_NODE_OR("g", ec_node("none", "n"), ec_node("space", "sp"), sh);
	case 18: return EC_NODE_SUBSET("g", EC_NODE_SUBSET("g2", sh, S("b")), S("c"));
	case 19: return EC_NODE_SEQ("g", ec_node_option("o", ec_node_clone(sh)), ec_node_many("m", EC_NODE_SUBSET("ss", sh, S("b")), 0, 0));
	case 20: return EC_NODE_SUBSET("g", ec_node_once("once", ec_node_clone(sh)), sh, ec_node_uint("u", 0, 10, 10));
	case 21: return ec_node_many("g", ec_node_cond("c", "cmp(ne, count(find(root(), s_b)), 2)", EC_NODE_OR("o", sh, S("b"))), 0, 0);
	case 22: return EC_NODE_SEQ("g", ec_node("file", "file"), sh);
	case 23: return ec_node_many("g", ec_node_bypass("b", EC_NODE_OR("o", ec_node_clone(sh), ec_node_once("once", sh))), 0, 2);
	case 24: { /* recursive: g = [ sh g ] b? */
		struct ec_node *r = ec_node("seq", "g");
		if (ec_node_seq_add(r, ec_node_option("o", EC_NODE_SEQ("s", EC_NODE_OR("so", S("a"), S("c")), sh, ec_node_clone(r)))) < 0 || ec_node_seq_add(r, ec_node_option("o2", S("b"))) < 0) mc_bug("rec");
		return r;
	}
	default: return EC_NODE_SUBSET("g", ec_node_dynamic("dyn", build_cb, NULL), sh, EC_NODE_CMD("k", "b|c"));
	}
}
#define NS 5
static struct ec_node *mk_shared(int k)
{
	switch (k) {
	case 0: return S("a");
	case 1: return EC_NODE_OR("so", S("a"), S("ab"));
	case 2: return EC_NODE_SUBSET("ss", S("a"), S("c"));
	case 3: return EC_NODE_SEQ("sq", S("a"), ec_node_option("sqo", S("c")));
	default: return ec_node_once("sonce", S("a"));
	}
}

/* ---- operations ----------------------------------------------------------- */
struct op { int g, complete, in; };
static const char *const inputs[][4] = {
	{ "a" }, { "a", "b" }, { "" }, { "a", "" }, { "a", "c", "b" }, { "ab" }, { "a", "b", "a" }, { "a b" }, { "a a" }, { "a", "b", "" }, { "'a" }, { 0 },
};
#define NIN 12
static int nin(int i) { int n; for (n = 0; n < 4 && inputs[i][n]; n++); return n; }
struct res { struct ec_pnode *p; struct ec_comp *c; char *text; };
static void run_op(struct ec_node *g, const struct op *o, struct res *r)
{
	struct ec_strvec *v = mk_strvec(inputs[o->in], nin(o->in));
	r->p = NULL; r->c = NULL;
	if (o->complete) r->c = ec_complete_strvec(g, v);
	else r->p = ec_parse_strvec(g, v);
	mc_trans(1);
	ec_strvec_free(v);
	MC_CHECK(r->p != NULL || r->c != NULL, "error", "%s reports an error: %s", o->complete ? "ec_complete_strvec()" : "ec_parse_strvec()", strerror(errno));
}
static void res_text(struct mc_buf *b, const struct res *r)
{
	mc_buf_reset(b);
	mc_buf_add(b, "%s", "");
	if (r->p) ptext(b, r->p); else ctext(b, r->c);
}
static void res_free(struct res *r) { ec_pnode_free(r->p); ec_comp_free(r->c); r->p = NULL; r->c = NULL; }
/* what each operation gives alone: [grammar][complete][input] */
static char *alone[2][2][NIN];
static void baseline(int slot, int kind, int shared)
{
	for (int c = 0; c < 2; c++)
		for (int i = 0; i < NIN; i++) {
			struct ec_node *g = grammar(kind, mk_shared(shared));
			struct op o = { slot, c, i };
			struct res r;
			if (g == NULL) mc_bug("cannot build grammar %d", kind);
			mc_desc("grammar %d (shared %d): %s of input %d alone", kind, shared, c ? "completion" : "parse", i);
			run_op(g, &o, &r);
			res_text(&b1, &r);
			free(alone[slot][c][i]);
			alone[slot][c][i] = strdup(b1.s);
			mc_outcome(mc_hs(MC_H0, b1.s));
			res_free(&r);
			ec_node_free(g);
		}
}
static void sequences(struct ec_node *const *g, int ng, const int *kinds, int shared, int depth, int ni, char *const *gt)
{
	struct op seq[4];
	struct res r[4];
	int nop = ng * 2 * ni, idx[4], i, k, order;

	for (i = 0; i < depth; i++) idx[i] = 0;
	for (;;) {
		mc_desc("shared %d:", shared);
		for (i = 0; i < depth; i++) {
			seq[i].g = idx[i] / (2 * ni); seq[i].complete = idx[i] / ni % 2; seq[i].in = idx[i] % ni;
			mc_desc_add(" %s(grammar %d, input %d)", seq[i].complete ? "complete" : "parse", kinds[seq[i].g], seq[i].in);
		}
		order = 0;
		for (i = 0; i < depth; i++) {
			run_op(g[seq[i].g], &seq[i], &r[i]);
			res_text(&b1, &r[i]);
			MC_CHECK(!strcmp(b1.s, alone[seq[i].g][seq[i].complete][seq[i].in]), "history", "operation %d gives\n%s\ninstead of\n%s", i, b1.s,
				alone[seq[i].g][seq[i].complete][seq[i].in]);
			order = order * 7 + idx[i];
		}
		/* earlier results are unchanged, whatever is freed first */
		for (k = 0; k < depth; k++) {
			i = order & 1 ? k : depth - 1 - k;
			res_text(&b1, &r[i]);
			MC_CHECK(!strcmp(b1.s, alone[seq[i].g][seq[i].complete][seq[i].in]), "changed", "the result of operation %d became\n%s\ninstead of\n%s", i, b1.s,
				alone[seq[i].g][seq[i].complete][seq[i].in]);
			res_free(&r[i]);
		}
		for (i = depth - 1; i >= 0 && ++idx[i] == nop; i--) idx[i] = 0;
		if (i < 0) break;
	}
	for (i = 0; i < ng; i++) {
		mc_buf_reset(&b2);
		gtext(&b2, g[i], 6);
		mc_desc("shared %d: all sequences of length %d on grammar %d", shared, depth, kinds[i]);
		MC_CHECK(!strcmp(b2.s, gt[i]), "modified", "grammar %d became\n%s\ninstead of\n%s", kinds[i], b2.s, gt[i]);
		mc_state(mc_hu(mc_hs(MC_H0, b2.s), depth));
	}
}
static void one(const int *kinds, int ng, int shared, int depth, int ni)
{
	struct ec_node *sh, *g[2];
	char *gt[2];
	int i;
	for (i = 0; i < ng; i++) baseline(i, kinds[i], shared);
	mc_desc("grammars %d %d shared %d", kinds[0], ng > 1 ? kinds[1] : -1, shared);
	sh = mk_shared(shared);
	for (i = 0; i < ng; i++) {
		g[i] = grammar(kinds[i], ec_node_clone(sh));
		if (g[i] == NULL) mc_bug("grammar");
		mc_buf_reset(&b2);
		gtext(&b2, g[i], 6);
		gt[i] = strdup(b2.s);
	}
	ec_node_free(sh);
	for (i = 1; i <= depth; i++) sequences(g, ng, kinds, shared, i, i == 3 && !mc_thorough ? (ni < 8 ? ni : 8) : ni, gt);
	for (i = 0; i < ng; i++) { ec_node_free(g[i]); free(gt[i]); }
	mc_nontrivial();
}
void mc_run(void)
{
	int i, j, s, k[2];
	mc_case_timeout = 120;
	for (i = 0; i < NG; i++)
		for (s = 0; s < NS; s++) {
			if (!mc_next()) continue;
			k[0] = i;
			one(k, 1, s, 3, mc_thorough ? NIN : 10);
			mc_end();
		}
	for (i = 0; i < NG; i++)
		for (j = i; j < NG; j++)
			for (s = 0; s < NS; s++) {
				if (!mc_next()) continue;
				k[0] = i; k[1] = j;
				one(k, 2, s, mc_thorough ? 3 : 2, mc_thorough ? 8 : 5);
				mc_end();
			}
}
