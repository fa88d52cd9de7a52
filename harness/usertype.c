/* C23: node types defined by the application (the mechanism the built-in types use themselves). */
#include <ecoli.h>
#include <limits.h>
#include "gram_space.h"

/* ---- the types --------------------------------------------------------- */
#define MAGIC 0x5eed1e55u
struct priv {
	unsigned magic;
	char *s;                     /* u_str */
	unsigned span;               /* u_span */
	struct ec_node **ch;
	size_t n;
};
static long inits, frees;
/* what is going on, for the checks in the callbacks */
static struct ec_node *cur_root;
static const char *const *cur_tok;
static int cur_n, cur_complete, cur_on, cur_shift;
static long cbn, cb_fail_at;
static int cb_failed, cb_ret = -1;
static int late, late_in;      /* late: the callback does its work, then fails */
static struct mc_buf b1, b2, b3;

static struct priv *pv(const struct ec_node *node, const char *what)
{
	struct priv *p = ec_node_priv(node);
	MC_CHECK(p->magic == MAGIC, "priv", "%s: the private area of %s is not the one that was initialized", what, ec_node_id(node));
	return p;
}
static int u_init(struct ec_node *node)
{
	struct priv *p = ec_node_priv(node);
	for (size_t i = 0; i < sizeof(*p); i++)
		MC_CHECK(((char *)p)[i] == 0, "priv-zero", "byte %zu of the private area is not 0", i);
	p->magic = MAGIC;
	inits++;
	return 0;
}
static void u_free(struct ec_node *node)
{
	struct priv *p = pv(node, "free_priv");
	for (size_t i = 0; i < p->n; i++) ec_node_free(p->ch[i]);
	free(p->ch);
	free(p->s);
	p->ch = NULL; p->s = NULL; p->n = 0;
	frees++;
}
static size_t u_count(const struct ec_node *node) { return pv(node, "get_children_count")->n; }
static int u_child(const struct ec_node *node, size_t i, struct ec_node **child, unsigned int *refs)
{
	struct priv *p = pv(node, "get_child");
	if (i >= p->n) return -1;
	*child = p->ch[i];
	*refs = 1;
	return 0;
}
/* the state given to a callback; 1: the callback has to fail */
static int enter(const struct ec_node *node, const char *what, struct ec_pnode *ps, const struct ec_strvec *v, int complete)
{
	const struct ec_pnode *p, *c, *root = ps;
	size_t off = 0, i;

	pv(node, what);
	if (cb_fail_at && cbn + 1 > cb_fail_at && !late_in)
		mc_fail("called-after", "%s: called although a callback failed before", what);
	cbn++;
	if (cbn == cb_fail_at) {
		cb_failed++;
		if (late) { late_in = 1; return 2; }
		errno = EXFULL;
		return 1;
	}
	if (!cur_on) return 0;
	MC_CHECK(ps != NULL && ec_pnode_get_node(ps) == node, "pstate-node", "%s: the parse state is not the one of the node", what);
	MC_CHECK(ec_pnode_get_strvec(ps) == NULL && ec_pnode_get_first_child(ps) == NULL, "pstate-new", "%s: the parse state is not new", what);
	for (p = ps; ec_pnode_get_parent(p); p = ec_pnode_get_parent(p)) {
		int last = 0;
		EC_PNODE_FOREACH_CHILD(c, ec_pnode_get_parent(p)) {
			if (c == p) { last = ec_pnode_next(c) == NULL; break; }
			MC_CHECK(ec_pnode_get_strvec(c) != NULL, "pstate-sibling", "%s: an earlier sibling has no tokens", what);
			off += ec_strvec_len(ec_pnode_get_strvec(c));
		}
		MC_CHECK(last, "pstate-last", "%s: the parse state is not the last child of its parent", what);
		root = ec_pnode_get_parent(p);
	}
	MC_CHECK(EC_PNODE_GET_ROOT(ps) == root && ec_pnode_get_node(root) == cur_root, "pstate-root", "%s: the root of the parse state", what);
	if (cur_shift) return 0;      /* the tokens come from a lexer */
	MC_CHECK(off + ec_strvec_len(v) <= (size_t)cur_n && (complete || cur_complete || off + ec_strvec_len(v) == (size_t)cur_n) &&
		(!complete || off + ec_strvec_len(v) == (size_t)cur_n), "tokens", "%s of %s: %zu tokens at offset %zu of %d", what, ec_node_id(node),
		ec_strvec_len(v), off, cur_n);
	for (i = 0; i < ec_strvec_len(v); i++)
		MC_CHECK(!strcmp(ec_strvec_val(v, i), cur_tok[off + i]), "tokens", "%s of %s: token %zu is %s instead of %s", what, ec_node_id(node), i,
			ec_strvec_val(v, i), cur_tok[off + i]);
	return 0;
}
#define PARSE(name) static int name(const struct ec_node *node, struct ec_pnode *ps, const struct ec_strvec *v)
/* a callback: its work is the function of the same name with _do */
#define PARSE_CB(name) PARSE(name##_do); \
	PARSE(name) { int f = enter(node, "parse", ps, v, 0), r; if (f == 1) return cb_ret; r = name##_do(node, ps, v); return leave(f, r); } PARSE(name##_do)
#define COMPLETE_CB(name) COMPLETE(name##_do); \
	COMPLETE(name) { int f = enter(node, "complete", ec_comp_get_cur_pstate(comp), v, 1), r; if (f == 1) return cb_ret; r = name##_do(node, comp, v); return leave(f, r); } \
	COMPLETE(name##_do)
static int leave(int f, int r)
{
	if (f != 2) return r;
	late_in = 0;
	errno = EXFULL;
	return cb_ret;
}
#define COMPLETE(name) static int name(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *v)
PARSE_CB(str_parse)
{
	return ec_strvec_len(v) > 0 && !strcmp(ec_strvec_val(v, 0), pv(node, "")->s) ? 1 : EC_PARSE_NOMATCH;
}
COMPLETE_CB(str_complete)
{
	const char *s = pv(node, "")->s, *t;
	if (ec_strvec_len(v) != 1) return 0;
	t = ec_strvec_val(v, 0);
	if (strncmp(s, t, strlen(t))) return 0;
	return ec_comp_add_item(comp, node, EC_COMP_FULL, t, s) ? 0 : -1;
}
static char *str_desc(const struct ec_node *node) { return ec_strdup(pv(node, "desc")->s); }
PARSE_CB(any_parse)
{
	return ec_strvec_len(v) > 0 ? 1 : EC_PARSE_NOMATCH;
}
PARSE_CB(empty_parse)
{
	return 0;
}
PARSE_CB(span_parse)
{
	size_t n = ec_strvec_len(v), w = pv(node, "")->span;
	if (w == 0) return n ? (int)n : EC_PARSE_NOMATCH;
	return n >= w ? (int)w : EC_PARSE_NOMATCH;
}
COMPLETE_CB(span_complete)
{
	size_t n = ec_strvec_len(v), w = pv(node, "")->span;
	if (n == 0 || (w && n > w)) return 0;
	return ec_comp_add_item(comp, node, EC_COMP_UNKNOWN, NULL, NULL) ? 0 : -1;
}
PARSE_CB(wrap_parse)
{
	return ec_parse_child(pv(node, "")->ch[0], ps, v);
}
COMPLETE_CB(wrap_complete)
{
	return ec_complete_child(pv(node, "")->ch[0], comp, v);
}
PARSE_CB(or_parse)
{
	struct priv *p = pv(node, "");
	int r;
	for (size_t i = 0; i < p->n; i++) {
		r = ec_parse_child(p->ch[i], ps, v);
		if (r == EC_PARSE_NOMATCH) MC_CHECK(ec_pnode_get_first_child(ps) == NULL, "left-child", "a child that does not match stays in the parse state");
		else if (r >= 0) {
			const struct ec_pnode *c = ec_pnode_get_first_child(ps);
			MC_CHECK(c && ec_pnode_next(c) == NULL && ec_pnode_get_node(c) == p->ch[i] && ec_strvec_len(ec_pnode_get_strvec(c)) == (size_t)r,
				"child-state", "the state of a matching child");
			return r;
		} else {
			MC_CHECK(ec_pnode_get_first_child(ps) == NULL, "left-child", "a child that fails stays in the parse state");
			return r;
		}
	}
	return EC_PARSE_NOMATCH;
}
COMPLETE_CB(or_complete)
{
	struct priv *p = pv(node, "");
	struct ec_pnode *ps = ec_comp_get_cur_pstate(comp);
	for (size_t i = 0; i < p->n; i++) {
		int r = ec_complete_child(p->ch[i], comp, v);
		MC_CHECK(ec_comp_get_cur_pstate(comp) == ps && ec_pnode_get_first_child(ps) == NULL, "restored", "the completion of a child leaves its state behind");
		MC_CHECK(ec_comp_get_cur_group(comp) == NULL, "restored-group", "the completion of a child leaves its group behind");
		if (r < 0) return r;
	}
	return 0;
}
static struct ec_node_type t_str = { .name = "u_str", .size = sizeof(struct priv), .parse = str_parse, .complete = str_complete, .desc = str_desc,
	.init_priv = u_init, .free_priv = u_free };
static struct ec_node_type t_any = { .name = "u_any", .size = sizeof(struct priv), .parse = any_parse, .init_priv = u_init, .free_priv = u_free };
static struct ec_node_type t_empty = { .name = "u_empty", .size = sizeof(struct priv), .parse = empty_parse, .init_priv = u_init, .free_priv = u_free };
static struct ec_node_type t_span = { .name = "u_span", .size = sizeof(struct priv), .parse = span_parse, .complete = span_complete,
	.init_priv = u_init, .free_priv = u_free };
static struct ec_node_type t_wrap = { .name = "u_wrap", .size = sizeof(struct priv), .parse = wrap_parse, .complete = wrap_complete,
	.init_priv = u_init, .free_priv = u_free, .get_children_count = u_count, .get_child = u_child };
static struct ec_node_type t_or = { .name = "u_or", .size = sizeof(struct priv), .parse = or_parse, .complete = or_complete,
	.init_priv = u_init, .free_priv = u_free, .get_children_count = u_count, .get_child = u_child };

static struct ec_node *u_new(const struct ec_node_type *t, const char *id)
{
	struct ec_node *n = ec_node(t->name, id);
	if (n == NULL) mc_fail("create", "a node of type %s cannot be created", t->name);
	MC_CHECK(ec_node_type(n) == t && !strcmp(ec_node_get_type_name(n), t->name) && ec_node_check_type(n, t) == 0, "type", "type of the new node");
	MC_CHECK(!strcmp(ec_node_id(n), id), "id", "identifier of the new node");
	MC_CHECK(ec_node_get_config(n) == NULL, "config", "the new node has a configuration");
	return n;
}
static struct ec_node *mk_ustr(const char *id, const char *s)
{
	struct ec_node *n = u_new(&t_str, id);
	pv(n, "")->s = strdup(s);
	return n;
}
static int user_kinds;
static struct ec_node *user(struct g *g)
{
	struct ec_node *n;
	struct priv *p;
	if (g->k != G_SPAN && !(user_kinds >> g->k & 1)) return NULL;
	switch (g->k) {
	case G_STR: return mk_ustr(gram_id(g), g->s);
	case G_ANY: return u_new(&t_any, gram_id(g));
	case G_EMPTY: return u_new(&t_empty, gram_id(g));
	case G_SPAN: n = u_new(&t_span, gram_id(g)); pv(n, "")->span = g->min; return n;
	case G_BYPASS: case G_OR:
		n = u_new(g->k == G_OR ? &t_or : &t_wrap, gram_id(g));
		p = pv(n, "");
		p->ch = calloc(g->n + 1, sizeof(*p->ch));
		if (g->looped) return n;
		for (p->n = 0; p->n < (size_t)g->n; p->n++) p->ch[p->n] = g->ch[p->n]->node;
		return n;
	default: return NULL;
	}
}
static int user_set(struct ec_node *n, struct ec_node *child)
{
	struct priv *p;
	if (ec_node_type(n) != &t_wrap) return ec_node_bypass_set_child(n, child);
	p = pv(n, "");
	p->ch[0] = child; p->n = 1;
	return 0;
}
/* ---- grammars that mix both kinds of types ------------------------------ */
static void comp_text(struct mc_buf *b, struct gram *gr, struct ec_comp *c)
{
	struct ec_comp_item *it;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const struct ec_comp_group *grp = ec_comp_item_get_grp(it);
		const struct ec_pnode *p = ec_comp_group_get_pstate(grp);
		const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it);
		mc_buf_add(b, "%c n%d n%d %s %s ", ec_comp_item_get_type(it) == EC_COMP_FULL ? 'F' : 'U', gram_num(gr, ec_comp_item_get_node(it)),
			gram_num(gr, ec_comp_group_get_node(grp)), s ? s : "?", cm ? cm : "?");
		pnode_text(b, gr, EC_PNODE_GET_ROOT(p));
		mc_buf_add(b, " @");
		for (; p; p = ec_pnode_get_parent(p)) mc_buf_add(b, "n%d<", gram_num(gr, ec_pnode_get_node(p)));
		mc_buf_add(b, "\n");
	}
}
static int fail_all = 1;
static const int rets[] = { -1, -2, INT_MIN };
static void begin_grammar(struct gram *gr) { (void)gr; }
static void check_input(struct gram *gr, const char *const *tok, int n)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct ec_comp *c;
	struct rcomp rc;
	struct rt *rt;
	long k, calls, live;
	int r, q;

	cur_root = gr->node; cur_tok = tok; cur_n = n; cur_on = 1; cur_shift = 0;
	v = mk_strvec(tok, n);
	r = ref_parse(gr, tok, n, &rt);
	if (r != R_DIVERGE) {
		case_desc(gr, tok, n);
		cur_complete = 0; cbn = 0; cb_fail_at = 0;
		p = ec_parse_strvec(gr->node, v);
		mc_trans(1);
		MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		rt_text(&b1, rt);
		pnode_text(&b2, gr, p);
		MC_CHECK(!strcmp(b1.s, b2.s), "tree", "parse tree %s instead of %s", b2.s, b1.s);
		ec_pnode_free(p);
		mc_outcome(mc_hs(MC_H0, b1.s));
		if (cbn > 1) mc_nontrivial();
		calls = cbn;
		for (k = 2; k < 2 * calls + 2 && fail_all; k++) {
			late = k & 1; late_in = 0; cb_fail_at = k / 2; cbn = 0; cb_failed = 0; cb_ret = rets[k % 3];
			live = mc_live;
			errno = 0;
			p = ec_parse_strvec(gr->node, v);
			mc_trans(1);
			MC_CHECK(cb_failed == 1, "calls", "the parse is not the same the second time");
			MC_CHECK(p == NULL && errno == EXFULL, "cb-fail", "callback %ld/2 fails, but parsing gives %s, errno %d", k, p ? "a tree" : "NULL", errno);
			MC_CHECK(mc_live == live, "leak", "callback %ld/2 fails: %ld blocks are lost", k, mc_live - live);
			cb_fail_at = 0;
		}
		if (fail_all) {
			p = ec_parse_strvec(gr->node, v);
			mc_buf_reset(&b2);
			if (p) pnode_text(&b2, gr, p);
			MC_CHECK(p && !strcmp(b1.s, b2.s), "after", "parse tree %s instead of %s after failures", p ? b2.s : "NULL", b1.s);
			ec_pnode_free(p);
		}
		mc_state(mc_hu(mc_hs(mc_hs(MC_H0, db.s), b1.s), n));
	}
	rt_free(rt);
	q = ref_complete(gr, tok, n, &rc);
	if (q != R_DIVERGE) {
		case_desc(gr, tok, n);
		cur_complete = 1; cbn = 0; cb_fail_at = 0;
		c = ec_complete_strvec(gr->node, v);
		mc_trans(1);
		MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		mc_buf_add(&b1, "%s", ""); mc_buf_add(&b2, "%s", "");
		for (int i = 0; i < rc.n; i++)
			mc_buf_add(&b1, "%c n%d n%d %s %s %s\n", rc.it[i].type, rc.it[i].g->num, rc.it[i].g->num, rc.it[i].str ? rc.it[i].str : "?",
				rc.it[i].completion ? rc.it[i].completion : "?", rc.it[i].path);
		comp_text(&b2, gr, c);
		MC_CHECK(!strcmp(b1.s, b2.s), "complete", "completion list:\n%sinstead of:\n%s", b2.s, b1.s);
		ec_comp_free(c);
		mc_outcome(mc_hs(MC_H0, b1.s));
		calls = cbn;
		for (k = 2; k < 2 * calls + 2 && fail_all; k++) {
			late = k & 1; late_in = 0; cb_fail_at = k / 2; cbn = 0; cb_failed = 0; cb_ret = rets[k % 3];
			live = mc_live;
			errno = 0;
			c = ec_complete_strvec(gr->node, v);
			mc_trans(1);
			MC_CHECK(cb_failed == 1, "calls", "the completion is not the same the second time");
			MC_CHECK(c == NULL && errno == EXFULL, "cb-fail", "callback %ld/2 fails, but completion gives %s, errno %d", k, c ? "a list" : "NULL", errno);
			MC_CHECK(mc_live == live, "leak", "callback %ld/2 fails: %ld blocks are lost", k, mc_live - live);
			cb_fail_at = 0;
		}
		if (fail_all) {
			c = ec_complete_strvec(gr->node, v);
			mc_buf_reset(&b2);
			mc_buf_add(&b2, "%s", "");
			if (c) comp_text(&b2, gr, c);
			MC_CHECK(c && !strcmp(b1.s, b2.s), "after", "completion list:\n%sinstead of:\n%safter failures", b2.s, b1.s);
			ec_comp_free(c);
		}
	}
	rcomp_free(&rc);
	ec_strvec_free(v);
	cur_on = 0;
}
static int need_user(const struct ast *a)
{
	if (a->k == G_SPAN || a->k == G_ROOT || (user_kinds >> a->k & 1) || (a->k == G_SHARED && (user_kinds & 1 << G_STR))) return 1;
	for (int i = 0; i < a->n; i++) if (need_user(a->ch[i])) return 1;
	return 0;
}
static void one_user(const struct ast *a)
{
	if (!need_user(a)) return;
	inits = frees = 0;
	one_grammar(a);
	MC_CHECK(inits == frees, "freed", "%ld nodes are created, %ld are freed", inits, frees);
}
static const struct ast leaf_span[] = { { .k = G_STR, .s = "a" }, { .k = G_SPAN, .min = 2 }, { .k = G_SPAN, .min = 0 }, { .k = G_SPAN, .min = 3 }, { .k = G_ANY } };
static const struct ast unary_span[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_MANY, .min = 2 }, { .k = G_ONCE }, { .k = G_BYPASS } };
static const struct alphabet al_span = { leaf_span, 5, unary_span, 5, nary_full, 3, 3 };
static void mixed(int t)
{
	static const int kinds[] = { 1 << G_STR | 1 << G_ANY | 1 << G_EMPTY | 1 << G_BYPASS | 1 << G_OR, 1 << G_BYPASS | 1 << G_OR, 1 << G_STR | 1 << G_EMPTY };
	int i, k;
	gram_user = user; gram_user_set = user_set;
	toks = tok_std; ntoks = 3; maxlen = 3;
	for (k = 0; k < 3; k++) {
		user_kinds = kinds[k];
		only_rec = 0;
		for (i = 1; i <= 3 + t; i++) ast_enum(&al_full, i, one_user);
		only_rec = 1;
		for (i = 1; i <= 4; i++) ast_enum(&al_rec, i, one_user);
	}
	only_rec = 0;
	maxlen = 4; ntoks = 2;
	user_kinds = 1 << G_BYPASS;
	for (i = 1; i <= 4 + t; i++) ast_enum(&al_span, i, one_user);
	gram_user = NULL;
}
/* ---- a user leaf below every other type --------------------------------- */
static struct ec_node *(*leaf)(const char *id, const char *s);
static struct ec_node *dyn_build(struct ec_pnode *p, void *o) { (void)p; (void)o; return leaf("d", "a"); }
#define NCONT 22
static struct ec_node *container(int i)
{
	struct ec_node *n;
	switch (i) {
	case 0: return ec_node_sh_lex("c", leaf("x", "a"));
	case 1: return ec_node_sh_lex("c", EC_NODE_SEQ("q", leaf("x", "a"), ec_node_option("o", leaf("y", "b")), leaf("z", "ab")));
	case 2: return ec_node_sh_lex("c", ec_node_many("m", EC_NODE_OR("q", leaf("x", "a"), leaf("y", "a b")), 0, 0));
	case 3:
		n = ec_node_re_lex("c", ec_node_many("m", EC_NODE_OR("q", leaf("x", "a"), leaf("y", "b")), 0, 0));
		if (ec_node_re_lex_add(n, "[a-z]+", 1, NULL) < 0 || ec_node_re_lex_add(n, "[ ]+", 0, NULL) < 0) mc_bug("re_lex");
		return n;
	case 4: return EC_NODE_CMD("c", "x y", leaf("x", "a"), leaf("y", "b"));
	case 5: return EC_NODE_CMD("c", "x [y] | y+", leaf("x", "a"), leaf("y", "b"));
	case 6: return EC_NODE_CMD("c", "(x,y)* z", leaf("x", "a"), leaf("y", "b"), leaf("z", "ab"));
	case 7: case 8: case 9:
		n = ec_node("expr", "c");
		if (ec_node_expr_set_val_node(n, leaf("v", "a")) < 0 || ec_node_expr_add_bin_op(n, leaf("b", "b")) < 0 ||
				ec_node_expr_add_pre_op(n, leaf("p", "ab")) < 0 || ec_node_expr_add_post_op(n, leaf("t", "c")) < 0 ||
				ec_node_expr_add_parenthesis(n, leaf("l", "("), leaf("r", ")")) < 0)
			mc_bug("expr");
		return i == 7 ? n : i == 8 ? EC_NODE_SEQ("q", ec_node_option("o", leaf("y", "b")), n) : ec_node_sh_lex("s", n);
	case 10: return ec_node_cond("c", "find(root(), x)", leaf("x", "a"));
	case 11: return EC_NODE_SEQ("q", ec_node_option("o", leaf("x", "a")), ec_node_cond("c", "find(root(), x)", leaf("y", "b")));
	case 12: return ec_node_dynamic("c", dyn_build, NULL);
	case 13: return EC_NODE_SEQ("q", leaf("x", "a"), ec_node_dynamic("c", dyn_build, NULL), leaf("y", "b"));
	case 14: n = leaf("x", "a"); return EC_NODE_SUBSET("q", n, leaf("y", "b"), ec_node_once("c", ec_node_clone(n)));
	case 15: return ec_node_many("q", ec_node_once("c", leaf("x", "a")), 0, 0);
	case 16: return ec_node_many("q", EC_NODE_SUBSET("s", leaf("x", "a"), leaf("y", "b")), 1, 2);
	case 17: return ec_node_bypass("q", EC_NODE_OR("o", leaf("x", "a"), leaf("y", "ab"), leaf("z", "b")));
	case 18: return ec_node_sh_lex("c", EC_NODE_CMD("m", "x [y]", leaf("x", "a"), leaf("y", "b")));
	case 19: return EC_NODE_SUBSET("q", ec_node_option("o", leaf("x", "a")), ec_node_many("m", leaf("y", "b"), 1, 0));
	case 20: return ec_node_sh_lex("c", EC_NODE_SUBSET("q", leaf("x", "a"), leaf("y", "b"), leaf("z", "ab")));
	case 21: return ec_node_option("q", EC_NODE_SEQ("s", ec_node_many("m", leaf("x", "a"), 2, 2), leaf("y", "b")));
	default: return NULL;
	}
}
static void ptext(struct mc_buf *b, const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const struct ec_pnode *c;
	mc_buf_add(b, "%s", ec_node_id(ec_pnode_get_node(p)));
	if (v) for (size_t i = 0; i < ec_strvec_len(v); i++) mc_buf_add(b, " '%s'", ec_strvec_val(v, i));
	else mc_buf_add(b, " -");
	mc_buf_add(b, "(");
	EC_PNODE_FOREACH_CHILD(c, p) ptext(b, c);
	mc_buf_add(b, ")");
}
static void ctext(struct mc_buf *b, struct ec_comp *c)
{
	struct ec_comp_item *it;
	mc_buf_add(b, "%s", "");
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const struct ec_comp_group *grp = ec_comp_item_get_grp(it);
		const struct ec_pnode *p = ec_comp_group_get_pstate(grp);
		const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it), *d = ec_comp_item_get_display(it);
		mc_buf_add(b, "%d %s '%s' '%s' '%s' ", ec_comp_item_get_type(it), ec_node_id(ec_comp_item_get_node(it)), s ? s : "?", cm ? cm : "?", d ? d : "?");
		ptext(b, EC_PNODE_GET_ROOT(p));
		for (; p; p = ec_pnode_get_parent(p)) mc_buf_add(b, " <%s", ec_node_id(ec_pnode_get_node(p)));
		mc_buf_add(b, "\n");
	}
}
/* one call on the grammar; what it gives */
static int call(struct ec_node *g, struct ec_strvec *v, int complete, struct mc_buf *b)
{
	mc_buf_reset(b);
	mc_buf_add(b, "%s", "");
	errno = 0;
	mc_trans(1);
	if (complete) {
		struct ec_comp *c = ec_complete_strvec(g, v);
		if (c == NULL) return -1;
		ctext(b, c);
		ec_comp_free(c);
	} else {
		struct ec_pnode *p = ec_parse_strvec(g, v);
		if (p == NULL) return -1;
		ptext(b, p);
		ec_pnode_free(p);
	}
	return 0;
}
static void one_input(int i, struct ec_node *g, struct ec_node *ref, const char *const *tok, int n)
{
	struct ec_strvec *v = mk_strvec(tok, n);
	long live, k, calls;
	int complete, r, q, e;
	mc_buf_reset(&b3);
	tok_text(&b3, tok, n);
	cur_root = g; cur_shift = 1;
	for (complete = 0; complete < 2; complete++) {
		mc_desc("container %d, %s %s", i, complete ? "complete" : "parse", b3.s);
		cur_on = 1; cbn = 0; cb_fail_at = 0;
		live = mc_live;
		r = call(g, v, complete, &b1);
		e = errno;
		calls = cbn;
		leaf = ec_node_str;
		cur_on = 0;
		q = call(ref, v, complete, &b2);
		if (r < 0 && q < 0 && e != errno) r = 1; /* another error */
		leaf = mk_ustr;
		cur_on = 1;
		MC_CHECK(r == q && !strcmp(b1.s, b2.s), "container", "%d:\n%s\ninstead of %d:\n%s", r, b1.s, q, b2.s);
		MC_CHECK(mc_live == live, "leak", "%ld blocks are lost", mc_live - live);
		if (calls > 1) mc_nontrivial();
		mc_outcome(mc_hs(mc_hu(MC_H0, calls), b1.s));
		for (k = 2; k < 2 * calls + 2; k++) {
			late = k & 1; late_in = 0; cb_fail_at = k / 2; cbn = 0; cb_failed = 0; cb_ret = rets[k % 3];
			q = call(g, v, complete, &b2);
			MC_CHECK(cb_failed == 1, "calls", "the call is not the same the second time");
			MC_CHECK(q < 0 && errno == EXFULL, "cb-fail", "callback %ld/2 fails, but the call gives %s, errno %d", k, q < 0 ? "NULL" : b2.s, errno);
			MC_CHECK(mc_live == live, "leak", "callback %ld/2 fails: %ld blocks are lost", k, mc_live - live);
		}
		cb_fail_at = 0;
		q = call(g, v, complete, &b2);
		MC_CHECK(r == q && !strcmp(b1.s, b2.s), "after", "after failures:\n%s\ninstead of:\n%s", b2.s, b1.s);
		cur_on = 0;
		mc_state(mc_hu(mc_hu(mc_hs(MC_H0, b3.s), i), complete));
	}
	ec_strvec_free(v);
}
static void containers(int t)
{
	static const char *const lines[] = { "", "a", "b", "a b", "a ab", "a b ab", "'a' b", "a 'a b'", "a 'a", "ab", "a b ", "a a a", "'a", "b a b a", "a  ",
		"ab a b a", "( a ) c", "a b a b (", "ab ( a", "x", "a x", "a b x", "b b b", "a a b", " a", "\"a\" b" };
	static const char *const words[] = { "a", "b", "ab", "c", "(", ")", "" };
	struct ec_node *g, *ref;
	const char *tok[5];
	int i, n, j, idx[5];
	for (i = 0; i < NCONT; i++) {
		if (!mc_next()) continue;
		mc_desc("container %d", i);
		inits = frees = 0;
		leaf = ec_node_str;
		ref = container(i);
		leaf = mk_ustr;
		g = container(i);
		MC_CHECK(g && ref, "create", "the grammar cannot be created");
		for (j = 0; j < (int)(sizeof(lines) / sizeof(*lines)); j++) one_input(i, g, ref, &lines[j], 1);
		for (n = 0; n <= 3 + t; n++) {
			for (j = 0; j < n; j++) idx[j] = 0;
			for (;;) {
				for (j = 0; j < n; j++) tok[j] = words[idx[j]];
				one_input(i, g, ref, tok, n);
				for (j = n - 1; j >= 0 && ++idx[j] == 7; j--) idx[j] = 0;
				if (j < 0) break;
			}
		}
		mc_desc("container %d, free", i);
		ec_node_free(g);
		ec_node_free(ref);
		MC_CHECK(inits == frees, "freed", "%ld nodes are created, %ld are freed", inits, frees);
		mc_end();
	}
}
/* ---- creation ------------------------------------------------------------ */
static size_t psize;
static int init_ret, seen_init, seen_free;
static int v_init(struct ec_node *node)
{
	unsigned char *p = ec_node_priv(node);
	seen_init++;
	for (size_t i = 0; i < psize; i++) {
		MC_CHECK(p[i] == 0, "priv-zero", "byte %zu of %zu of the private area is not 0", i, psize);
		p[i] = i * 7 + 1;
	}
	if (init_ret < 0) errno = EXFULL;
	return init_ret;
}
static void v_free(struct ec_node *node)
{
	unsigned char *p = ec_node_priv(node);
	seen_free++;
	for (size_t i = 0; i < psize; i++) MC_CHECK(p[i] == (unsigned char)(i * 7 + 1), "priv", "byte %zu of %zu of the private area changed", i, psize);
}
static int match_len;
PARSE(len_parse) { (void)node; (void)ps; (void)v; return match_len; }
static void creation(void)
{
	static const size_t sizes[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 65536, 1 << 20 };
	struct ec_node *n, *nodes[8];
	size_t k;
	long live;
	int m, i, j;
	for (k = 0; k < sizeof(sizes) / sizeof(*sizes); k++)
		for (m = 0; m < 16; m++) {      /* which callbacks exist, does the initialization fail */
			struct ec_node_type t = { .name = "u_tmp", .size = sizes[k], .init_priv = m & 1 ? v_init : NULL, .free_priv = m & 2 ? v_free : NULL };
			if (!mc_next()) continue;
			psize = m & 1 ? sizes[k] : 0;
			init_ret = m & 4 ? rets[k % 3] : 0;
			mc_desc("private size %zu, callbacks %d, init %d", sizes[k], m & 3, init_ret);
			seen_init = seen_free = 0;
			live = mc_live;
			errno = 0;
			n = ec_node_from_type(&t, m & 8 ? "" : "id");
			mc_trans(1);
			MC_CHECK(seen_init == (m & 1), "init", "init_priv is called %d times", seen_init);
			if ((m & 1) && init_ret < 0) {
				MC_CHECK(n == NULL && errno == EXFULL, "init-fail", "init_priv fails, but the node is %s, errno %d", n ? "created" : "NULL", errno);
				MC_CHECK(mc_live == live, "leak", "init_priv fails: %ld blocks are lost", mc_live - live);
				MC_CHECK(seen_free == 0, "free", "init_priv fails, free_priv is called");
			} else {
				struct ec_strvec *v = EC_STRVEC("a", "b");
				struct ec_comp *c;
				struct ec_config *cf;
				char *d, *out = NULL;
				size_t len = 0;
				FILE *f = open_memstream(&out, &len);
				MC_CHECK(n != NULL, "create", "the node cannot be created");
				/* a type without callbacks: parsing is an error, completion gives an unknown item, the rest has defaults */
				errno = 0;
				MC_CHECK(ec_parse_strvec(n, v) == NULL && errno == ENOTSUP, "no-parse", "parse without a callback: errno %d", errno);
				c = ec_complete_strvec(n, v);
				MC_CHECK(c && ec_comp_count(c, EC_COMP_ALL) == 0, "no-complete", "completion of two tokens without a callback");
				ec_comp_free(c);
				c = ec_complete(n, "x");
				MC_CHECK(c && ec_comp_count(c, EC_COMP_ALL) == 1 && ec_comp_count(c, EC_COMP_UNKNOWN) == 1, "no-complete", "completion without a callback");
				MC_CHECK(ec_comp_item_get_node(ec_comp_iter_first(c, EC_COMP_ALL)) == n, "no-complete", "node of the item");
				ec_comp_free(c);
				d = ec_node_desc(n);
				MC_CHECK(d && !strcmp(d, "<u_tmp>"), "no-desc", "description %s", d);
				ec_free(d);
				MC_CHECK(ec_node_get_children_count(n) == 0, "no-children", "children");
				MC_CHECK(ec_node_find(n, "id") == (m & 8 ? NULL : n) && ec_node_find(n, "other") == NULL, "find", "ec_node_find()");
				ec_node_dump(f, n);
				fclose(f);
				MC_CHECK(out && strstr(out, "type=u_tmp"), "dump", "dump: %s", out);
				free(out);
				cf = ec_config_dict();
				MC_CHECK(cf != NULL, "config", "ec_config_dict()");
				errno = 0;
				MC_CHECK(ec_node_set_config(n, cf) < 0 && errno == EINVAL && ec_node_get_config(n) == NULL, "no-schema", "a configuration without a schema");
				ec_strvec_free(v);
				MC_CHECK(ec_dict_len(ec_node_attrs(n)) == 0, "attrs", "the new node has attributes");
				for (i = 0; i < 3; i++) MC_CHECK(ec_node_clone(n) == n, "clone", "clone");
				for (i = 0; i < 3; i++) ec_node_free(n);
				MC_CHECK(seen_free == 0, "free", "freed while it has an owner");
				ec_node_free(n);
				MC_CHECK(seen_free == !!(m & 2), "free", "free_priv is called %d times", seen_free);
				mc_nontrivial();
			}
			MC_CHECK(mc_live == live, "leak", "%ld blocks are lost", mc_live - live);
			mc_state(mc_hu(mc_hu(MC_H0, k), m));
			mc_end();
		}
	/* nodes side by side do not share their private area */
	for (k = 0; k < 24; k++) {
		struct ec_node_type t = { .name = "u_tmp", .size = sizes[k], .init_priv = v_init, .free_priv = v_free };
		if (!mc_next()) continue;
		psize = sizes[k]; init_ret = 0; seen_init = seen_free = 0;
		mc_desc("8 nodes, private size %zu", psize);
		for (i = 0; i < 8; i++) nodes[i] = ec_node_from_type(&t, "x");
		for (i = 0; i < 8; i++) { j = i * 3 % 8; ec_node_free(nodes[j]); }
		MC_CHECK(seen_init == 8 && seen_free == 8, "free", "%d initialized, %d freed", seen_init, seen_free);
		mc_trans(16);
		mc_end();
	}
	/* a parse callback that claims to match: between nothing and more than there is */
	for (i = 0; i <= 4; i++)
		for (j = 0; j <= 7; j++)
			for (m = 0; m < 6; m++) {
				static const char *const tok[] = { "a", "b", "c", "d" };
				struct ec_node_type t = { .name = "u_len", .parse = len_parse };
				struct ec_strvec *v;
				struct ec_pnode *p;
				int ok = j <= i, total = j;
				if (!mc_next()) continue;
				match_len = j == 7 ? 1000000 : j == 6 ? -3 : j;
				if (j == 6) ok = 0;
				mc_desc("parse callback gives %d with %d tokens, below %d", match_len, i, m);
				v = mk_strvec(tok, i);
				n = ec_node_from_type(&t, "x");
				switch (m) {
				case 1: n = ec_node_option("c", n); break;
				case 2: n = EC_NODE_SEQ("c", n); break;
				case 3: n = EC_NODE_OR("c", ec_node_str("z", "z"), n); break;
				case 4: n = ec_node_many("c", n, 0, 1); if (j == 0) total = 0; break;
				case 5: n = EC_NODE_SUBSET("c", n); break;
				}
				p = ec_parse_strvec(n, v);
				mc_trans(1);
				if (m == 5 && i == 0) MC_CHECK(p && !ec_pnode_matches(p), "len", "subset of nothing");
				else if (!ok) MC_CHECK(p == NULL, "len", "the callback claims %d of %d tokens: accepted", match_len, i);
				else {
					MC_CHECK(p && ec_pnode_matches(p) && ec_strvec_len(ec_pnode_get_strvec(p)) == (size_t)total, "len", "%d of %d tokens: not %d", match_len, i, total);
					for (int x = 0; x < total; x++)
						MC_CHECK(!strcmp(ec_strvec_val(ec_pnode_get_strvec(p), x), tok[x]), "len", "token %d", x);
				}
				ec_pnode_free(p);
				ec_node_free(n);
				ec_strvec_free(v);
				mc_end();
			}
}
/* ---- configuration --------------------------------------------------------- */
static const struct ec_config_schema u_schema[] = {
	{ .key = "v", .type = EC_CONFIG_TYPE_INT64 }, { .key = "n", .type = EC_CONFIG_TYPE_NODE }, { .type = EC_CONFIG_TYPE_NONE },
};
static int64_t sc_val;
static int sc_calls;
static int u_set_config(struct ec_node *node, const struct ec_config *config)
{
	const struct ec_config *c = ec_config_dict_get(config, "v");
	int64_t *p = ec_node_priv(node);
	sc_calls++;
	if (c == NULL || c->i64 < 0) { errno = EXFULL; return -1; }
	*p = sc_val = c->i64;
	return 0;
}
static size_t u_cfg_count(const struct ec_node *node)
{
	const struct ec_config *c = ec_node_get_config((struct ec_node *)node);
	return c && ec_config_dict_get(c, "n");
}
static int u_cfg_child(const struct ec_node *node, size_t i, struct ec_node **child, unsigned int *refs)
{
	const struct ec_config *c = ec_node_get_config((struct ec_node *)node);
	if (i || c == NULL || (c = ec_config_dict_get(c, "n")) == NULL) return -1;
	*child = c->node;
	*refs = 1;
	return 0;
}
static void nofree(struct ec_node *node) { (void)node; }
static void configs(int t)
{
	/* operations: accepted values, refused by the callback, refused by the schema, with a node, with the node itself (loop) */
	enum { OK1, OK2, NEG, EMPTY, BADKEY, BADTYPE, LEAF, LOOP, NOPS };
	struct ec_node_type ty = { .name = "u_cfg", .schema = u_schema, .size = 8, .set_config = u_set_config, .free_priv = nofree,
		.get_children_count = u_cfg_count, .get_child = u_cfg_child };
	int depth, i, j, idx[6];
	for (int cb = 0; cb < 2; cb++) {
		ty.set_config = cb ? u_set_config : NULL;
		for (depth = 0; depth <= 3 + t; depth++) {
			for (i = 0; i < depth; i++) idx[i] = 0;
			for (;;) {
				if (mc_next()) {
					struct ec_node *n = ec_node_from_type(&ty, "c");
					int64_t have = -1;
					int haven = 0, calls = 0;
					mc_desc("configuration of a user type, callback %d:", cb);
					sc_calls = 0;
					for (i = 0; i < depth; i++) {
						struct ec_config *c = ec_config_dict();
						const struct ec_config *now;
						int r, ok, op = idx[i], e = 0;
						mc_desc_add(" %d", op);
						r = 0;
						switch (op) {
						case OK1: case LEAF: case LOOP: r = ec_config_dict_set(c, "v", ec_config_i64(1)); break;
						case OK2: r = ec_config_dict_set(c, "v", ec_config_i64(INT64_MAX)); break;
						case NEG: r = ec_config_dict_set(c, "v", ec_config_i64(-5)); break;
						case BADKEY: r = ec_config_dict_set(c, "w", ec_config_i64(1)); break;
						case BADTYPE: r = ec_config_dict_set(c, "v", ec_config_string("1")); break;
						}
						if (op == LEAF) r |= ec_config_dict_set(c, "n", ec_config_node(ec_node_str("s", "x")));
						if (op == LOOP) r |= ec_config_dict_set(c, "n", ec_config_node(ec_node_clone(n)));
						MC_CHECK(r == 0, "config", "cannot build the configuration");
						ok = op != BADKEY && op != BADTYPE && !(cb && (op == NEG || op == EMPTY));
						calls += cb && op != BADKEY && op != BADTYPE;
						if (op == NEG || op == EMPTY) e = EXFULL;
						errno = 0;
						r = ec_node_set_config(n, c);
						mc_trans(1);
						MC_CHECK((r == 0) == ok, "config", "the configuration is %s", r == 0 ? "accepted" : "refused");
						if (!ok && e) MC_CHECK(errno == e, "config-errno", "errno %d", errno);
						MC_CHECK(sc_calls == calls, "config-call", "the callback is called %d times instead of %d", sc_calls, calls);
						if (ok) {
							have = op == OK2 ? INT64_MAX : op == NEG ? -5 : op == EMPTY ? -2 : 1;
							haven = op == LEAF ? 1 : op == LOOP ? 2 : 0;
						}
						now = ec_node_get_config(n);
						MC_CHECK((now != NULL) == (have != -1), "config-kept", "configuration %p", (void *)now);
						if (now) {
							const struct ec_config *x = ec_config_dict_get(now, "v"), *y = ec_config_dict_get(now, "n");
							MC_CHECK((x == NULL) == (have == -2) && (x == NULL || x->i64 == have), "config-kept", "another value");
							MC_CHECK((y != NULL) == (haven > 0) && (haven != 2 || y->node == n), "config-kept", "another node");
							if (cb) MC_CHECK(*(int64_t *)ec_node_priv(n) == have, "config-priv", "private value");
						}
						MC_CHECK(ec_node_find(n, "s") != NULL ? haven == 1 : haven != 1, "config-child", "the child from the configuration");
						mc_state(mc_hu(mc_hu(mc_hu(MC_H0, have), haven), cb));
					}
					mc_nontrivial();
					ec_node_free(n);
					mc_end();
				}
				for (j = depth - 1; j >= 0 && ++idx[j] == NOPS; j--) idx[j] = 0;
				if (j < 0) break;
			}
		}
	}
}
/* ---- more tokens than any counter of 8 or 16 bits can hold ----------------- */
static struct ec_node *mk_span(unsigned n) { struct ec_node *x = u_new(&t_span, "sp"); pv(x, "")->span = n; return x; }
static void big_inputs(void)
{
	static const int len[] = { 255, 256, 257, 4096, 32767, 32768, 32769, 65535, 65536, 65537 };
	for (size_t l = 0; l < sizeof(len) / sizeof(*len); l++) {
		struct ec_strvec *all;
		char b[16];
		if (!mc_next()) continue;
		mc_desc("%d tokens", len[l]);
		all = ec_strvec();
		for (int i = 0; i < len[l]; i++) { sprintf(b, "w%d", i); if (ec_strvec_add(all, b) < 0) mc_bug("alloc"); }
		for (int k = 0; k < 9; k++) {
			int n = len[l], q = n / 16, want = n;
			struct ec_node *g;
			struct ec_strvec *v;
			struct ec_pnode *p;
			const struct ec_pnode *s;
			char *line = NULL;
			size_t sum = 0;
			mc_desc("%d tokens, grammar %d", n, k);
			cur_on = 0;
			switch (k) {
			case 0: g = mk_span(0); break;
			case 1: g = mk_span(n - 1); want = n - 1; break;
			case 2: g = ec_node_many("g", mk_span(q), 1, 0); want = n / q * q; break;
			case 3: g = EC_NODE_SEQ("g", mk_span(q), mk_span(n - q - 1), ec_node_any("any", NULL)); break;
			case 4: g = EC_NODE_OR("g", mk_span(n + 1), mk_span(n)); break;
			case 5: g = ec_node_option("g", mk_span(n - 2)); want = n - 2; break;
			case 6: g = EC_NODE_SUBSET("g", ec_node_str(EC_NO_ID, "x"), mk_span(q), mk_span(n - q)); break;
			case 7: g = EC_NODE_SEQ("g", ec_node_option(EC_NO_ID, mk_span(n + 1)), ec_node_bypass(EC_NO_ID, mk_span(n))); break;
			default: g = ec_node_sh_lex("g", EC_NODE_SEQ(EC_NO_ID, mk_span(n - 1), ec_node_any("any", NULL))); want = 1; break;
			}
			MC_CHECK(g != NULL, "create", "cannot build the grammar");
			v = k == 8 ? ec_strvec() : ec_strvec_ndup(all, 0, n);
			if (k == 8) {
				char *e = line = malloc(n * 8 + 1);
				for (int i = 0; i < n; i++) e += sprintf(e, "%sw%d", i ? " " : "", i);
				if (ec_strvec_add(v, line) < 0) mc_bug("alloc");
			}
			p = ec_parse_strvec(g, v);
			mc_trans(1);
			MC_CHECK(p != NULL && ec_pnode_matches(p), "big-match", "no match");
			MC_CHECK(ec_pnode_len(p) == (size_t)want, "big-len", "%zu tokens match instead of %d", ec_pnode_len(p), want);
			for (s = ec_pnode_find(p, "sp"); s; s = ec_pnode_find_next(p, s, "sp", 1)) {
				const struct ec_strvec *sv = ec_pnode_get_strvec(s);
				size_t m = ec_strvec_len(sv);
				for (size_t i = 0; i < m; i += m > 1 ? m - 1 : 1) {
					sprintf(b, "w%zu", sum + i);
					MC_CHECK(!strcmp(ec_strvec_val(sv, i), b), "big-token", "token %zu of the node is %s instead of %s", i, ec_strvec_val(sv, i), b);
				}
				sum += m;
			}
			MC_CHECK(sum == (size_t)(k == 8 ? n - 1 : k == 3 ? n - 1 : want), "big-sum", "the nodes match %zu tokens", sum);
			if (k == 3 || k == 8) {
				s = ec_pnode_find(p, "any");
				sprintf(b, "w%d", n - 1);
				MC_CHECK(s && ec_pnode_len(s) == 1 && !strcmp(ec_strvec_val(ec_pnode_get_strvec(s), 0), b), "big-last", "last token");
			}
			ec_pnode_free(p);
			if (k < 6 && k != 2 && k != 3) { /* completion of the last token */
				struct ec_comp *c = ec_complete_strvec(g, v);
				size_t cw = k == 0 ? 1 : k == 4 ? 2 : 0;
				MC_CHECK(c != NULL && ec_comp_count(c, EC_COMP_ALL) == cw, "big-complete", "%zu completions instead of %zu", c ? ec_comp_count(c, EC_COMP_ALL) : 0, cw);
				ec_comp_free(c);
			}
			ec_strvec_free(v);
			ec_node_free(g);
			free(line);
			mc_state(mc_hu(mc_hu(MC_H0, n), k));
			mc_nontrivial();
		}
		ec_strvec_free(all);
		mc_end();
	}
}
void mc_run(void)
{
	struct ec_node_type *ts[] = { &t_str, &t_any, &t_empty, &t_span, &t_wrap, &t_or };
	for (int i = 0; i < 6; i++) if (ec_node_type_register(ts[i], 0) < 0) mc_fail("register", "a new type is refused");
	creation();
	big_inputs();
	configs(mc_thorough);
	containers(mc_thorough);
	mixed(mc_thorough);
}
