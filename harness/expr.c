/* C14: expression nodes. Every configuration of operators, every token list; the match and the completion are
 * those of the equivalent grammar (reference of gram.c), the evaluation is compared with a recursive descent
 * evaluator, every callback failing in turn, every value counted. */
#include <ecoli.h>
#include "gram.h"

#define MAXOP 3
struct conf {
	const char *val[MAXOP];   /* alternatives of the value node */
	const char *bin[MAXOP];   /* tightest first; "" is the empty operator */
	const char *pre[MAXOP], *post[MAXOP];
	const char *open[MAXOP], *close[MAXOP];
	int share;                /* the first binary operator node is also the first prefix operator */
};
static const struct conf *cf;
static struct mc_buf b1, b2, cdesc;
static int cnt(const char *const *v) { int i; for (i = 0; i < MAXOP && v[i]; i++); return i; }

/* ---- reference evaluator ------------------------------------------------- */
struct rv { char *s; int n; };    /* text, number of callbacks needed */
static const char *const *in;
static int n_in;
static struct rv *rv_new(int n, const char *f, ...)
{
	struct rv *v = malloc(sizeof(*v));
	va_list ap;
	va_start(ap, f);
	if (vasprintf(&v->s, f, ap) < 0) mc_bug("alloc");
	va_end(ap);
	v->n = n;
	return v;
}
static void rv_free(struct rv *v) { if (v) { free(v->s); free(v); } }
static int tok_is(int p, const char *s) { return p < n_in && !strcmp(in[p], s); }
static struct rv *r_level(int level, int *pos);
static struct rv *r_expr(int *pos) { return r_level(cnt(cf->bin), pos); }
static struct rv *r_post(int *pos)
{
	struct rv *v, *r;
	int i, p;
	for (i = 0; i < cnt(cf->val); i++)
		if (tok_is(*pos, cf->val[i])) { (*pos)++; return rv_new(1, "%s", cf->val[i]); }
	for (i = 0; i < cnt(cf->pre); i++)
		if (tok_is(*pos, cf->pre[i])) {
			p = *pos + 1;
			v = r_expr(&p);
			if (v == NULL) break;
			*pos = p;
			r = rv_new(v->n + 1, "{%s %s}", cf->pre[i], v->s);
			rv_free(v);
			return r;
		}
	for (i = 0; i < cnt(cf->open); i++)
		if (tok_is(*pos, cf->open[i])) {
			p = *pos + 1;
			v = r_expr(&p);
			if (v && tok_is(p, cf->close[i])) {
				*pos = p + 1;
				r = rv_new(v->n + 1, "%s%s%s", cf->open[i], v->s, cf->close[i]);
				rv_free(v);
				return r;
			}
			rv_free(v);
		}
	return NULL;
}
static struct rv *r_level(int level, int *pos)
{
	struct rv *v, *w, *r;
	int i, p;
	if (level == 0) {
		v = r_post(pos);
		while (v) {
			for (i = 0; i < cnt(cf->post); i++)
				if (tok_is(*pos, cf->post[i])) break;
			if (i == cnt(cf->post)) break;
			(*pos)++;
			r = rv_new(v->n + 1, "{%s %s}", v->s, cf->post[i]);
			rv_free(v);
			v = r;
		}
		return v;
	}
	v = r_level(level - 1, pos);
	while (v) {
		p = *pos;
		if (*cf->bin[level - 1]) {
			if (!tok_is(p, cf->bin[level - 1])) break;
			p++;
		}
		w = r_level(level - 1, &p);
		if (w == NULL) break;
		*pos = p;
		r = rv_new(v->n + w->n + 1, "{%s %s %s}", v->s, cf->bin[level - 1], w->s);
		rv_free(v); rv_free(w);
		v = r;
	}
	return v;
}

/* ---- the equivalent grammar ---------------------------------------------- */
static struct ast *str_or(const char *const *v, int force)
{
	const struct ast *c[MAXOP];
	int n = cnt(v);
	for (int i = 0; i < n; i++) c[i] = ast_leaf(G_STR, v[i]);
	if (n == 1 && !force) return (struct ast *)c[0];
	return ast_n(G_OR, n, c);
}
static struct ast *equivalent(void)
{
	const struct ast *c[8], *d[4];
	struct ast *term, *post;
	int n = 0, i;
	c[n++] = str_or(cf->val, 0);
	d[0] = str_or(cf->pre, 1); d[1] = ast_leaf(G_ROOT, NULL);
	c[n++] = ast_n(G_SEQ, 2, d);
	for (i = 0; i < cnt(cf->open); i++) {
		d[0] = ast_leaf(G_STR, cf->open[i]); d[1] = ast_leaf(G_ROOT, NULL); d[2] = ast_leaf(G_STR, cf->close[i]);
		c[n++] = ast_n(G_SEQ, 3, d);
	}
	post = ast_n(G_OR, n, c);
	d[0] = post; d[1] = ast_many(str_or(cf->post, 1), 0, 0);
	term = ast_n(G_SEQ, 2, d);
	for (i = 0; i < cnt(cf->bin); i++) {
		d[0] = *cf->bin[i] ? ast_leaf(G_STR, cf->bin[i]) : ast_leaf(G_EMPTY, NULL);
		d[1] = term;
		d[1] = ast_many(ast_n(G_SEQ, 2, d), 0, 0);
		d[0] = term;
		term = ast_n(G_SEQ, 2, d);
	}
	return term;
}

/* ---- the real node ------------------------------------------------------- */
static const char *eid = EC_NO_ID, *vid = EC_NO_ID;   /* the identifiers play no role */
static struct ec_node *op_node(const char *s)
{
	return *s ? ec_node_str(eid, s) : ec_node("empty", eid);
}
static int add(struct ec_node *e, int what)
{
	int i, r = 0;
	struct ec_node *n;
	switch (what) {
	case 0:
		if (cnt(cf->val) == 1) n = ec_node_str(vid, cf->val[0]);
		else {
			n = ec_node("or", vid);
			for (i = 0; i < cnt(cf->val); i++) r |= ec_node_or_add(n, ec_node_str(vid, cf->val[i]));
		}
		return r | ec_node_expr_set_val_node(e, n);
	case 1:
		for (i = 0; i < cnt(cf->bin); i++) {
			n = op_node(cf->bin[i]);
			if (i == 0 && cf->share) r |= ec_node_expr_add_pre_op(e, ec_node_clone(n));
			r |= ec_node_expr_add_bin_op(e, n);
		}
		return r;
	case 2:
		for (i = cf->share; i < cnt(cf->pre); i++) r |= ec_node_expr_add_pre_op(e, op_node(cf->pre[i]));
		return r;
	case 3:
		for (i = 0; i < cnt(cf->post); i++) r |= ec_node_expr_add_post_op(e, op_node(cf->post[i]));
		return r;
	default:
		for (i = 0; i < cnt(cf->open); i++)
			r |= ec_node_expr_add_parenthesis(e, op_node(cf->open[i]), op_node(cf->close[i]));
		return r;
	}
}
static const int orders[4][5] = { { 0, 1, 2, 3, 4 }, { 4, 3, 2, 1, 0 }, { 1, 4, 0, 3, 2 }, { 3, 0, 4, 1, 2 } };
static struct ec_node *mk_expr(int order)
{
	struct ec_node *e = ec_node("expr", "e");
	static const char *const eids[4] = { EC_NO_ID, "val", "e", "x" }, *const vids[4] = { EC_NO_ID, "open", "e", "val" };
	if (e == NULL) mc_bug("cannot create an expression");
	eid = eids[order]; vid = vids[order];
	for (int i = 0; i < 5; i++)
		MC_CHECK(add(e, orders[order][i]) == 0, "config", "cannot configure the expression");
	return e;
}

/* ---- callbacks ----------------------------------------------------------- */
struct val { char *s; struct val *next, *prev; };
static struct val live = { .next = &live, .prev = &live };
static long nlive, calls, fail_call, frees;
static int inplace;               /* operators reuse their operand */
static const struct ec_pnode *seen[256];
static int *userctx_magic = (int *)&nlive;
static struct val poison;
static struct val *v_new(const char *f, ...)
{
	struct val *v = malloc(sizeof(*v));
	va_list ap;
	va_start(ap, f);
	if (vasprintf(&v->s, f, ap) < 0) mc_bug("alloc");
	va_end(ap);
	v->next = live.next; v->prev = &live; live.next->prev = v; live.next = v;
	nlive++;
	return v;
}
static void v_drop(struct val *v, const char *who)
{
	struct val *w;
	for (w = live.next; w != &live && w != v; w = w->next);
	MC_CHECK(w == v, "bad-value", "%s is given a value that is not alive", who);
	v->prev->next = v->next; v->next->prev = v->prev;
	free(v->s); free(v);
	nlive--;
}
static const char *v_text(struct val *v, const char *who)
{
	struct val *w;
	for (w = live.next; w != &live && w != v; w = w->next);
	MC_CHECK(w == v, "bad-value", "%s is given a value that is not alive", who);
	return v->s;
}
static const char *ptext(const struct ec_pnode *p, int len)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	MC_CHECK((int)ec_strvec_len(v) == len, "pnode", "callback called with a parse node of %zu strings", ec_strvec_len(v));
	return len ? ec_strvec_val(v, 0) : "";
}
static int enter(const struct ec_pnode *p, void *ctx, void **result)
{
	MC_CHECK(ctx == userctx_magic, "userctx", "callback called with another user context");
	if (p != NULL)
		for (int i = 0; i < calls; i++) MC_CHECK(seen[i] != p, "twice", "two callbacks for the same parse node");
	if (calls < 256) seen[calls] = p;
	calls++;
	if (calls == fail_call) { *result = &poison; errno = EPERM; return -1; }
	return 0;
}
static int one_of(const char *const *v, const char *s)
{
	for (int i = 0; i < cnt(v); i++) if (!strcmp(v[i], s)) return 1;
	return 0;
}
static int cb_var(void **result, void *ctx, const struct ec_pnode *var)
{
	if (enter(var, ctx, result) < 0) return -1;
	*result = v_new("%s", ptext(var, 1));
	return 0;
}
static int unary(void **result, struct val *v, const char *f, const char *a, const char *b)
{
	struct val *r;
	r = v_new(f, a, b);
	if (inplace) {
		char *t = r->s; r->s = v->s; v->s = t;
		v_drop(r, "test");
		*result = v;
	} else {
		v_drop(v, "an operator");
		*result = r;
	}
	return 0;
}
static int cb_pre(void **result, void *ctx, void *operand, const struct ec_pnode *op)
{
	const char *t = v_text(operand, "eval_pre_op");
	MC_CHECK(one_of(cf->pre, ptext(op, 1)), "op-kind", "eval_pre_op called for %s", ptext(op, 1));
	if (enter(op, ctx, result) < 0) return -1;
	return unary(result, operand, "{%s %s}", ptext(op, 1), t);
}
static int cb_post(void **result, void *ctx, void *operand, const struct ec_pnode *op)
{
	const char *t = v_text(operand, "eval_post_op");
	MC_CHECK(one_of(cf->post, ptext(op, 1)), "op-kind", "eval_post_op called for %s", ptext(op, 1));
	if (enter(op, ctx, result) < 0) return -1;
	return unary(result, operand, "{%s %s}", t, ptext(op, 1));
}
static int cb_bin(void **result, void *ctx, void *o1, const struct ec_pnode *op, void *o2)
{
	const char *t1 = v_text(o1, "eval_bin_op"), *t2 = v_text(o2, "eval_bin_op"), *o;
	struct val *v1 = o1, *r;
	MC_CHECK(o1 != o2, "bad-value", "eval_bin_op called with twice the same value");
	o = ptext(op, (int)ec_pnode_len(op) == 0 ? 0 : 1);
	MC_CHECK(one_of(cf->bin, o), "op-kind", "eval_bin_op called for '%s'", o);
	if (enter(op, ctx, result) < 0) return -1;
	r = v_new("{%s %s %s}", t1, o, t2);
	v_drop(o2, "eval_bin_op");
	if (inplace) {
		char *t = r->s; r->s = v1->s; v1->s = t;
		v_drop(r, "test");
		*result = v1;
	} else {
		v_drop(o1, "eval_bin_op");
		*result = r;
	}
	return 0;
}
static int cb_paren(void **result, void *ctx, const struct ec_pnode *open, const struct ec_pnode *close, void *value)
{
	const char *t = v_text(value, "eval_parenthesis"), *o = ptext(open, 1), *c = ptext(close, 1);
	struct val *v = value, *r;
	int i;
	for (i = 0; i < cnt(cf->open); i++) if (!strcmp(o, cf->open[i]) && !strcmp(c, cf->close[i])) break;
	MC_CHECK(i < cnt(cf->open), "paren", "eval_parenthesis called with %s and %s", o, c);
	if (enter(open, ctx, result) < 0) return -1;
	r = v_new("%s%s%s", o, t, c);
	if (inplace) {
		char *x = r->s; r->s = v->s; v->s = x;
		v_drop(r, "test");
		*result = v;
	} else {
		v_drop(v, "eval_parenthesis");
		*result = r;
	}
	return 0;
}
static void cb_free(void *result, void *ctx)
{
	MC_CHECK(ctx == userctx_magic, "userctx", "eval_free called with another user context");
	v_drop(result, "eval_free");
	frees++;
}
static const struct ec_node_expr_eval_ops ops = { cb_var, cb_pre, cb_post, cb_bin, cb_paren, cb_free };

static void check_eval(struct ec_node *e, struct ec_pnode *p, struct rv *rv)
{
	void *res;
	int r, n;
	for (inplace = 0; inplace < 2; inplace++)
		for (n = 0; n <= rv->n; n++) {
			calls = 0; frees = 0; fail_call = n;
			res = &poison;
			r = ec_node_expr_eval(&res, e, p, &ops, userctx_magic);
			mc_trans(1);
			if (n == 0) {
				MC_CHECK(r == 0, "eval", "the evaluation fails");
				MC_CHECK(!strcmp(v_text(res, "the caller"), rv->s), "value", "the value is %s instead of %s", ((struct val *)res)->s, rv->s);
				MC_CHECK(calls == rv->n, "calls", "%ld callbacks instead of %d", calls, rv->n);
				MC_CHECK(frees == 0, "freed", "an intermediate value of a successful evaluation is freed");
				v_drop(res, "test");
			} else {
				MC_CHECK(r < 0, "fail-ignored", "the failure of callback %d is ignored", n);
				MC_CHECK(calls == n, "fail-continue", "%ld callbacks are called after one failed", calls - n);
			}
			MC_CHECK(nlive == 0, "leak-value", "%ld values are not released%s", nlive, n ? " when a callback fails" : "");
		}
}
static void eval_errors(struct ec_node *e, struct ec_pnode *p)
{
	struct ec_node_expr_eval_ops o;
	struct ec_node *s;
	void *res;
	int i;
	calls = 0; fail_call = 0;
	for (i = 0; i < 6; i++) {
		o = ops;
		((void **)&o)[i] = NULL;
		errno = 0;
		MC_CHECK(ec_node_expr_eval(&res, e, p, &o, userctx_magic) < 0 && errno == EINVAL, "eval-null", "evaluation without callback %d is not refused", i);
	}
	errno = 0;
	MC_CHECK(ec_node_expr_eval(&res, e, p, NULL, userctx_magic) < 0 && errno == EINVAL, "eval-null", "evaluation without callbacks is not refused");
	s = ec_node_str(EC_NO_ID, "x");
	errno = 0;
	MC_CHECK(ec_node_expr_eval(&res, s, p, &ops, userctx_magic) < 0 && errno != 0, "eval-type", "evaluation with a node of another type is not refused");
	ec_node_free(s);
	MC_CHECK(calls == 0, "eval-null", "callbacks are called by a refused evaluation");
}

static int eq(const char *a, const char *b) { return a == NULL || b == NULL ? a == b : !strcmp(a, b); }
static void check_input(struct gram *gr, struct ec_node **e, int ne, struct ec_node *wrap, const char *const *tok, int n)
{
	struct ec_strvec *v, *v2;
	struct ec_pnode *p;
	struct ec_comp *c;
	struct ec_comp_item *it;
	struct rcomp rc;
	struct rt *rt;
	struct rv *rv;
	int r, pos = 0, i, k;
	uint64_t h;

	mc_buf_reset(&b1);
	tok_text(&b1, tok, n);
	mc_desc("%s input %s", cdesc.s, b1.s);
	in = tok; n_in = n;
	rv = r_expr(&pos);
	r = ref_parse(gr, tok, n, &rt);
	if (r == R_DIVERGE) mc_bug("reference diverges");
	if ((rv != NULL) != (r >= 0) || (rv && r != pos)) mc_bug("the two references differ");
	rt_free(rt);
	v = mk_strvec(tok, n);
	for (k = 0; k < ne; k++) {
		p = ec_parse_strvec(e[k], v);
		mc_trans(1);
		MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
		MC_CHECK(ec_pnode_matches(p) == (rv != NULL), "match", "the expression %s", rv ? "does not match" : "matches");
		if (rv != NULL) {
			MC_CHECK(ec_pnode_len(p) == (size_t)pos, "len", "the expression matches %zu strings instead of %d", ec_pnode_len(p), pos);
			check_eval(e[k], p, rv);
			if (n <= 1) eval_errors(e[k], p);
		} else {
			void *res;
			errno = 0; calls = 0;
			MC_CHECK(ec_node_expr_eval(&res, e[k], p, &ops, userctx_magic) < 0 && errno == EINVAL && calls == 0, "eval-nomatch",
				"evaluating a tree that does not match is not refused");
		}
		ec_pnode_free(p);
	}
	if (rv != NULL && wrap != NULL) { /* from the root of a larger tree */
		const char *t2[16];
		t2[0] = "w";
		for (i = 0; i < n; i++) t2[i + 1] = tok[i];
		v2 = mk_strvec(t2, n + 1);
		p = ec_parse_strvec(wrap, v2);
		MC_CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == (size_t)pos + 1, "wrap", "the expression does not match inside a sequence");
		check_eval(e[0], p, rv);
		check_eval(e[0], ec_pnode_get_last_child(p), rv);
		ec_pnode_free(p);
		ec_strvec_free(v2);
	}
	h = mc_hu(mc_hs(MC_H0, rv ? rv->s : ""), pos);
	mc_outcome(h);
	if (ref_complete(gr, tok, n, &rc) == R_DIVERGE) mc_bug("reference diverges");
	for (k = 0; k < ne; k++) {
		c = ec_complete_strvec(e[k], v);
		mc_trans(1);
		MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
		i = 0;
		EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
			const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it);
			MC_CHECK(i < rc.n, "extra-item", "more than the %d expected completions: %s", rc.n, s ? s : "(unknown)");
			MC_CHECK(eq(s, rc.it[i].str) && eq(cm, rc.it[i].completion), "item",
				"completion %d is %s instead of %s", i, s ? s : "?", rc.it[i].str ? rc.it[i].str : "?");
			i++;
		}
		MC_CHECK(i == rc.n, "missing-item", "%d completions instead of %d", i, rc.n);
		ec_comp_free(c);
	}
	rcomp_free(&rc);
	ec_strvec_free(v);
	mc_state(mc_hu(mc_hs(h, cdesc.s), n));
	if (rv && rv->n > 1) mc_nontrivial();
	rv_free(rv);
}

static const char *const bins[][MAXOP] = { { 0 }, { "+" }, { "*", "+" }, { "" }, { "*", "" }, { "", "+" }, { "*", "", "+" } };
static const char *const pres[][MAXOP] = { { 0 }, { "!" }, { "!", "*" } };
static const char *const posts[][MAXOP] = { { 0 }, { "^" }, { "^", "+" } };
static const char *const opens[][MAXOP] = { { 0 }, { "(" }, { "(", "[" }, { "(", "(" }, { "|" } };
static const char *const closes[][MAXOP] = { { 0 }, { ")" }, { ")", "]" }, { ")", "]" }, { "|" } };
static const char *const vals[][MAXOP] = { { "1" }, { "1", "2" } };
#define N(x) ((int)(sizeof(x) / sizeof(*(x))))

static void one_conf(const struct conf *c, int maxlen, int orders_n)
{
	static const char *const voc_all[] = { "1", "2", "+", "*", "!", "^", "(", ")", "[", "]", "|" };
	const char *voc[16], *tok[8];
	struct ec_node *e[4], *wrap;
	struct gram gr;
	int nv = 0, i, n, idx[8], unused = 0;

	cf = c;
	mc_buf_reset(&cdesc);
	mc_buf_add(&cdesc, "values");
	for (i = 0; i < cnt(c->val); i++) mc_buf_add(&cdesc, " %s", c->val[i]);
	mc_buf_add(&cdesc, " binary");
	for (i = 0; i < cnt(c->bin); i++) mc_buf_add(&cdesc, " '%s'", c->bin[i]);
	mc_buf_add(&cdesc, " prefix");
	for (i = 0; i < cnt(c->pre); i++) mc_buf_add(&cdesc, " %s", c->pre[i]);
	mc_buf_add(&cdesc, " postfix");
	for (i = 0; i < cnt(c->post); i++) mc_buf_add(&cdesc, " %s", c->post[i]);
	mc_buf_add(&cdesc, " paren");
	for (i = 0; i < cnt(c->open); i++) mc_buf_add(&cdesc, " %s%s", c->open[i], c->close[i]);
	if (c->share) mc_buf_add(&cdesc, " shared");
	mc_desc("%s", cdesc.s);
	for (i = 0; i < N(voc_all); i++) {
		if (one_of(c->val, voc_all[i]) || one_of(c->bin, voc_all[i]) || one_of(c->pre, voc_all[i]) || one_of(c->post, voc_all[i]) ||
				one_of(c->open, voc_all[i]) || one_of(c->close, voc_all[i]))
			voc[nv++] = voc_all[i];
		else if (!unused) { unused = 1; voc[nv++] = "x"; }
	}
	voc[nv] = "";
	if (gram_build(&gr, equivalent(), 0) < 0) mc_bug("cannot build the reference");
	for (i = 0; i < orders_n; i++) e[i] = mk_expr(i);
	wrap = EC_NODE_SEQ("wrap", ec_node_str(EC_NO_ID, "w"), ec_node_clone(e[0]));
	/* keep the cost even: the longer vocabularies get shorter inputs */
	{
		double sz = 1;
		int l;
		for (l = 0; l < maxlen && sz * nv < (mc_thorough ? 20000 : 700); l++) sz *= nv;
		maxlen = l;
	}
	for (n = 0; n <= maxlen; n++) {
		for (i = 0; i < n; i++) idx[i] = 0;
		for (;;) {
			for (i = 0; i < n; i++) tok[i] = voc[idx[i]];
			check_input(&gr, e, n <= 2 ? orders_n : 1, n <= 3 ? wrap : NULL, tok, n);
			/* completion of an empty last word */
			if (n > 0 && n <= 3) {
				tok[n - 1] = "";
				if (idx[n - 1] == 0) check_input(&gr, e, 1, NULL, tok, n);
			}
			for (i = n - 1; i >= 0 && ++idx[i] == nv; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	ec_node_free(wrap);
	for (i = 0; i < orders_n; i++) ec_node_free(e[i]);
	gram_free(&gr);
}
/* not configured enough: an error, not a crash */
static void incomplete(void)
{
	static const struct conf c0 = { .val = { "1" }, .bin = { "+" }, .pre = { "!" }, .post = { "^" }, .open = { "(" }, .close = { ")" } };
	static const char *const t[] = { "1" };
	for (int m = 0; m < 32; m++) {
		int built = (m & 1) && (m & 14);
		struct ec_node *e;
		struct ec_strvec *v;
		struct ec_pnode *p;
		struct ec_comp *c;
		if (!mc_next()) continue;
		cf = &c0;
		mc_desc("expression with parts %x (1 value, 2 binary, 4 prefix, 8 postfix, 16 parentheses)", m);
		e = ec_node("expr", EC_NO_ID);
		for (int i = 0; i < 5; i++)
			if (m >> i & 1) MC_CHECK(add(e, i) == 0, "config", "cannot add part %d", i);
		v = mk_strvec(t, 1);
		errno = 0;
		p = ec_parse_strvec(e, v);
		MC_CHECK(built ? p != NULL && ec_pnode_matches(p) : p == NULL && errno != 0, "incomplete", "parsing gives %s", p ? "a tree" : "an error");
		errno = 0;
		c = ec_complete_strvec(e, v);
		MC_CHECK(built ? c != NULL : c == NULL && errno != 0, "incomplete", "completion gives %s", c ? "a list" : "an error");
		ec_comp_free(c);
		ec_pnode_free(p);
		ec_strvec_free(v);
		ec_node_free(e);
		mc_trans(2);
		mc_end();
	}
	if (mc_next()) {
		struct ec_node *e = ec_node("expr", EC_NO_ID), *s = ec_node_str(EC_NO_ID, "s");
		mc_desc("bad arguments");
#define X(name, n, ...) ec_node_expr_##name(n, __VA_ARGS__)
#define BADARG(call) do { errno = 0; MC_CHECK((call) < 0 && errno != 0, "bad-arg", "%s is not refused", #call); } while (0)
		BADARG(ec_node_expr_set_val_node(e, NULL));
		BADARG(ec_node_expr_add_bin_op(e, NULL));
		BADARG(ec_node_expr_add_pre_op(e, NULL));
		BADARG(ec_node_expr_add_post_op(e, NULL));
		BADARG(ec_node_expr_add_parenthesis(e, NULL, NULL));
		BADARG(ec_node_expr_add_parenthesis(e, op_node("("), NULL));
		BADARG(ec_node_expr_add_parenthesis(e, NULL, op_node(")")));
		BADARG(ec_node_expr_set_val_node(s, op_node("1")));
		BADARG(ec_node_expr_add_bin_op(s, op_node("1")));
		BADARG(ec_node_expr_add_pre_op(s, op_node("1")));
		BADARG(ec_node_expr_add_post_op(s, op_node("1")));
		BADARG(ec_node_expr_add_parenthesis(s, op_node("1"), op_node("2")));
		ec_node_free(s);
		ec_node_free(e);
		mc_end();
	}
}
/* values that contain the expression: f ( expr ) is a value, not looked into */
static int rec_var(void **result, void *ctx, const struct ec_pnode *var)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(var);
	if (enter(var, ctx, result) < 0) return -1;
	mc_buf_reset(&b2);
	for (size_t i = 0; i < ec_strvec_len(v); i++) mc_buf_add(&b2, "%s", ec_strvec_val(v, i));
	*result = v_new("%s", b2.s);
	return 0;
}
static void nested_values(void)
{
	static const struct conf c0 = { .val = { "1" }, .bin = { "+" }, .pre = { "!" }, .post = { "^" }, .open = { "(" }, .close = { ")" } };
	static const char *const t[][10] = { { "f", "1", "g" }, { "f", "1", "+", "1", "g" }, { "1", "+", "f", "1", "+", "1", "g", "^" },
		{ "f", "f", "1", "g", "^", "g", "+", "1" } };
	static const char *const want[] = { "f1g", "f1+1g", "{1 + {f1+1g ^}}", "{ff1g^g + 1}" };
	static const int nc[] = { 1, 1, 4, 3 };
	for (int k = 0; k < 4; k++) {
		struct ec_node *e, *val;
		struct ec_node_expr_eval_ops o = ops;
		struct ec_strvec *v;
		struct ec_pnode *p;
		void *res;
		int n, f;
		if (!mc_next()) continue;
		cf = &c0;
		for (n = 0; n < 10 && t[k][n]; n++);
		mc_desc("value containing the expression, input %d", k);
		o.eval_var = rec_var;
		e = ec_node("expr", EC_NO_ID);
		val = EC_NODE_OR(EC_NO_ID, ec_node_str(EC_NO_ID, "1"),
			EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, "f"), ec_node_clone(e), ec_node_str(EC_NO_ID, "g")));
		for (int i = 1; i < 5; i++) add(e, i);
		MC_CHECK(ec_node_expr_set_val_node(e, val) == 0, "config", "cannot set the value");
		v = mk_strvec(t[k], n);
		p = ec_parse_strvec(e, v);
		MC_CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == (size_t)n, "nested", "the expression does not match");
		inplace = 0;
		for (f = 0; f <= nc[k]; f++) {
			calls = 0; fail_call = f; frees = 0;
			int r = ec_node_expr_eval(&res, e, p, &o, userctx_magic);
			mc_trans(1);
			MC_CHECK((r == 0) == (f == 0), "nested", "the evaluation gives %d with callback %d failing", r, f);
			if (r == 0) {
				MC_CHECK(!strcmp(v_text(res, "the caller"), want[k]), "nested", "the value is %s instead of %s", ((struct val *)res)->s, want[k]);
				v_drop(res, "test");
			}
			MC_CHECK(nlive == 0, "leak-value", "%ld values are not released", nlive);
		}
		ec_pnode_free(p);
		ec_strvec_free(v);
		ec_node_free(e);
		mc_end();
	}
}
/* long chains and deep nesting */
static void chains(int max)
{
	static const struct conf c0 = { .val = { "1" }, .bin = { "*", "+" }, .pre = { "!" }, .post = { "^" }, .open = { "(" }, .close = { ")" } };
	const char *tok[256];
	for (int shape = 0; shape < 6; shape++)
		for (int n = 1; n <= max; n++) {
			struct ec_node *e;
			struct ec_strvec *v;
			struct ec_pnode *p;
			struct rv *rv;
			int k = 0, i, pos = 0;
			if (shape >= 4 && n > 8) continue;
			if (!mc_next()) continue;
			cf = &c0;
			mc_desc("chain of shape %d, length %d", shape, n);
			switch (shape) {
			case 0: for (i = 0; i < n; i++) { if (i) tok[k++] = "+"; tok[k++] = "1"; } break;
			case 1: for (i = 0; i < n; i++) { if (i) tok[k++] = i & 1 ? "*" : "+"; tok[k++] = "1"; } break;
			case 2: tok[k++] = "1"; for (i = 0; i < n; i++) tok[k++] = "^"; break;
			case 3: for (i = 0; i < n; i++) tok[k++] = "!"; tok[k++] = "1"; break;
			case 4: for (i = 0; i < n; i++) tok[k++] = "("; tok[k++] = "1"; for (i = 0; i < n; i++) tok[k++] = ")"; break;
			default: for (i = 0; i < n; i++) { tok[k++] = "("; tok[k++] = "1"; tok[k++] = "*"; } tok[k++] = "1";
				for (i = 0; i < n; i++) { tok[k++] = ")"; tok[k++] = "^"; } break;
			}
			e = mk_expr(n % 4);
			in = tok; n_in = k;
			rv = r_expr(&pos);
			if (rv == NULL || pos != k) mc_bug("chain");
			v = mk_strvec(tok, k);
			p = ec_parse_strvec(e, v);
			MC_CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == (size_t)k, "chain-match", "the expression does not match");
			check_eval(e, p, rv);
			rv_free(rv);
			ec_pnode_free(p);
			ec_strvec_free(v);
			ec_node_free(e);
			mc_nontrivial();
			mc_end();
		}
}
void mc_run(void)
{
	int maxlen = mc_thorough ? 8 : 6;
	mc_case_timeout = 120;
	incomplete();
	nested_values();
	chains(mc_thorough ? 60 : 24);
	for (int v = 0; v < N(vals); v++)
		for (int b = 0; b < N(bins); b++)
			for (int r = 0; r < N(pres); r++)
				for (int o = 0; o < N(posts); o++)
					for (int q = 0; q < N(opens); q++)
						for (int sh = 0; sh < 2; sh++) {
							struct conf c = { 0 };
							if (b + r + o == 0) continue;
							if (sh && (bins[b][0] == NULL || !*bins[b][0])) continue;
							if (!mc_next()) continue;
							memcpy(c.val, vals[v], sizeof(c.val));
							memcpy(c.bin, bins[b], sizeof(c.bin));
							memcpy(c.pre, pres[r], sizeof(c.pre));
							memcpy(c.post, posts[o], sizeof(c.post));
							memcpy(c.open, opens[q], sizeof(c.open));
							memcpy(c.close, closes[q], sizeof(c.close));
							if (sh) { /* the first binary operator is also the first prefix operator */
								if (cnt(c.pre) == 2) { mc_desc("skip"); mc_end(); continue; }
								c.pre[1] = c.pre[0]; c.pre[0] = c.bin[0];
								c.share = 1;
							}
							if (mc_thorough || v == 0 || (q < 2 && !sh)) one_conf(&c, maxlen, 2);
							mc_end();
						}
}
