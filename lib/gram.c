#include <ecoli.h>
#include "gram.h"

/* ---- shapes ------------------------------------------------------------ */
struct ast *ast_leaf(enum gk k, const char *s)
{
	struct ast *a = calloc(1, sizeof(*a));
	a->k = k; a->s = s; a->has_root = k == G_ROOT;
	return a;
}
struct ast *ast_n(enum gk k, int n, const struct ast *const *ch)
{
	struct ast *a = ast_leaf(k, NULL);
	a->n = n;
	a->ch = calloc(n + 1, sizeof(*a->ch));
	for (int i = 0; i < n; i++) { a->ch[i] = ch[i]; a->has_root |= ch[i]->has_root; }
	return a;
}
struct ast *ast_un(enum gk k, const struct ast *c) { return ast_n(k, 1, &c); }
struct ast *ast_many(const struct ast *c, unsigned min, unsigned max)
{
	struct ast *a = ast_un(G_MANY, c);
	a->min = min; a->max = max;
	return a;
}

struct alist { const struct ast **v; int n, cap; };
static struct alist memo[8];
static const struct alphabet *memo_al;
static struct alist *collect;
static void push(const struct ast *a)
{
	if (collect->n == collect->cap) {
		collect->cap = collect->cap * 2 + 64;
		collect->v = realloc(collect->v, collect->cap * sizeof(*collect->v));
	}
	collect->v[collect->n++] = a;
}
static const struct alist *asts_of(const struct alphabet *al, int size);

/* emit one; when collecting, keep a heap copy */
static void emit(ast_cb_t cb, enum gk k, const char *s, unsigned min, unsigned max,
		int n, const struct ast **ch)
{
	if (cb == NULL) {
		struct ast *a = ast_n(k, n, ch);
		a->s = s; a->min = min; a->max = max;
		a->has_root |= k == G_ROOT;
		push(a);
	} else {
		struct ast a = { .k = k, .s = s, .min = min, .max = max, .n = n, .ch = ch,
			.has_root = k == G_ROOT };
		for (int i = 0; i < n; i++) a.has_root |= ch[i]->has_root;
		cb(&a);
	}
}
static void nary_rec(const struct alphabet *al, enum gk k, int arity, int i, int left,
		const struct ast **ch, ast_cb_t cb)
{
	if (i == arity) {
		if (left == 0) emit(cb, k, NULL, 0, 0, arity, ch);
		return;
	}
	int maxsz = left - (arity - i - 1);
	int minsz = i == arity - 1 ? left : 1;
	for (int sz = minsz; sz <= maxsz; sz++) {
		const struct alist *l = asts_of(al, sz);
		for (int j = 0; j < l->n; j++) {
			ch[i] = l->v[j];
			nary_rec(al, k, arity, i + 1, left - sz, ch, cb);
		}
	}
}
static void gen(const struct alphabet *al, int size, ast_cb_t cb)
{
	if (size == 1) {
		for (int i = 0; i < al->nleaf; i++)
			emit(cb, al->leaf[i].k, al->leaf[i].s, al->leaf[i].min, al->leaf[i].max, 0, NULL);
		for (int i = 0; i < al->nnary; i++)
			emit(cb, al->nary[i], NULL, 0, 0, 0, NULL);
		return;
	}
	const struct alist *l = asts_of(al, size - 1);
	for (int u = 0; u < al->nunary; u++)
		for (int j = 0; j < l->n; j++) {
			const struct ast *c = l->v[j];
			emit(cb, al->unary[u].k, NULL, al->unary[u].min, al->unary[u].max, 1, &c);
		}
	for (int i = 0; i < al->nnary; i++)
		for (int ar = 1; ar <= al->maxarity && ar <= size - 1; ar++) {
			const struct ast *ch[16];
			nary_rec(al, al->nary[i], ar, 0, size - 1, ch, cb);
		}
}
static const struct alist *asts_of(const struct alphabet *al, int size)
{
	if (memo_al != al) { memset(memo, 0, sizeof(memo)); memo_al = al; }
	if (memo[size].n == 0) {
		struct alist tmp = { 0 };
		struct alist *save;
		for (int s = 1; s < size; s++) asts_of(al, s);
		save = collect;
		collect = &tmp;
		gen(al, size, NULL);
		collect = save;
		memo[size] = tmp;
	}
	return &memo[size];
}
void ast_enum(const struct alphabet *al, int size, ast_cb_t cb)
{
	if (size > 1) asts_of(al, size - 1);
	else if (memo_al != al) { memset(memo, 0, sizeof(memo)); memo_al = al; }
	gen(al, size, cb);
}

int gram_attrs;
char gram_attr_val[1];
const char *tok_attrs(const char *tok)
{
	return gram_attrs ? tok + strlen(tok) + 1 : "";
}

static const char *kname[] = { "str", "any", "empty", "none", "space", "int", "span", "S", "R",
	"option", "many", "once", "bypass", "cond", "seq", "or", "subset", "dyn" };
void ast_text(struct mc_buf *b, const struct ast *a)
{
	if (a->k == G_STR) { mc_buf_str(b, a->s); return; }
	mc_buf_add(b, "%s", kname[a->k]);
	if (a->k == G_COND) mc_buf_add(b, "{%s}", a->s);
	if (a->k == G_ANY && a->s) mc_buf_add(b, "+%s", a->s);
	if (a->k == G_INT) mc_buf_add(b, "[%u,%u]", a->min, a->max);
	if (a->k == G_SPAN) mc_buf_add(b, "[%u]", a->min);
	if (a->k == G_MANY) mc_buf_add(b, "{%u,%u}", a->min, a->max);
	if (a->k >= G_OPTION) {
		mc_buf_add(b, "(");
		for (int i = 0; i < a->n; i++) {
			if (i) mc_buf_add(b, ", ");
			ast_text(b, a->ch[i]);
		}
		mc_buf_add(b, ")");
	}
}

/* ---- instances --------------------------------------------------------- */
static struct g *new_g(struct gram *gr, const struct ast *a)
{
	struct g *g = calloc(1, sizeof(*g));
	g->k = a->k; g->s = a->s; g->min = a->min; g->max = a->max; g->n = a->n;
	g->ch = calloc(a->n + 1, sizeof(*g->ch));
	g->num = gr->count++;
	g->all_next = gr->all;
	gr->all = g;
	return g;
}
const char *const *gram_ids;
const char *gram_id(const struct g *g)
{
	static char id[32];
	if (gram_ids) return gram_ids[g->num];
	snprintf(id, sizeof(id), "n%d", g->num);
	return id;
}
#define gid gram_id
struct ec_node *(*gram_user)(struct g *g);
int (*gram_user_set)(struct ec_node *n, struct ec_node *child);
static struct ec_node *nary(struct g *g, int variadic)
{
	struct ec_node *c[4], *n;
	if (variadic && g->n <= 3) {
		for (int i = 0; i < g->n; i++) c[i] = g->ch[i]->node;
		switch (g->k) {
#define V(f) \
		switch (g->n) { \
		case 0: return f(gid(g), EC_VA_END); \
		case 1: return f(gid(g), c[0], EC_VA_END); \
		case 2: return f(gid(g), c[0], c[1], EC_VA_END); \
		default: return f(gid(g), c[0], c[1], c[2], EC_VA_END); \
		}
		case G_SEQ: V(__ec_node_seq);
		case G_OR: V(__ec_node_or);
		default: V(__ec_node_subset);
		}
	}
	switch (g->k) {
	case G_SEQ: n = ec_node("seq", gid(g)); break;
	case G_OR: n = ec_node("or", gid(g)); break;
	default: n = ec_node("subset", gid(g)); break;
	}
	if (n == NULL) return NULL;
	for (int i = 0; i < g->n; i++) {
		int r;
		switch (g->k) {
		case G_SEQ: r = ec_node_seq_add(n, g->ch[i]->node); break;
		case G_OR: r = ec_node_or_add(n, g->ch[i]->node); break;
		default: r = ec_node_subset_add(n, g->ch[i]->node); break;
		}
		if (r < 0) return NULL;
	}
	return n;
}
/* ---- dynamic nodes ------------------------------------------------------ */
int (*r_dyn)(struct g *g, uint64_t tree);
int gram_dyn_fresh;
void (*gram_dyn_enter)(struct gram *gr);
struct dynctx { struct gram *gr; struct g *g; struct dynctx *next; };
static struct ec_node *dyn_cb(struct ec_pnode *p, void *opaque);
static struct ec_node *leaf_or_unary(struct gram *gr, struct g *g, struct ec_node *c)
{
	struct dynctx *x;
	switch (g->k) {
	case G_STR: return ec_node_str(gid(g), g->s);
	case G_ANY: return ec_node_any(gid(g), g->s);
	case G_EMPTY: return ec_node("empty", gid(g));
	case G_NONE: return ec_node("none", gid(g));
	case G_SPACE: return ec_node("space", gid(g));
	case G_INT: return ec_node_int(gid(g), g->min, g->max, 10);
	case G_OPTION: return ec_node_option(gid(g), c);
	case G_MANY: return ec_node_many(gid(g), c, g->min, g->max);
	case G_ONCE: return ec_node_once(gid(g), c);
	case G_BYPASS: return ec_node_bypass(gid(g), c);
	case G_COND: return ec_node_cond(gid(g), g->s, c);
	case G_DYN:
		if (g->dyn == NULL) {
			x = calloc(1, sizeof(*x));
			x->gr = gr; x->g = g;
			g->dyn = x;
		}
		gr->dyn = 1;
		return ec_node_dynamic(gid(g), dyn_cb, g->dyn);
	default: return NULL;
	}
}
/* another instance of the same grammar; shared nodes and loops are the existing ones */
static struct ec_node *instance(struct gram *gr, struct g *g)
{
	struct ec_node *c = NULL, *n;
	if (g == gr->shared || (g == gr->root && g->looped)) return ec_node_clone(g->node);
	if (g->k == G_SEQ || g->k == G_OR || g->k == G_SUBSET) {
		n = ec_node(g->k == G_SEQ ? "seq" : g->k == G_OR ? "or" : "subset", gid(g));
		for (int i = 0; i < g->n; i++) {
			int r;
			c = instance(gr, g->ch[i]);
			r = g->k == G_SEQ ? ec_node_seq_add(n, c) : g->k == G_OR ? ec_node_or_add(n, c) : ec_node_subset_add(n, c);
			if (r < 0) mc_bug("instance");
		}
		return n;
	}
	if (g->n == 1 && g->k != G_DYN) c = instance(gr, g->ch[0]);
	return leaf_or_unary(gr, g, c);
}
static struct ec_node *dyn_cb(struct ec_pnode *p, void *opaque)
{
	struct dynctx *x = opaque;
	struct mc_buf b = { 0 };
	const struct ec_pnode *q;
	uint64_t h;
	int i;
	pnode_text(&b, x->gr, EC_PNODE_GET_ROOT(p));
	mc_buf_add(&b, " @");
	for (q = p; q; q = ec_pnode_get_parent(q)) mc_buf_add(&b, "n%d<", gram_num(x->gr, ec_pnode_get_node(q)));
	h = mc_hs(MC_H0, b.s);
	if (mc_verbose) fprintf(stderr, "dynamic n%d: %s\n", x->g->num, b.s);
	mc_buf_free(&b);
	if (gram_dyn_enter) gram_dyn_enter(x->gr);
	i = r_dyn(x->g, h);
	if (i < 0) { errno = ECHILD; return NULL; }
	return gram_dyn_fresh ? instance(x->gr, x->g->ch[i]) : ec_node_clone(x->g->ch[i]->node);
}
static struct g *build(struct gram *gr, const struct ast *a, int variadic)
{
	struct g *g;

	if (a->k == G_SHARED) {
		if (gr->shared == NULL) {
			g = new_g(gr, a);
			g->k = G_STR; g->s = "a";
			if (gram_user) g->node = gram_user(g);
			if (g->node == NULL) g->node = ec_node_str(gid(g), "a");
			if (g->node == NULL) return NULL;
			gr->shared = g;
		}
		ec_node_clone(gr->shared->node);  /* the creator's reference goes away at the end */
		return gr->shared;
	}
	if (a->k == G_ROOT) {
		ec_node_clone(gr->root->node);
		return gr->root;
	}
	g = new_g(gr, a);
	for (int i = 0; i < a->n; i++) {
		g->ch[i] = build(gr, a->ch[i], variadic);
		if (g->ch[i] == NULL) return NULL;
	}
	if (gram_user && (g->node = gram_user(g)) != NULL) return g;
	if (g->k == G_SEQ || g->k == G_OR || g->k == G_SUBSET) g->node = nary(g, variadic);
	else g->node = leaf_or_unary(gr, g, g->n ? g->ch[0]->node : NULL);
	return g->node ? g : NULL;
}
int gram_build(struct gram *gr, const struct ast *a, int variadic)
{
	struct g *inner;

	memset(gr, 0, sizeof(*gr));
	if (a->has_root) {
		struct ast h = { .k = G_BYPASS, .n = 1 };
		gr->root = new_g(gr, &h);
		gr->root->looped = 1;
		if (gram_user) gr->root->node = gram_user(gr->root);
		if (gr->root->node == NULL) gr->root->node = ec_node("bypass", gid(gr->root));
		if (gr->root->node == NULL) return -1;
		inner = build(gr, a, variadic);
		if (inner == NULL) return -1;
		gr->root->ch[0] = inner;
		if ((gram_user ? gram_user_set(gr->root->node, inner->node) : ec_node_bypass_set_child(gr->root->node, inner->node)) < 0) return -1;
	} else {
		gr->root = build(gr, a, variadic);
		if (gr->root == NULL) return -1;
	}
	if (gr->shared != NULL)
		ec_node_free(gr->shared->node);
	gr->node = gr->root->node;
	return 0;
}
void gram_free(struct gram *gr)
{
	struct g *g;
	ec_node_free(gr->node);
	for (g = gr->all; g; g = g->all_next)
		if (g->k == G_DYN) for (int i = 0; i < g->n; i++) ec_node_free(g->ch[i]->node);
	while ((g = gr->all) != NULL) {
		free(g->dyn);
		gr->all = g->all_next;
		free(g->ch);
		free(g);
	}
	memset(gr, 0, sizeof(*gr));
}

/* ---- reference parse --------------------------------------------------- */
const char *const *r_tok;
int r_work, r_error;
int (*r_cond)(struct g *g, struct rt *me);
static int r_depth;
int r_maxdepth = 60, r_maxwork = 60000;

static struct rt *rt_new(struct g *g)
{
	struct rt *t = calloc(1, sizeof(*t));
	t->g = g; t->len = -1;
	return t;
}
static void rt_link(struct rt *p, struct rt *c)
{
	c->parent = p; c->prev = p->last; c->next = NULL;
	if (p->last) p->last->next = c; else p->first = c;
	p->last = c;
}
static void rt_unlink(struct rt *c)
{
	struct rt *p = c->parent;
	if (p == NULL) return;
	if (c->prev) c->prev->next = c->next; else p->first = c->next;
	if (c->next) c->next->prev = c->prev; else p->last = c->prev;
	c->parent = c->next = c->prev = NULL;
}
void rt_free(struct rt *t)
{
	if (t == NULL) return;
	while (t->first) { struct rt *c = t->first; rt_unlink(c); rt_free(c); }
	free(t);
}
static void rt_free_children(struct rt *t)
{
	while (t->first) { struct rt *c = t->first; rt_unlink(c); rt_free(c); }
}
static int rt_contains(const struct rt *t, const struct g *g)
{
	if (t->g == g) return 1;
	for (const struct rt *c = t->first; c; c = c->next)
		if (rt_contains(c, g)) return 1;
	return 0;
}
struct rt *rt_root(struct rt *t) { while (t->parent) t = t->parent; return t; }

static int is_space_tok(const char *s)
{
	if (*s == 0) return 0;
	for (; *s; s++) if (!strchr(" \t\n\v\f\r", *s)) return 0;
	return 1;
}
/* plain decimal literals only: what the alphabets of these harnesses use */
static int int_tok(const char *s, long *v)
{
	char *e;
	if (*s == 0) return 0;
	*v = strtol(s, &e, 10);
	return *e == 0;
}

static int p_node(struct g *g, struct rt *me, int s, int e);
static uint64_t tree_hash(struct rt *me)
{
	struct mc_buf b = { 0 };
	uint64_t h;
	rt_text(&b, rt_root(me));
	mc_buf_add(&b, " @");
	for (; me; me = me->parent) mc_buf_add(&b, "n%d<", me->g->num);
	h = mc_hs(MC_H0, b.s);
	if (mc_verbose) fprintf(stderr, "reference: %s\n", b.s);
	mc_buf_free(&b);
	return h;
}

/* parse a child below `parent`; on a match the child stays linked */
static int p_child(struct g *g, struct rt *parent, int s, int e)
{
	struct rt *t;
	int r;
	if (++r_work > r_maxwork || r_depth > r_maxdepth) return R_DIVERGE;
	t = rt_new(g);
	rt_link(parent, t);
	r_depth++;
	r = p_node(g, t, s, e);
	r_depth--;
	if (r < 0) { rt_unlink(t); rt_free(t); return r; }
	t->start = s; t->len = r;
	return r;
}

/* best list of distinct children, in any order: the largest number of
 * children; among these, the first one in the order of the children */
static int p_subset(struct g **ch, int n, struct rt *me, int s, int e, int *count)
{
	int best = -1, bestcount = 0, bestlen = 0, r, i, j, k, c;
	struct rt *keep = NULL;      /* holds the children of the best list */
	struct rt *mark = me->last;

	for (i = 0; i < n; i++) {
		struct g *rest[n];
		r = p_child(ch[i], me, s, e);
		if (r == R_DIVERGE) { rt_free(keep); return r; }
		if (r == R_NOMATCH) continue;
		for (j = k = 0; j < n; j++) if (j != i) rest[k++] = ch[j];
		c = 0;
		j = p_subset(rest, n - 1, me, s + r, e, &c);
		if (j == R_DIVERGE) { rt_free(keep); return j; }
		if (best < 0 || c + 1 > bestcount) {
			best = i; bestcount = c + 1; bestlen = r + j;
			rt_free(keep);
			keep = rt_new(NULL);
			while (me->last != mark) {
				struct rt *x = mark ? mark->next : me->first;
				rt_unlink(x);
				rt_link(keep, x);
			}
		} else {
			while (me->last != mark) {
				struct rt *x = me->last;
				rt_unlink(x);
				rt_free(x);
			}
		}
	}
	if (keep) {
		while (keep->first) { struct rt *x = keep->first; rt_unlink(x); rt_link(me, x); }
		rt_free(keep);
	}
	*count = bestcount;
	return best < 0 ? 0 : bestlen;
}

static int p_node(struct g *g, struct rt *me, int s, int e)
{
	int i, r, off;
	unsigned cnt;
	long v;

	switch (g->k) {
	case G_STR:
		return s < e && !strcmp(r_tok[s], g->s) ? 1 : R_NOMATCH;
	case G_ANY:
		if (g->s && !(s < e && strchr(tok_attrs(r_tok[s]), g->s[0]))) return R_NOMATCH;
		return s < e ? 1 : R_NOMATCH;
	case G_EMPTY:
		return 0;
	case G_NONE:
		return R_NOMATCH;
	case G_SPACE:
		return s < e && is_space_tok(r_tok[s]) ? 1 : R_NOMATCH;
	case G_INT:
		return s < e && int_tok(r_tok[s], &v) && v >= (long)g->min && v <= (long)g->max ? 1 : R_NOMATCH;
	case G_SPAN:
		if (g->min == 0) return s < e ? e - s : R_NOMATCH;
		return e - s >= (int)g->min ? (int)g->min : R_NOMATCH;
	case G_DYN:
		i = r_dyn(g, tree_hash(me));
		if (i < 0) { r_error = 1; return R_DIVERGE; }
		return p_child(g->ch[i], me, s, e);
	case G_OPTION:
		r = p_child(g->ch[0], me, s, e);
		return r == R_NOMATCH ? 0 : r;
	case G_BYPASS:
		return p_child(g->ch[0], me, s, e);
	case G_COND:
		r = p_child(g->ch[0], me, s, e);
		if (r < 0) return r;
		i = r_cond(g, me);
		if (i < 0) { r_error = 1; return R_DIVERGE; }
		if (i == 0) { rt_free_children(me); return R_NOMATCH; }
		return r;
	case G_ONCE:
		if (rt_contains(rt_root(me), g->ch[0])) return R_NOMATCH;
		return p_child(g->ch[0], me, s, e);
	case G_OR:
		for (i = 0; i < g->n; i++) {
			r = p_child(g->ch[i], me, s, e);
			if (r != R_NOMATCH) return r;
		}
		return R_NOMATCH;
	case G_SEQ:
		for (i = 0, off = 0; i < g->n; i++) {
			r = p_child(g->ch[i], me, s + off, e);
			if (r < 0) { rt_free_children(me); return r; }
			off += r;
		}
		return off;
	case G_MANY:
		for (cnt = 0, off = 0; g->max == 0 || cnt < g->max; cnt++) {
			r = p_child(g->ch[0], me, s + off, e);
			if (r == R_DIVERGE) return r;
			if (r == R_NOMATCH) break;
			if (r == 0) {            /* an empty match ends the repetition */
				struct rt *x = me->last;
				rt_unlink(x); rt_free(x);
				break;
			}
			off += r;
		}
		if (cnt < g->min) { rt_free_children(me); return R_NOMATCH; }
		return off;
	case G_SUBSET:
		if (s >= e) return R_NOMATCH;
		{
			int c;
			return p_subset(g->ch, g->n, me, s, e, &c);
		}
	default:
		mc_bug("p_node");
	}
}

int ref_parse(struct gram *gr, const char *const *tok, int n, struct rt **tree)
{
	struct rt *t = rt_new(gr->root);
	int r;
	r_tok = tok; r_work = 0; r_error = 0; r_depth = 0;
	r = p_node(gr->root, t, 0, n);
	if (r < 0) rt_free_children(t);
	else { t->start = 0; t->len = r; }
	if (tree) *tree = t; else rt_free(t);
	return r;
}

static void vec_text(struct mc_buf *b, const struct rt *t)
{
	if (t->len < 0) { mc_buf_add(b, "-"); return; }
	mc_buf_add(b, "[");
	for (int i = 0; i < t->len; i++) {
		if (i) mc_buf_add(b, " ");
		mc_buf_str(b, r_tok[t->start + i]);
		if (*tok_attrs(r_tok[t->start + i])) mc_buf_add(b, "+%s", tok_attrs(r_tok[t->start + i]));
	}
	mc_buf_add(b, "]");
}
void rt_text(struct mc_buf *b, const struct rt *t)
{
	mc_buf_add(b, "n%d", t->g->num);
	vec_text(b, t);
	if (t->first) {
		mc_buf_add(b, "(");
		for (const struct rt *c = t->first; c; c = c->next) {
			if (c != t->first) mc_buf_add(b, " ");
			rt_text(b, c);
		}
		mc_buf_add(b, ")");
	}
}

/* ---- reference completion ---------------------------------------------- */
static struct rcomp *rc;
static int c_group;

static void add_item(char type, struct g *g, struct rt *me, const char *str, const char *start)
{
	struct mc_buf b = { 0 };
	struct ritem *it;
	if (rc->n == rc->cap) {
		rc->cap = rc->cap * 2 + 16;
		rc->it = realloc(rc->it, rc->cap * sizeof(*rc->it));
	}
	if (c_group < 0) c_group = rc->ngrp++;
	it = &rc->it[rc->n++];
	it->type = type; it->g = g; it->str = str; it->grp = c_group;
	it->completion = str ? str + strlen(start) : NULL;
	rt_text(&b, rt_root(me));
	mc_buf_add(&b, " @");
	for (struct rt *t = me; t; t = t->parent) mc_buf_add(&b, "n%d<", t->g->num);
	it->path = b.s;
}

static int c_child(struct g *g, struct rt *parent, int s, int e);

static int c_seq(struct g *g, int from, struct rt *me, int s, int e)
{
	int r, i;
	if (from >= g->n) return 0;
	r = c_child(g->ch[from], me, s, e);
	if (r < 0) return r;
	for (i = 0; s + i < e; i++) {
		/* the first child matches exactly the i first tokens */
		r = p_child(g->ch[from], me, s, s + i);
		if (r == R_DIVERGE) return r;
		if (r == R_NOMATCH) continue;
		if (r == i) {
			int q = c_seq(g, from + 1, me, s + i, e);
			if (q < 0) return q;
		}
		struct rt *x = me->last; rt_unlink(x); rt_free(x);
	}
	return 0;
}
static int c_many(struct g *g, unsigned max, struct rt *me, int s, int e)
{
	int r, i;
	r = c_child(g->ch[0], me, s, e);
	if (r < 0) return r;
	if (max == 1) return 0;
	if (max) max--;
	for (i = 0; s + i < e; i++) {
		r = p_child(g->ch[0], me, s, s + i);
		if (r == R_DIVERGE) return r;
		if (r == R_NOMATCH) continue;
		/* an empty repetition is not a repetition */
		if (r == i && i > 0) {
			int q = c_many(g, max, me, s + i, e);
			if (q < 0) return q;
		}
		struct rt *x = me->last; rt_unlink(x); rt_free(x);
	}
	return 0;
}
static int c_subset(struct g **ch, int n, struct rt *me, int s, int e)
{
	int i, j, k, r;
	for (i = 0; i < n; i++) {
		r = c_child(ch[i], me, s, e);
		if (r < 0) return r;
	}
	for (i = 0; i < n; i++) {
		struct g *rest[n];
		r = p_child(ch[i], me, s, e);
		if (r == R_DIVERGE) return r;
		if (r == R_NOMATCH) continue;
		for (j = k = 0; j < n; j++) if (j != i) rest[k++] = ch[j];
		int q = c_subset(rest, n - 1, me, s + r, e);
		if (q < 0) return q;
		struct rt *x = me->last; rt_unlink(x); rt_free(x);
	}
	return 0;
}
static int c_node(struct g *g, struct rt *me, int s, int e)
{
	int i, r;
	switch (g->k) {
	case G_STR:
		if (e - s == 1 && !strncmp(g->s, r_tok[s], strlen(r_tok[s])))
			add_item('F', g, me, g->s, r_tok[s]);
		return 0;
	case G_ANY: case G_EMPTY: case G_SPACE: case G_INT:
		if (e - s == 1) add_item('U', g, me, NULL, NULL);
		return 0;
	case G_NONE:
		return 0;
	case G_SPAN:
		if (e > s && (g->min == 0 || e - s <= (int)g->min)) add_item('U', g, me, NULL, NULL);
		return 0;
	case G_DYN:
		i = r_dyn(g, tree_hash(me));
		if (i < 0) { r_error = 1; return R_DIVERGE; }
		return c_child(g->ch[i], me, s, e);
	case G_OPTION: case G_BYPASS: case G_COND:
		return c_child(g->ch[0], me, s, e);
	case G_ONCE:
		if (rt_contains(rt_root(me), g->ch[0])) return 0;
		return c_child(g->ch[0], me, s, e);
	case G_OR:
		for (i = 0; i < g->n; i++) {
			r = c_child(g->ch[i], me, s, e);
			if (r < 0) return r;
		}
		return 0;
	case G_SEQ: return c_seq(g, 0, me, s, e);
	case G_MANY: return c_many(g, g->max, me, s, e);
	case G_SUBSET: return c_subset(g->ch, g->n, me, s, e);
	default: mc_bug("c_node");
	}
}
static int c_child(struct g *g, struct rt *parent, int s, int e)
{
	struct rt *t;
	int r, save = c_group;
	if (++r_work > r_maxwork || r_depth > r_maxdepth) return R_DIVERGE;
	t = rt_new(g);
	if (parent) rt_link(parent, t);
	r_depth++;
	c_group = -1;
	r = c_node(g, t, s, e);
	r_depth--;
	c_group = save;
	rt_unlink(t);
	rt_free(t);
	return r;
}
int ref_complete(struct gram *gr, const char *const *tok, int n, struct rcomp *c)
{
	memset(c, 0, sizeof(*c));
	rc = c;
	r_tok = tok; r_work = 0; r_error = 0; r_depth = 0; c_group = -1;
	return c_child(gr->root, NULL, 0, n);
}
void rcomp_free(struct rcomp *c)
{
	for (int i = 0; i < c->n; i++) free(c->it[i].path);
	free(c->it);
	memset(c, 0, sizeof(*c));
}

/* ---- real objects to text ---------------------------------------------- */
int gram_num(struct gram *gr, const struct ec_node *node)
{
	for (struct g *g = gr->all; g; g = g->all_next)
		if (g->node == node) return g->num;
	if (gr->dyn) {
		const char *id = ec_node_id(node);
		if (id[0] == 'n' && id[1]) return atoi(id + 1);
	}
	return -1;
}
/* names of the attributes of a token, one letter each, in alphabetical order */
void vec_attrs(struct mc_buf *b, const struct ec_strvec *v, size_t i)
{
	const struct ec_dict *d = ec_strvec_get_attrs(v, i);
	int any = 0;
	if (d == NULL) return;
	for (char c[2] = "a"; c[0] <= 'z'; c[0]++)
		if (ec_dict_has_key(d, c)) {
			mc_buf_add(b, any++ ? "%s" : "+%s", c);
			if (ec_dict_get(d, c) != gram_attr_val) mc_buf_add(b, "?");
		}
	if (ec_dict_len(d) != (size_t)any) mc_buf_add(b, "#%zu", ec_dict_len(d));
}
void pnode_text(struct mc_buf *b, struct gram *gr, const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const struct ec_pnode *c;
	mc_buf_add(b, "n%d", gram_num(gr, ec_pnode_get_node(p)));
	if (v == NULL) mc_buf_add(b, "-");
	else {
		mc_buf_add(b, "[");
		for (size_t i = 0; i < ec_strvec_len(v); i++) {
			if (i) mc_buf_add(b, " ");
			mc_buf_str(b, ec_strvec_val(v, i));
			vec_attrs(b, v, i);
		}
		mc_buf_add(b, "]");
	}
	c = ec_pnode_get_first_child(p);
	if (c) {
		mc_buf_add(b, "(");
		for (int k = 0; c; c = ec_pnode_next(c), k++) {
			if (k) mc_buf_add(b, " ");
			pnode_text(b, gr, c);
		}
		mc_buf_add(b, ")");
	}
}
struct ec_strvec *mk_strvec(const char *const *tok, int n)
{
	struct ec_strvec *v = ec_strvec();
	for (int i = 0; v != NULL && i < n; i++) {
		const char *a = tok_attrs(tok[i]);
		struct ec_dict *d;
		if (ec_strvec_add(v, tok[i]) < 0) { ec_strvec_free(v); return NULL; }
		if (*a == 0) continue;
		d = ec_dict();
		for (; *a; a++) {
			char k[2] = { *a, 0 };
			if (d != NULL && ec_dict_set(d, k, gram_attr_val, NULL) < 0) mc_bug("attribute");
		}
		if (d == NULL || ec_strvec_set_attrs(v, i, d) < 0) mc_bug("attributes");
	}
	return v;
}
void tok_text(struct mc_buf *b, const char *const *tok, int n)
{
	mc_buf_add(b, "[");
	for (int i = 0; i < n; i++) {
		if (i) mc_buf_add(b, " ");
		mc_buf_str(b, tok[i]);
		if (*tok_attrs(tok[i])) mc_buf_add(b, "+%s", tok_attrs(tok[i]));
	}
	mc_buf_add(b, "]");
}
