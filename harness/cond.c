/* C15: conditional nodes: every condition up to a size, on several grammars and all short inputs. The condition is
 * parsed and evaluated by an independent reference on the reference parse tree. */
#include <ecoli.h>
#include "gram.h"

static struct mc_buf b1, b2;

/* ---- reference: syntax --------------------------------------------------- */
enum ck { C_STR, C_INT, C_FUNC };
#define MAXARG 140
struct cx { enum ck k; char *s; int n; struct cx *arg[MAXARG]; };
static const char *cp;
static int is_id0(int c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int is_dig(int c) { return c >= '0' && c <= '9'; }
static void cskip(void) { while (*cp == ' ' || *cp == '\t') cp++; }
static void cx_free(struct cx *x)
{
	if (x == NULL) return;
	for (int i = 0; i < x->n; i++) cx_free(x->arg[i]);
	free(x->s); free(x);
}
static struct cx *c_parse(void)
{
	struct cx *x;
	const char *s;
	cskip();
	s = cp;
	if (is_id0(*cp)) {
		while (is_id0(*cp) || is_dig(*cp) || *cp == '.') cp++;
		x = calloc(1, sizeof(*x));
		x->s = strndup(s, cp - s);
		cskip();
		if (*cp != '(') return x;
		cp++;
		x->k = C_FUNC;
		cskip();
		if (*cp == ')') { cp++; return x; }
		for (;;) {
			struct cx *a = c_parse();
			if (a == NULL) { cx_free(x); return NULL; }
			if (x->n == MAXARG) mc_bug("too many arguments");
			x->arg[x->n++] = a;
			cskip();
			if (*cp == ',') { cp++; continue; }
			if (*cp == ')') { cp++; return x; }
			cx_free(x);
			return NULL;
		}
	}
	if (is_dig(*cp)) {
		while (is_dig(*cp)) cp++;
		x = calloc(1, sizeof(*x));
		x->k = C_INT;
		x->s = strndup(s, cp - s);
		return x;
	}
	return NULL;
}
static struct cx *c_syntax(const char *s)
{
	struct cx *x;
	cp = s;
	x = c_parse();
	cskip();
	if (x != NULL && *cp != 0) { cx_free(x); return NULL; }
	return x;
}

/* ---- reference: evaluation ----------------------------------------------- */
enum ct { T_SET, T_BOOL, T_INT, T_STR, T_ERR };
struct cv { enum ct t; int n, cap; struct rt **set; long long i; const char *s; };
#define ARENA 400000
static struct rt *arena[ARENA];	/* freed after each evaluation */
static int arena_n;
static void set_add(struct cv *v, struct rt *t)
{
	for (int i = 0; i < v->n; i++) if (v->set[i] == t) return;
	if (v->n == v->cap) {
		struct rt **o = v->set;
		v->cap = v->cap ? v->cap * 4 : 4;
		if (arena_n + v->cap > ARENA) mc_bug("node sets too large");
		v->set = arena + arena_n;
		arena_n += v->cap;
		if (v->n) memcpy(v->set, o, v->n * sizeof(*o));
	}
	v->set[v->n++] = t;
}
static void find_id(struct cv *v, struct rt *t, const char *id)
{
	if (!strcmp(gram_id(t->g), id)) set_add(v, t);
	for (struct rt *c = t->first; c; c = c->next) find_id(v, c, id);
}
static int truth(const struct cv *v)
{
	switch (v->t) {
	case T_SET: return v->n > 0;
	case T_BOOL: case T_INT: return v->i != 0;
	default: return v->s[0] != 0;
	}
}
static void c_eval(const struct cx *x, struct rt *me, struct cv *out)
{
	int i, j, n = x->n;
	struct cv a[n + 1];
	memset(out, 0, sizeof(*out));
	out->t = T_ERR;
	if (x->k == C_STR) { out->t = T_STR; out->s = x->s; return; }
	if (x->k == C_INT) {
		char *e;
		errno = 0;
		out->i = strtoll(x->s, &e, 0);
		if (*e == 0 && errno == 0) out->t = T_INT;
		return;
	}
	for (i = 0; i < n; i++) {
		c_eval(x->arg[i], me, &a[i]);
		if (a[i].t == T_ERR) return;
	}
#define F(name) !strcmp(x->s, name)
	if (F("root")) { if (n == 0) { out->t = T_SET; set_add(out, rt_root(me)); } }
	else if (F("current")) { if (n == 0) { out->t = T_SET; set_add(out, me); } }
	else if (F("bool")) { if (n == 1) { out->t = T_BOOL; out->i = truth(&a[0]); } }
	else if (F("or")) { if (n >= 2) { for (i = 0; i < n - 1 && !truth(&a[i]); i++); *out = a[i]; } }
	else if (F("and")) { if (n >= 2) { for (i = 0; i < n - 1 && truth(&a[i]); i++); *out = a[i]; } }
	else if (F("first_child")) {
		if (n == 1 && a[0].t == T_SET) {
			out->t = T_SET;
			for (i = 0; i < a[0].n; i++) if (a[0].set[i]->first) set_add(out, a[0].set[i]->first);
		}
	} else if (F("find")) {
		if (n == 2 && a[0].t == T_SET && a[1].t == T_STR) {
			out->t = T_SET;
			for (i = 0; i < a[0].n; i++) find_id(out, a[0].set[i], a[1].s);
		}
	} else if (F("count")) { if (n == 1 && a[0].t == T_SET) { out->t = T_INT; out->i = a[0].n; } }
	else if (F("cmp")) {
		static const char *const op[] = { "eq", "ne", "lt", "gt", "le", "ge" };
		int eq, k;
		if (n != 3 || a[0].t != T_STR || a[1].t != a[2].t) return;
		for (k = 0; k < 6 && strcmp(op[k], a[0].s); k++);
		if (k == 6 || (k >= 2 && a[1].t != T_INT)) return;
		if (a[1].t == T_SET) {
			eq = a[1].n == a[2].n;
			for (i = 0; i < a[1].n; i++) {
				for (j = 0; j < a[2].n && a[2].set[j] != a[1].set[i]; j++);
				if (j == a[2].n) eq = 0;
			}
		} else if (a[1].t == T_STR) eq = !strcmp(a[1].s, a[2].s);
		else eq = a[1].i == a[2].i;
		out->t = T_BOOL;
		out->i = k == 0 ? eq : k == 1 ? !eq : k == 2 ? a[1].i < a[2].i : k == 3 ? a[1].i > a[2].i : k == 4 ? a[1].i <= a[2].i : a[1].i >= a[2].i;
	}
}
static struct cx *cur;
static int evals;
static int my_cond(struct g *g, struct rt *me)
{
	struct cv v;
	evals++;
	arena_n = 0;
	c_eval(cur, me, &v);
	return v.t == T_ERR ? -1 : truth(&v);
}

/* ---- grammars ------------------------------------------------------------ */
#define NGRAM 9
static const struct ast *l(const char *s) { return ast_leaf(G_STR, s); }
static const struct ast *cond_ast(const char *s, const struct ast *c) { struct ast *a = ast_un(G_COND, c); a->s = s; return a; }
static const struct ast *n2(enum gk k, const struct ast *a, const struct ast *b) { const struct ast *c[2] = { a, b }; return ast_n(k, 2, c); }
static const struct ast *n3(enum gk k, const struct ast *a, const struct ast *b, const struct ast *d) { const struct ast *c[3] = { a, b, d }; return ast_n(k, 3, c); }
static const struct ast *grammar(int i, const char *s)
{
	switch (i) {
	case 0: return cond_ast(s, ast_many(l("a"), 0, 0));
	case 1: return n2(G_SEQ, ast_many(n2(G_OR, l("a"), l("b")), 0, 2), cond_ast(s, ast_un(G_OPTION, l("b"))));
	case 2: return n2(G_OR, cond_ast(s, n2(G_SEQ, l("a"), l("b"))), n3(G_SEQ, l("a"), ast_un(G_OPTION, l("b")), ast_un(G_OPTION, l("c"))));
	case 3: return n3(G_SUBSET, l("a"), l("b"), cond_ast(s, l("c")));
	case 4: return ast_many(cond_ast(s, n2(G_OR, l("a"), l("b"))), 0, 0);
	case 5: return n3(G_SEQ, ast_un(G_OPTION, l("a")), cond_ast(s, ast_leaf(G_EMPTY, NULL)), ast_many(l("b"), 0, 0));
	case 6: return cond_ast(s, n2(G_SEQ, cond_ast(s, l("a")), ast_un(G_OPTION, cond_ast(s, l("b")))));
	case 7: return n2(G_SEQ, ast_un(G_OPTION, cond_ast(s, ast_many(l("a"), 1, 0))), n2(G_OR, l("b"), l("c")));
	default: return n2(G_SEQ, ast_un(G_SHARED == G_SHARED ? G_OPTION : G_OPTION, ast_leaf(G_SHARED, NULL)),
			cond_ast(s, n2(G_SEQ, ast_leaf(G_SHARED, NULL), ast_un(G_OPTION, l("b")))));
	}
}
static void ast_drop(const struct ast *a)
{
	for (int i = 0; i < a->n; i++) ast_drop(a->ch[i]);
	free(a->ch);
	free((void *)a);
}
static struct mc_buf gt;
static void check_one(struct gram *gr, const char *const *tok, int n, int gi)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct rt *rt;
	int r;

	mc_buf_reset(&b1);
	tok_text(&b1, tok, n);
	mc_desc("%s input %s", gt.s, b1.s);
	evals = 0;
	r = ref_parse(gr, tok, n, &rt);
	if (r == R_DIVERGE && !r_error) mc_bug("reference diverges");
	v = mk_strvec(tok, n);
	errno = 0;
	p = ec_parse_strvec(gr->node, v);
	mc_trans(1);
	if (r == R_DIVERGE) {
		MC_CHECK(p == NULL && errno != 0, "error-ignored", "the condition cannot be evaluated, but parsing succeeds");
	} else {
		MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error: %s", strerror(errno));
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		rt_text(&b1, rt);
		pnode_text(&b2, gr, p);
		MC_CHECK(ec_pnode_matches(p) == (r >= 0), "match", "the input %s, it should%s: %s", ec_pnode_matches(p) ? "matches" : "does not match", r >= 0 ? "" : " not", b2.s);
		MC_CHECK(!strcmp(b1.s, b2.s), "tree", "parse tree %s instead of %s", b2.s, b1.s);
		mc_outcome(mc_hs(MC_H0, b1.s));
		if (evals) mc_nontrivial();
	}
	ec_pnode_free(p);
	if (gi == 7) { /* what follows the condition is offered if the condition holds */
		struct rcomp rc;
		struct ec_comp *c;
		struct ec_comp_item *it;
		int want = 0, got = 0, k;
		k = ref_complete(gr, tok, n, &rc);
		if (k == R_DIVERGE && !r_error) mc_bug("reference diverges");
		errno = 0;
		c = ec_complete_strvec(gr->node, v);
		mc_trans(1);
		if (k == R_DIVERGE) MC_CHECK(c == NULL && errno != 0, "error-ignored", "the condition cannot be evaluated, but completion succeeds");
		else {
			MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
			for (k = 0; k < rc.n; k++) want += rc.it[k].type == 'F' && *rc.it[k].str != 'a';
			EC_COMP_FOREACH(it, c, EC_COMP_FULL) got += *ec_comp_item_get_str(it) != 'a';
			MC_CHECK(want == got, "complete", "completion offers %d nodes after the condition instead of %d", got, want);
		}
		ec_comp_free(c);
		rcomp_free(&rc);
	}
	rt_free(rt);
	ec_strvec_free(v);
	mc_state(mc_hu(mc_hs(mc_hu(MC_H0, r), gt.s), n));
}
/* one condition on some grammars, all inputs */
static void one_cond(const char *s, unsigned grams, int maxlen)
{
	static const char *const voc[] = { "a", "b", "c" };
	const char *tok[8];
	int idx[8], n, i, gi;
	struct gram gr;
	struct cx *x;

	if (!mc_next()) return;
	mc_desc("condition %s", s);
	x = c_syntax(s);
	if (x == NULL) mc_bug("invalid condition %s", s);
	cur = x;
	r_cond = my_cond;
	/* unique identifiers, then repeated ones, also below each other */
	static const char *const ids[3][24] = { { "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1", "n1" },
		{ "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1", "n0", "n1" },
		{ "n2", "n2", "n0", "n1", "n1", "n2", "n0", "n0", "n1", "n2", "n2", "n2", "n0", "n1", "n1", "n2", "n0", "n0", "n1", "n2", "n2", "n2", "n0", "n1" } };
	for (gi = 0; gi < NGRAM * (strstr(s, "find") ? 4 : 1); gi++) {
		const struct ast *a;
		int giv = gi / NGRAM;
		gram_ids = giv ? ids[giv - 1] : NULL;
		if (!(grams >> (gi % NGRAM) & 1)) continue;
		int ml = giv && maxlen > 2 ? 2 : maxlen;
		a = grammar(gi % NGRAM, s);
		mc_buf_reset(&gt);
		ast_text(&gt, a);
		if (giv) mc_buf_add(&gt, " (repeated identifiers %d)", giv);
		mc_desc("%s", gt.s);
		MC_CHECK(gram_build(&gr, a, 0) == 0, "refused", "a valid condition is refused");
		for (n = 0; n <= ml; n++) {
			for (i = 0; i < n; i++) idx[i] = 0;
			for (;;) {
				for (i = 0; i < n; i++) tok[i] = voc[idx[i]];
				check_one(&gr, tok, n, gi % NGRAM);
				if (gi % NGRAM == 7 && n > 0 && idx[n - 1] == 0) { tok[n - 1] = ""; check_one(&gr, tok, n, gi % NGRAM); }
				for (i = n - 1; i >= 0 && ++idx[i] == 3; i--) idx[i] = 0;
				if (i < 0) break;
			}
		}
		gram_free(&gr);
		ast_drop(a);
	}
	gram_ids = NULL;
	cx_free(x);
	mc_end();
}

/* ---- syntax: all strings of lexemes -------------------------------------- */
static void syntax(const char *s)
{
	struct ec_node *node;
	struct cx *x;
	if (!mc_next()) return;
	mc_desc("condition '%s'", s);
	x = c_syntax(s);
	errno = 0;
	node = ec_node_cond("id", s, ec_node_str(EC_NO_ID, "a"));
	mc_trans(1);
	MC_CHECK((node != NULL) == (x != NULL), x ? "refused" : "accepted", "a%s condition is %s", x ? " valid" : "n invalid", x ? "refused" : "accepted");
	if (node == NULL) MC_CHECK(errno != 0, "errno", "an invalid condition is refused without setting errno");
	mc_state(mc_hs(MC_H0, s));
	mc_outcome(x != NULL);
	if (x) mc_nontrivial();
	cx_free(x);
	ec_node_free(node);
	mc_end();
}
static const char *const *lv;
static int nlv;
static char line[256];
static void rec_syntax(int left, char *end, int sep)
{
	if (left == 0) { syntax(line); return; }
	for (int i = 0; i < nlv; i++) {
		char *p = end;
		if (sep && p > line) *p++ = sep;
		p = stpcpy(p, lv[i]);
		rec_syntax(left - 1, p, sep);
		*end = 0;
	}
}

/* ---- well-typed conditions ------------------------------------------------ */
struct lst { char **v; int n, cap; };
static void put(struct lst *t, const char *f, ...)
{
	va_list ap;
	char *s;
	va_start(ap, f);
	if (vasprintf(&s, f, ap) < 0) mc_bug("alloc");
	va_end(ap);
	if (t->n == t->cap) { t->cap = t->cap * 2 + 64; t->v = realloc(t->v, t->cap * sizeof(*t->v)); }
	t->v[t->n++] = s;
}
#define ALLG 0x1ff
/* one condition, one grammar, one long input of n tokens */
static void long_cond(const char *s, int gi, int n, const char *const *tok)
{
	struct gram gr;
	struct cx *x;
	const struct ast *a;
	if (!mc_next()) return;
	mc_desc("condition %.200s", s);
	x = c_syntax(s);
	if (x == NULL) mc_bug("invalid condition %s", s);
	cur = x;
	r_cond = my_cond;
	a = grammar(gi, s);
	mc_buf_reset(&gt);
	ast_text(&gt, a);
	MC_CHECK(gram_build(&gr, a, 0) == 0, "refused", "a valid condition is refused");
	check_one(&gr, tok, n, gi);
	gram_free(&gr);
	ast_drop(a);
	cx_free(x);
	mc_end();
}
static void scale(void)
{
	static const int cnt[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300 };
	static const char *const ops[] = { "eq", "ne", "lt", "gt", "le", "ge" };
	static const int argn[] = { 2, 3, 4, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 128, 129 };
	static const char *const strs[] = { "a", "A", "ab", "aa", "b", "a.", "a.b", "a_b", "_", "true", "false", "none", "null", "no", "eq", "find", "root", "n1", "n10",
		"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab",
		"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" };
	static const char *const nums[] = { "0", "1", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "0777", "511",
		"9007199254740993", "9007199254740992", "9223372036854775806", "9223372036854775807" };
	static const char *tok[400];
	char *s = malloc(400000), *p;
	unsigned c, k, j;
	int d, m, w, i;
	r_maxdepth = 2000; r_maxwork = 100000000;
	/* node sets of many nodes: n4 is each "a" or "b" of the many, n3 each "or" (grammar 4: many(cond(or(a,b)))) */
	for (c = 0; c < sizeof(cnt) / sizeof(*cnt); c++) {
		for (i = 0; i < cnt[c]; i++) tok[i] = "a";
		for (d = 1; d <= 3; d++)	/* grammar 0: n1 cond, n2 many, n3 a */
			for (k = 0; k < 6; k++)
				for (j = 0; j < 3; j++) {
					if ((int)j == 0 && cnt[c] == 0) continue;
					sprintf(s, "cmp(%s,count(find(root(),n%d)),%d)", ops[k], d, cnt[c] - 1 + (int)j);
					long_cond(s, 0, cnt[c], tok);
				}
		long_cond("cmp(eq,find(root(),n2),find(current(),n2))", 0, cnt[c], tok);
		long_cond("cmp(eq,find(root(),n2),find(find(root(),n1),n2))", 0, cnt[c], tok);
		long_cond("cmp(ne,find(root(),n2),first_child(root()))", 0, cnt[c], tok);
		long_cond("cmp(eq,count(first_child(find(root(),n1))),1)", 0, cnt[c], tok);
		if (cnt[c] <= 65) {
			sprintf(s, "cmp(le,count(find(root(),n2)),%d)", cnt[c]);
			long_cond(s, 4, cnt[c], tok);
			sprintf(s, "cmp(lt,count(find(root(),n2)),%d)", cnt[c]);
			long_cond(s, 4, cnt[c], tok);
			sprintf(s, "cmp(eq,find(root(),n2),find(find(root(),n1),n2))");
			long_cond(s, 4, cnt[c], tok);
		}
		sprintf(s, "cmp(eq,count(find(root(),n%d)),%d)", 2, cnt[c] + 1);
		long_cond(s, 0, cnt[c], tok);
	}
	/* many arguments: the w-th one decides */
	tok[0] = "a";
	for (c = 0; c < sizeof(argn) / sizeof(*argn); c++)
		for (m = 0; m < 4; m++)
			for (w = -1; w < argn[c]; w++) {
				p = s + sprintf(s, "cmp(eq,bool(%s(", m & 1 ? "and" : "or");
				for (i = 0; i < argn[c]; i++)
					p += sprintf(p, "%s%s", i ? "," : "", (i == w) == (m & 1) ? (m & 2 ? "bool(0)" : "find(root(),n9)") : (m & 2 ? "1" : "root()"));
				sprintf(p, ")),bool(1))");
				long_cond(s, 0, 1, tok);
			}
	for (c = 0; c < sizeof(argn) / sizeof(*argn); c++) {	/* too many arguments */
		static const char *const fn[] = { "root", "current", "bool", "first_child", "find", "cmp", "count", "a" };
		for (k = 0; k < 8; k++) {
			p = s + sprintf(s, "%s(", fn[k]);
			for (i = 0; i < argn[c]; i++) p += sprintf(p, "%s%s", i ? "," : "", k == 5 && i == 0 ? "eq" : k == 4 && i == 1 ? "n1" : k == 5 ? "1" : "root()");
			sprintf(p, ")");
			long_cond(s, 0, 1, tok);
		}
	}
	/* deep conditions */
	for (d = 1; d <= 40; d++)
		for (m = 0; m < 6; m++) {
			static const char *const pre[] = { "bool(", "or(bool(0),", "and(1,", "first_child(", "cmp(eq,bool(1),", "find(" };
			static const char *const post[] = { ")", ")", ",1)", ")", ")", ",n1)" };
			static const char *const in[] = { "root()", "find(root(),n9)", "bool(0)", "1" };
			for (k = 0; k < 4; k++) {
				p = s;
				if (m == 3 || m == 5) { if (k >= 2) continue; p += sprintf(p, "cmp(eq,count("); }
				if (m == 4 && k != 2) { if (k == 3) continue; }
				for (i = 0; i < d; i++) p = stpcpy(p, pre[m]);
				p = stpcpy(p, m == 4 && k != 2 ? "bool(1)" : in[k]);
				for (i = 0; i < d; i++) p = stpcpy(p, post[m]);
				if (m == 3 || m == 5) p += sprintf(p, "),%d)", (int)(m == 5 && k == 0));
				long_cond(s, 0, 1, tok);
			}
		}
	/* strings, integers */
	for (k = 0; k < sizeof(strs) / sizeof(*strs); k++)
		for (j = 0; j < sizeof(strs) / sizeof(*strs); j++)
			for (m = 0; m < 6; m++) { sprintf(s, "cmp(%s,%s,%s)", ops[m], strs[k], strs[j]); long_cond(s, 0, 1, tok); }
	for (k = 0; k < sizeof(nums) / sizeof(*nums); k++)
		for (j = 0; j < sizeof(nums) / sizeof(*nums); j++)
			for (m = 0; m < 6; m++) { sprintf(s, "cmp(%s,%s,%s)", ops[m], nums[k], nums[j]); long_cond(s, 0, 1, tok); }
	for (k = 0; k < sizeof(strs) / sizeof(*strs); k++) {
		sprintf(s, "bool(%s)", strs[k]); long_cond(s, 0, 1, tok); long_cond(strs[k], 0, 1, tok);
		sprintf(s, "cmp(eq,and(%s,b),b)", strs[k]); long_cond(s, 0, 1, tok);
		sprintf(s, "cmp(eq,or(%s,b),%s)", strs[k], strs[k]); long_cond(s, 0, 1, tok);
	}
	for (k = 0; k < sizeof(nums) / sizeof(*nums); k++) { sprintf(s, "bool(%s)", nums[k]); long_cond(s, 0, 1, tok); long_cond(nums[k], 0, 1, tok); }
	/* blanks anywhere between the lexemes */
	{
		static const char *const lex[] = { "cmp", "(", "eq", ",", "count", "(", "find", "(", "root", "(", ")", ",", "n1", ")", ")", ",", "1", ")" };
		static const char *const bl[] = { " ", "\t", "  \t ", "                                                                                            " };
		for (m = 0; m <= 18; m++)
			for (k = 0; k < 4; k++) {
				p = s;
				*p = 0;
				for (i = 0; i < 18; i++) { if (i == m) p = stpcpy(p, bl[k]); p = stpcpy(p, lex[i]); }
				if (m == 18) stpcpy(p, bl[k]);
				long_cond(s, 0, 1, tok);
			}
		for (k = 0; k < 4; k++) {
			p = s;
			for (i = 0; i < 18; i++) { p = stpcpy(p, bl[k]); p = stpcpy(p, lex[i]); }
			stpcpy(p, bl[k]);
			long_cond(s, 0, 1, tok);
		}
	}
	/* every byte: alone, in a name, between arguments */
	for (i = 1; i < 256; i++) {
		static const char *const f[] = { "%c", "a%c", "%ca", "a%cb", "f(%c)", "f(a%c)", "f(a,%cb)", "f%c(a)", "f(a)%c", "1%c", "%c1", "1%c1", "f(a%cb)", "f(%c,a)" };
		for (k = 0; k < sizeof(f) / sizeof(*f); k++) { sprintf(s, f[k], i); syntax(s); }
	}
	free(s);
	r_maxdepth = 60; r_maxwork = 60000;
}
void mc_run(void)
{
	static const char *const lv1[] = { "f", "1", "(", ")", "," };
	static const char *const lv2[] = { "f", "1", "(", ")", ",", " ", "08", "$", "._a.B9", "a.b" };
	static const char *const funcs[] = { "root", "current", "bool", "or", "and", "first_child", "find", "cmp", "count", "foo", "Root" };
	static const char *const args[] = { "root()", "current()", "find(root(),n2)", "find(current(),n9)", "bool(0)", "1", "0", "eq", "n2" };
	static const char *const ops[] = { "eq", "ne", "lt", "gt", "le", "ge", "xx" };
	struct lst ns0 = { 0 }, ns1 = { 0 }, ns2 = { 0 }, ints = { 0 }, bl = { 0 };
	int t = mc_thorough, i, j, k, f;

	mc_case_timeout = 60;
	lv = lv1; nlv = 5;
	for (i = 0; i <= 7 + t; i++) { line[0] = 0; rec_syntax(i, line, 0); }
	lv = lv2; nlv = 10;
	for (i = 0; i <= 4 + t; i++) { line[0] = 0; rec_syntax(i, line, 0); }
	for (i = 0; i <= 3; i++) { line[0] = 0; rec_syntax(i, line, '\t'); }
	for (i = 0; i < 12; i++) { /* nesting and number of arguments */
		char *p = line;
		for (j = 0; j < i; j++) p = stpcpy(p, "f(a,");
		p = stpcpy(p, "1");
		for (j = 0; j < i; j++) p = stpcpy(p, ")");
		syntax(line);
		p[-1] = 0;
		syntax(line);
	}

	/* any function, any number of any arguments: includes all the errors */
	for (f = 0; f < 11; f++) {
		char s[256];
		snprintf(s, sizeof(s), "%s()", funcs[f]); one_cond(s, ALLG, 2);
		for (i = 0; i < 9; i++) {
			snprintf(s, sizeof(s), "%s(%s)", funcs[f], args[i]); one_cond(s, ALLG, 2);
			for (j = 0; j < 9; j++) {
				snprintf(s, sizeof(s), "%s(%s,%s)", funcs[f], args[i], args[j]); one_cond(s, 0x1a6, 2);
				for (k = 0; k < 9; k++) {
					snprintf(s, sizeof(s), "%s(%s,%s,%s)", funcs[f], args[i], args[j], args[k]); one_cond(s, t ? 0x1a6 : 0x24, 2);
				}
			}
		}
	}
	/* literals alone, integers of every notation */
	static const char *const lits[] = { "0", "1", "00", "01", "017", "08", "09", "10", "9223372036854775807", "9223372036854775808", "99999999999999999999",
		"a", "_", "n1", "a.b" };
	for (i = 0; i < 15; i++) one_cond(lits[i], ALLG, 3);
	for (i = 0; i < 12; i++)
		for (j = 0; j < 12; j++)
			for (k = 0; k < 7; k++) {
				char s[256];
				snprintf(s, sizeof(s), "cmp(%s,%s,%s)", ops[k], lits[i], lits[j]); one_cond(s, 0x1, 1);
			}
	/* node sets */
	put(&ns0, "root()"); put(&ns0, "current()");
	for (i = 0; i < ns0.n; i++) {
		put(&ns1, "%s", ns0.v[i]);
		put(&ns1, "first_child(%s)", ns0.v[i]);
		for (j = 0; j < 6; j++) put(&ns1, "find(%s,n%d)", ns0.v[i], j);
	}
	for (i = 0; i < ns1.n; i++) {
		put(&ns2, "first_child(%s)", ns1.v[i]);
		for (j = 1; j < 5; j++) put(&ns2, "find(%s,n%d)", ns1.v[i], j);
	}
	for (i = 0; i < ns1.n; i++)
		for (j = 0; j < ns1.n; j++) {
			put(&bl, "cmp(eq,%s,%s)", ns1.v[i], ns1.v[j]);
			put(&bl, "cmp(ne,%s,%s)", ns1.v[i], ns1.v[j]);
			put(&bl, "and(%s,%s)", ns1.v[i], ns1.v[j]);
			put(&bl, "or(%s,%s)", ns1.v[i], ns1.v[j]);
			put(&bl, "cmp(lt,count(%s),count(%s))", ns1.v[i], ns1.v[j]);
			put(&bl, "cmp(eq,count(or(%s,%s)),1)", ns1.v[i], ns1.v[j]);
			if (t) for (k = 0; k < ns1.n; k++) {
				put(&bl, "and(%s,%s,%s)", ns1.v[i], ns1.v[j], ns1.v[k]);
				put(&bl, "or(%s,and(%s,%s))", ns1.v[i], ns1.v[j], ns1.v[k]);
				put(&bl, "cmp(eq,bool(%s),bool(and(%s,%s)))", ns1.v[i], ns1.v[j], ns1.v[k]);
			}
		}
	for (i = 0; i < ns1.n; i++) {
		put(&bl, "%s", ns1.v[i]);
		for (j = 0; j < 7; j++) for (k = 0; k < 4; k++) put(&bl, "cmp(%s,count(%s),%d)", ops[j], ns1.v[i], k);
		for (k = 0; k < 4; k++) put(&bl, "cmp(le,%d,count(%s))", k, ns1.v[i]);
	}
	for (i = 0; i < ns2.n; i++) {
		put(&bl, "%s", ns2.v[i]);
		put(&bl, "cmp(eq,count(%s),1)", ns2.v[i]);
		put(&bl, "cmp(gt,count(%s),1)", ns2.v[i]);
		if (t) for (j = 0; j < ns1.n; j++) put(&bl, "cmp(eq,%s,%s)", ns2.v[i], ns1.v[j]);
	}
	for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) for (k = 0; k < 4; k++) put(&bl, "or(and(%d,%d),%d,%s)", i & 1, j & 1, k & 1, i & 2 ? "a" : "0");
	(void)ints;
	scale();
	for (i = 0; i < bl.n; i++) one_cond(bl.v[i], ALLG, 3);
}
