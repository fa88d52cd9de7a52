/* C13: command format strings. Every format up to a number of lexemes, parsed by an independent
 * recursive descent parser into a grammar, whose reference semantics gives the expected results. */
#include <ecoli.h>
#include "gram.h"

static struct mc_buf b1, b2, fmt;

/* ---- the child nodes given to the command ------------------------------- */
#define NKIND 7
static const struct ast *xast[NKIND];
static const char *const xname[NKIND] = { "or(a,c)", "seq(a,b)", "subset(a,b)", "str(c)", "many(a)", "option(b)", "or(seq(a,b),a)" };
static struct ast *lit(const char *s) { return ast_leaf(G_STR, s); }
static void init_x(void)
{
	const struct ast *c[3], *d[3];
	c[0] = lit("a"); c[1] = lit("c"); xast[0] = ast_n(G_OR, 2, c);
	c[0] = lit("a"); c[1] = lit("b"); xast[1] = ast_n(G_SEQ, 2, c);
	c[0] = lit("a"); c[1] = lit("b"); xast[2] = ast_n(G_SUBSET, 2, c);
	xast[3] = lit("c");
	xast[4] = ast_many(lit("a"), 1, 0);
	xast[5] = ast_un(G_OPTION, lit("b"));
	c[0] = lit("a"); c[1] = lit("b"); d[0] = ast_n(G_SEQ, 2, c); d[1] = lit("a"); xast[6] = ast_n(G_OR, 2, d);
}
static struct ec_node *mk_x(int kind, const char *id)
{
#define S(s) ec_node_str(EC_NO_ID, s)
	switch (kind) {
	case 0: return EC_NODE_OR(id, S("a"), S("c"));
	case 1: return EC_NODE_SEQ(id, S("a"), S("b"));
	case 2: return EC_NODE_SUBSET(id, S("a"), S("b"));
	case 3: return ec_node_str(id, "c");
	case 4: return ec_node_many(id, S("a"), 1, 0);
	case 5: return ec_node_option(id, S("b"));
	default: return EC_NODE_OR(id, EC_NODE_SEQ(EC_NO_ID, S("a"), S("b")), S("a"));
	}
}

/* ---- reference parser of the format ------------------------------------- */
static const char *fp;
static const struct ast *id_ast[2]; /* grammar of ids "X" and "Y", NULL: a plain word */
static const char *idn[2] = { "X", "Y" };
static void fskip(void) { while (*fp == ' ' || *fp == '\t') fp++; }
static int is_word(int c) { return c && (strchr("_-", c) || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); }
/* the label of user nodes is in ->s of a wrapping bypass: see labels below */
static struct ast *f_seq(void);
static struct ast *f_prim(void)
{
	struct ast *a = NULL;
	fskip();
	if (is_word(*fp)) {
		const char *s = fp;
		char *w;
		while (is_word(*fp)) fp++;
		w = strndup(s, fp - s);
		for (int i = 0; i < 2; i++)
			if (a == NULL && id_ast[i] != NULL && !strcmp(w, idn[i])) {
				a = ast_un(G_BYPASS, id_ast[i]);
				a->s = i ? "Y" : "X";
			}
		if (a == NULL) a = lit(w);
		else free(w);
	} else if (*fp == '[' || *fp == '(') {
		char o = *fp++;
		a = f_seq();
		if (a == NULL) return NULL;
		fskip();
		if (*fp != (o == '[' ? ']' : ')')) return NULL;
		fp++;
		if (o == '[') a = ast_un(G_OPTION, a);
		else a = ast_un(G_BYPASS, a); /* a group */
	} else {
		return NULL;
	}
	for (;;) {
		fskip();
		if (*fp == '*') a = ast_many(a, 0, 0);
		else if (*fp == '+') a = ast_many(a, 1, 0);
		else return a;
		fp++;
	}
}
static struct ast *f_list(int level)
{
	const struct ast *c[80];
	int n = 0;
	for (;;) {
		c[n] = level == 0 ? f_prim() : f_list(level - 1);
		if (c[n] == NULL) return NULL;
		n++;
		fskip();
		if (level == 2) { /* juxtaposition */
			if (!is_word(*fp) && *fp != '[' && *fp != '(') break;
		} else if (*fp == ",|"[level]) fp++;
		else break;
		if (n >= 80) mc_bug("format too long");
	}
	if (n == 1) return (struct ast *)c[0];
	return ast_n(level == 0 ? G_SUBSET : level == 1 ? G_OR : G_SEQ, n, c);
}
static struct ast *f_seq(void) { return f_list(2); }
static struct ast *ref_format(const char *s)
{
	struct ast *a;
	for (const char *p = s; *p; p++)
		if (!is_word(*p) && !strchr("+*|,()[] \t", *p)) return NULL;
	fp = s;
	a = f_seq();
	fskip();
	return a != NULL && *fp == 0 ? a : NULL;
}
static void ast_free(const struct ast *a)
{
	for (int i = 0; i < 2; i++) if (a == id_ast[i]) return;
	for (int i = 0; i < a->n; i++) ast_free(a->ch[i]);
	if (a->k == G_STR) free((void *)a->s);
	free(a->ch);
	free((void *)a);
}

/* ---- projection of parse trees: words and user nodes --------------------- */
static void proj_rt(struct mc_buf *b, const struct rt *t)
{
	const char *label = t->g->k == G_BYPASS ? t->g->s : NULL;
	if (label) mc_buf_add(b, "%s<", label);
	if (t->g->k == G_STR) mc_buf_add(b, "%d:%s ", t->len, t->g->s);
	for (const struct rt *c = t->first; c; c = c->next) proj_rt(b, c);
	if (label) mc_buf_add(b, ">");
}
static struct ec_node *xnode[2];
static void proj_p(struct mc_buf *b, const struct ec_pnode *p)
{
	const struct ec_node *n = ec_pnode_get_node(p);
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const char *label = NULL;
	struct ec_pnode *c;
	for (int i = 0; i < 2; i++) if (xnode[i] != NULL && n == xnode[i]) label = i ? "Y" : "X";
	if (label) mc_buf_add(b, "%s<", label);
	if (!strcmp(ec_node_get_type_name(n), "str"))
		mc_buf_add(b, "%d:%s ", (int)ec_strvec_len(v), ec_strvec_len(v) == 1 ? ec_strvec_val(v, 0) : "?");
	EC_PNODE_FOREACH_CHILD(c, p) proj_p(b, c);
	if (label) mc_buf_add(b, ">");
}
static void describe(struct mc_buf *b, const struct ec_node *n, int depth)
{
	struct ec_node *c; unsigned refs;
	mc_buf_add(b, "%s:%s(", ec_node_get_type_name(n), ec_node_id(n));
	for (size_t i = 0; depth && i < ec_node_get_children_count(n); i++)
		if (ec_node_get_child(n, i, &c, &refs) == 0) describe(b, c, depth - 1);
	mc_buf_add(b, ")");
}

static void check_input(struct gram *gr, struct ec_node *cmd, const char *const *tok, int n, const char *ctx)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct ec_comp *c;
	struct ec_comp_item *it;
	struct rcomp rc;
	struct rt *rt;
	int r, i;
	uint64_t h;

	mc_buf_reset(&b1);
	tok_text(&b1, tok, n);
	mc_desc("%s input %s", ctx, b1.s);
	v = mk_strvec(tok, n);
	if (v == NULL) mc_bug("alloc");
	r = ref_parse(gr, tok, n, &rt);
	if (r == R_DIVERGE) { rt_free(rt); ec_strvec_free(v); return; }
	p = ec_parse_strvec(cmd, v);
	mc_trans(1);
	MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
	MC_CHECK((r >= 0) == ec_pnode_matches(p), "match", "the command %s, the grammar it denotes %s",
		ec_pnode_matches(p) ? "matches" : "does not match", r >= 0 ? "does" : "does not");
	mc_buf_reset(&b1); mc_buf_reset(&b2);
	if (r >= 0) {
		MC_CHECK((size_t)r == ec_pnode_len(p), "len", "the command matches %zu strings, the grammar it denotes %d", ec_pnode_len(p), r);
		MC_CHECK(ec_pnode_get_node(p) == cmd, "root", "the root of the parse tree is not the command");
		proj_rt(&b1, rt);
		proj_p(&b2, p);
		MC_CHECK(!strcmp(b1.s, b2.s), "tree", "the command parses as %s instead of %s", b2.s, b1.s);
		if (r) mc_nontrivial();
	}
	h = mc_hu(mc_hs(MC_H0, b1.len ? b1.s : ""), r);
	mc_outcome(h);
	rt_free(rt);
	ec_pnode_free(p);
	r = ref_complete(gr, tok, n, &rc);
	if (r != R_DIVERGE) {
		c = ec_complete_strvec(cmd, v);
		mc_trans(1);
		MC_CHECK(c != NULL, "complete-error", "ec_complete_strvec() reports an error");
		i = 0;
		EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
			const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it);
			MC_CHECK(i < rc.n, "extra-item", "more than the %d expected completions: %s", rc.n, s ? s : "(unknown)");
			MC_CHECK((ec_comp_item_get_type(it) == EC_COMP_FULL) == (rc.it[i].type == 'F') && s != NULL && rc.it[i].str != NULL &&
				!strcmp(s, rc.it[i].str) && !strcmp(cm, rc.it[i].completion), "item",
				"completion %d is %s(%s) instead of %s(%s)", i, s ? s : "?", cm ? cm : "?",
				rc.it[i].str ? rc.it[i].str : "?", rc.it[i].completion ? rc.it[i].completion : "?");
			h = mc_hs(h, s);
			i++;
		}
		MC_CHECK(i == rc.n, "missing-item", "%d completions instead of %d", i, rc.n);
		ec_comp_free(c);
	}
	rcomp_free(&rc);
	ec_strvec_free(v);
	mc_state(mc_hs(h, fmt.s));
}

static char *ctxdup;
/* nx: number of children (X, Y); kind: their grammar */
static void one_format(const char *s, int nx, int kx, int ky, int maxlen, const char *const *toks, int ntoks)
{
	struct ec_node *cmd;
	struct ast *a;
	struct gram gr;
	char *d0[2] = { NULL, NULL };
	const char *tok[80];
	int idx[8], n, i;

	mc_desc("format '%s' %s=%s %s=%s", s, idn[0], nx > 0 ? xname[kx] : "none", idn[1], nx > 1 ? xname[ky] : "none");
	free(ctxdup);
	if (asprintf(&ctxdup, "format '%.800s' %s=%s %s=%s", s, idn[0], nx > 0 ? xname[kx] : "none", idn[1], nx > 1 ? xname[ky] : "none") < 0) mc_bug("alloc");
	id_ast[0] = nx > 0 ? xast[kx] : NULL;
	id_ast[1] = nx > 1 ? xast[ky] : NULL;
	a = ref_format(s);
	xnode[0] = xnode[1] = NULL;
	for (i = 0; i < nx; i++) {
		xnode[i] = mk_x(i ? ky : kx, idn[i]);
		if (xnode[i] == NULL) mc_bug("cannot build a child");
		mc_buf_reset(&b1);
		describe(&b1, xnode[i], 3);
		d0[i] = strdup(b1.s);
		ec_node_clone(xnode[i]);
	}
	errno = 0;
	switch (nx) {
	case 0: cmd = EC_NODE_CMD("cmd", s); break;
	case 1: cmd = EC_NODE_CMD("cmd", s, xnode[0]); break;
	default: cmd = EC_NODE_CMD("cmd", s, xnode[0], xnode[1]); break;
	}
	mc_trans(1);
	mc_state(mc_hs(mc_hu(MC_H0, nx * 100 + kx * 10 + ky), s));
	if (a == NULL) {
		MC_CHECK(cmd == NULL, "accepted", "an invalid format is accepted");
		MC_CHECK(errno != 0, "errno", "an invalid format is refused without setting errno");
	} else {
		MC_CHECK(cmd != NULL, "refused", "a valid format is refused");
		mc_buf_reset(&fmt);
		mc_buf_add(&fmt, "%s", s);
		if (gram_build(&gr, a, 0) < 0) mc_bug("cannot build the reference");
		if (toks == NULL) { /* maxlen < 0: the words of the format themselves */
			for (n = 0; n <= -maxlen; n++) {
				char w[80][8];
				for (i = 0; i < n; i++) { snprintf(w[i], 8, "w%d", i); tok[i] = w[i]; }
				check_input(&gr, cmd, tok, n, ctxdup);
				if (n > 0) {
					tok[n - 1] = "";
					check_input(&gr, cmd, tok, n, ctxdup);
					tok[0] = w[n - 1]; strcpy(w[n - 1], "w");
					snprintf(w[n - 1], 8, "w%d", n - 1);
					check_input(&gr, cmd, tok, 1, ctxdup);
				}
			}
		} else for (n = 0; n <= maxlen; n++) {
			for (i = 0; i < n; i++) idx[i] = 0;
			for (;;) {
				for (i = 0; i < n; i++) tok[i] = toks[idx[i]];
				check_input(&gr, cmd, tok, n, ctxdup);
				for (i = n - 1; i >= 0 && ++idx[i] == ntoks; i--) idx[i] = 0;
				if (i < 0) break;
			}
		}
		gram_free(&gr);
		ast_free(a);
	}
	for (i = 0; i < nx; i++) {
		mc_buf_reset(&b1);
		describe(&b1, xnode[i], 3);
		MC_CHECK(!strcmp(b1.s, d0[i]), "child-modified", "building the command changes its child %s: %s became %s", i ? "Y" : "X", d0[i], b1.s);
	}
	ec_node_free(cmd);
	for (i = 0; i < nx; i++) {
		mc_buf_reset(&b1);
		describe(&b1, xnode[i], 3);
		MC_CHECK(!strcmp(b1.s, d0[i]), "child-after", "freeing the command changes its child: %s became %s", d0[i], b1.s);
		ec_node_free(xnode[i]);
		free(d0[i]);
	}
}

static const char *const in_std[] = { "a", "b", "c", "" };
static const char *const in_ab[] = { "a", "b", "" };

static const char *const *voc;
static int nvoc, spaced, v_nx, v_len;
static const char *const *v_in;
static int v_nin, v_maxin;
static char line[512];
static void rec_format(int pos, int left, char *end)
{
	if (left == 0) {
		int xn = strstr(line, idn[0]) ? v_nx : 0;
		int kx, ky;
		if (!mc_next()) return;
		if (v_nx == 0) one_format(line, 0, 0, 0, v_maxin, v_in, v_nin);
		else if (v_nx == 1)
			for (kx = 0; kx < (xn ? NKIND : 1); kx++) one_format(line, 1, kx, 0, v_maxin, v_in, v_nin);
		else
			for (kx = 0; kx < (xn ? NKIND : 1); kx++)
				for (ky = 0; ky < (strstr(line, idn[1]) ? 4 : 1); ky++)
					one_format(line, 2, kx, ky, v_maxin, v_in, v_nin);
		mc_end();
		return;
	}
	for (int i = 0; i < nvoc; i++) {
		char *p = end;
		if (pos && (spaced || (is_word(end[-1]) && is_word(voc[i][0])))) *p++ = ' ';
		if (pos && spaced > 1) *p++ = '\t';
		p = stpcpy(p, voc[i]);
		rec_format(pos + 1, left - 1, p);
		*end = 0;
	}
}
static void all_formats(const char *const *vo, int nv, int len, int sp, int nx, const char *const *in, int nin, int maxin)
{
	voc = vo; nvoc = nv; spaced = sp; v_nx = nx; v_in = in; v_nin = nin; v_maxin = maxin;
	for (int l = 0; l <= len; l++) { line[0] = 0; rec_format(0, l, line); }
}
static void family(const char *sep, const char *open, const char *close, int n, int nest)
{
	static char s[4096];
	char *p = s;
	int i;
	if (!mc_next()) return;
	if (nest) {
		for (i = 0; i < n; i++) p = stpcpy(p, open);
		p = stpcpy(p, "w0");
		for (i = 0; i < n; i++) p = stpcpy(p, close);
	} else {
		p = stpcpy(p, open);
		for (i = 0; i < n; i++) p += sprintf(p, "%sw%d", i ? sep : "", i);
		p = stpcpy(p, close);
	}
	one_format(s, 0, 0, 0, -(nest ? 2 : n), NULL, 0);
	mc_end();
}
/* n children, given through the configuration, used in another order; then other formats on the same node */
static struct ec_config *mk_conf(const char *expr, struct ec_node **x, int n)
{
	struct ec_config *c = ec_config_dict(), *l = ec_config_list();
	ec_config_dict_set(c, "expr", ec_config_string(expr));
	for (int i = 0; i < n; i++) ec_config_list_add(l, ec_config_node(ec_node_clone(x[i])));
	ec_config_dict_set(c, "children", l);
	return c;
}
static void expect_cmd(struct ec_node *cmd, int mode, struct ec_node **x, int n, int step)
{
	const char *tok[80];
	char w[80][12];
	struct ec_strvec *v;
	struct ec_pnode *p;
	int i;
	for (i = 0; i < n; i++) snprintf(w[i], sizeof(w[i]), "s%d", i * step % n);
	if (mode == 0) {            /* sequence */
		for (i = 0; i < n; i++) tok[i] = w[i];
		for (i = n - 1; i <= n; i++) {
			v = mk_strvec(tok, i);
			p = ec_parse_strvec(cmd, v);
			ec_strvec_free(v);
			MC_CHECK(p != NULL, "many-error", "parsing fails");
			MC_CHECK(ec_pnode_matches(p) == (i == n), "many-seq", "the sequence of %d children %s %d words", n, i == n ? "does not match" : "matches", i);
			for (int k = 0; i == n && k < n; k++)
				MC_CHECK(ec_pnode_find(p, ec_node_id(x[k])) != NULL, "many-seq-child", "child %d is not in the tree", k);
			ec_pnode_free(p);
			mc_trans(1);
		}
		return;
	}
	for (i = 0; i <= n; i++) {   /* alternatives */
		const struct ec_pnode *q;
		p = ec_parse(cmd, i < n ? w[i] : "s");
		mc_trans(1);
		MC_CHECK(p != NULL, "many-error", "parsing fails");
		MC_CHECK(ec_pnode_matches(p) == (i < n), "many-or", "alternative %d of %d", i, n);
		if (i < n) {
			q = ec_pnode_find(p, ec_node_id(x[i * step % n]));
			MC_CHECK(q != NULL && ec_pnode_get_node(q) == x[i * step % n], "many-or-child", "%s is not matched by child %d", w[i], i * step % n);
		}
		ec_pnode_free(p);
	}
	struct ec_comp *c = ec_complete(cmd, "s");
	struct ec_comp_item *it;
	i = 0;
	MC_CHECK(c != NULL && ec_comp_count(c, EC_COMP_ALL) == (size_t)n, "many-comp", "not %d completions", n);
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		MC_CHECK(!strcmp(ec_comp_item_get_str(it), w[i]), "many-comp-order", "completion %d is %s instead of %s", i, ec_comp_item_get_str(it), w[i]);
		i++;
	}
	ec_comp_free(c);
}
static void many_children(int n, int step, int mode, int mode2)
{
	struct ec_node *x[80], *cmd;
	static char e[2][4096];
	char id[16], w[16];
	int i, m;
	mc_desc("%d children, format %d then %d, step %d", n, mode, mode2, step);
	for (i = 0; i < n; i++) {
		snprintf(id, sizeof(id), "X%d", i); snprintf(w, sizeof(w), "s%d", i);
		x[i] = ec_node_str(id, w);
	}
	for (m = 0; m < 2; m++) {
		char *p = e[m];
		*p = 0;
		for (i = 0; i < n; i++) p += sprintf(p, "%sX%d", i ? ((m ? mode2 : mode) ? "|" : " ") : "", i * step % n);
	}
	cmd = ec_node("cmd", "cmd");
	MC_CHECK(cmd != NULL && ec_node_set_config(cmd, mk_conf(e[0], x, n)) == 0, "many-config", "configuration refused");
	expect_cmd(cmd, mode, x, n, step);
	MC_CHECK(ec_node_set_config(cmd, mk_conf("a |", x, n)) < 0, "many-bad", "invalid format accepted");
	expect_cmd(cmd, mode, x, n, step);
	MC_CHECK(ec_node_set_config(cmd, mk_conf(e[1], x, n)) == 0, "many-config", "second configuration refused");
	expect_cmd(cmd, mode2, x, n, step);
	ec_node_free(cmd);
	for (i = 0; i < n; i++) ec_node_free(x[i]);
	mc_state(mc_hu(mc_hu(MC_H0, n * 4 + mode * 2 + mode2), step));
	mc_nontrivial();
}
static void words(void)
{
	static const int wlen[] = { 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1025 };
	static char w[3][1100], f[64];
	const char *in[4];
	int n, i, k;
	/* every byte, alone and inside a word */
	for (i = 1; i < 256; i++) for (k = 0; k < 4; k++) {
		if (!mc_next()) continue;
		snprintf(f, sizeof(f), k == 0 ? "%c" : k == 1 ? "a%cb" : k == 2 ? "a %c" : "%ca|b", i);
		snprintf(w[0], 8, "%c", i); snprintf(w[1], 8, "a%cb", i); snprintf(w[2], 8, "%ca", i);
		in[0] = w[0]; in[1] = w[1]; in[2] = "a"; in[3] = w[2];
		one_format(f, 0, 0, 0, 2, in, 4);
		mc_end();
	}
	for (k = 1; k < 57; k++) {
		if (!mc_next()) continue;
		n = k < 40 ? k : wlen[k - 40];
		for (i = 0; i < n; i++) w[0][i] = w[1][i] = w[2][i] = 'a' + i % 23;
		w[0][n] = 0; w[1][n - 1] = 0; w[2][n] = 'q'; w[2][n + 1] = 0;
		in[0] = w[0]; in[1] = w[1]; in[2] = w[2]; in[3] = "c";
		one_format(w[0], 0, 0, 0, 1, in, 4);
		/* the same as an identifier; another one that is longer */
		idn[0] = w[0]; idn[1] = w[2];
		one_format(w[0], 1, 3, 0, 1, in, 4);
		one_format(w[0], 2, 3, 1, 1, in, 4);
		one_format(w[2], 2, 3, 5, 1, in, 4);
		idn[0] = "X"; idn[1] = "Y";
		mc_end();
	}
	for (n = 1; n <= 70; n = n < 20 ? n + 1 : n + 7)
		for (k = 0; k < 4; k++)
			for (i = 1; i <= n && i < 3; i++) {
				int step = i == 2 ? n - 1 : 1;
				if (i == 2 && n < 3) continue;
				if (!mc_next()) continue;
				many_children(n, step, k & 1, k >> 1);
				mc_end();
			}
}
/* all formats made of n words combined by the operators, each operand that is not a word being in parentheses */
struct slist { char **v; int n, cap; };
static struct slist fl[5][3];
static void sadd(struct slist *l, const char *f, ...) __attribute__((format(printf, 2, 3)));
static void sadd(struct slist *l, const char *f, ...)
{
	va_list ap;
	char *s;
	va_start(ap, f);
	if (vasprintf(&s, f, ap) < 0) mc_bug("alloc");
	va_end(ap);
	if (l->n == l->cap) { l->cap = l->cap * 2 + 64; l->v = realloc(l->v, l->cap * sizeof(*l->v)); }
	l->v[l->n++] = s;
}
static int atom(const char *s) 
{
	int d = 0;
	if (s[1] == 0) return 1;
	if (s[0] != '[') return 0;
	for (; *s; s++) {
		d += *s == '(' || *s == '[';
		d -= *s == ')' || *s == ']';
		if (d == 0) return s[1] == 0;
	}
	return 0;
}
/* a group at the beginning of a sequence is a part of this sequence: (a b) c is a b c, completions may differ from those
 * of a sequence in a sequence */
static int is_seq(const char *s)
{
	int d = 0;
	for (; *s; s++) {
		if (*s == ' ' && d == 0) return 1;
		d += *s == '(' || *s == '[';
		d -= *s == ')' || *s == ']';
	}
	return 0;
}
static void gen_trees(int n, int u)
{
	static const char *const op[] = { " ", "|", "," };
	struct slist *l = &fl[n][u], *x, *y;
	if (n == 1 && u == 0) { sadd(l, "a"); sadd(l, "b"); sadd(l, "X"); return; }
	if (u > 0)
		for (int i = 0; i < fl[n][u - 1].n; i++) {
			const char *s = fl[n][u - 1].v[i];
			sadd(l, atom(s) && s[0] != '[' ? "%s*" : "(%s)*", s);
			sadd(l, atom(s) && s[0] != '[' ? "%s+" : "(%s)+", s);
			sadd(l, "[%s]", s);
		}
	for (int n1 = 1; n1 < n; n1++)
		for (int u1 = 0; u1 <= u; u1++) {
			x = &fl[n1][u1]; y = &fl[n - n1][u - u1];
			for (int o = 0; o < 3; o++)
				for (int i = 0; i < x->n; i++) for (int j = 0; j < y->n; j++) {
					int px = !atom(x->v[i]) && !(o == 0 && is_seq(x->v[i])), py = !atom(y->v[j]);
					sadd(l, "%s%s%s%s%s%s%s", px ? "(" : "", x->v[i], px ? ")" : "", op[o], py ? "(" : "", y->v[j], py ? ")" : "");
				}
		}
}
static void trees(int maxn, int maxu)
{
	for (int n = 1; n <= 4; n++) for (int u = 0; u <= 2; u++) {
		struct slist *l = &fl[n][u];
		if (n + u > (mc_thorough ? 5 : 4) || n > maxn || u > maxu) continue;
		gen_trees(n, u);
		for (int i = 0; i < l->n; i++) {
			int x = strchr(l->v[i], 'X') != NULL;
			if (!mc_next()) continue;
			for (int k = 0; k < (x ? 2 : 1); k++) one_format(l->v[i], x, k ? 6 : 1, 0, 3, in_ab, 3);
			mc_end();
		}
	}
}
/* repetitions have no limit */
static void repeated(void)
{
	static const int len[] = { 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300, 510, 512, 514, 1000 };
	static const char *const f[] = { "a*", "a+", "(a b)*", "(a b)+", "(a|b)+", "[a|b]*", "(X)+", "a a*", "(a,b)+" };
	static const char *tok[1100];
	for (size_t k = 0; k < sizeof(f) / sizeof(*f); k++)
		for (size_t l = 0; l < sizeof(len) / sizeof(*len); l++) {
			struct ec_node *cmd;
			struct ec_strvec *v;
			struct ec_pnode *p;
			int ab = k == 2 || k == 3 || k == 6, n = ab ? len[l] & ~1 : len[l], want = n;
			if (n == 0) continue;
			if (!mc_next()) continue;
			mc_desc("format '%s' on %d words", f[k], n);
			for (int i = 0; i < n; i++) tok[i] = i % 2 && k != 0 && k != 1 && k != 7 ? "b" : "a";
			tok[n] = "c";
			cmd = EC_NODE_CMD("cmd", f[k], EC_NODE_SEQ("X", ec_node_str(EC_NO_ID, "a"), ec_node_str(EC_NO_ID, "b")));
			MC_CHECK(cmd != NULL, "refused", "a valid format is refused");
			for (int e = 0; e < 2; e++) {
				v = mk_strvec(tok, n + e);
				p = ec_parse_strvec(cmd, v);
				mc_trans(1);
				MC_CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == (size_t)want, "repeat",
					"%zu words match instead of %d", p ? ec_pnode_len(p) : 0, want);
				ec_pnode_free(p);
				ec_strvec_free(v);
			}
			ec_node_free(cmd);
			mc_nontrivial();
			mc_state(mc_hu(mc_hs(MC_H0, f[k]), n));
			mc_end();
		}
}
void mc_run(void)
{
	static const char *const v0[] = { "a", "b", "|", ",", "[", "]", "(", ")", "*", "+" };
	static const char *const v1[] = { "a", "X", "|", ",", "[", "]", "(", ")", "*", "+" };
	static const char *const v2[] = { "a", "X", "Y", "|", ",", "(", ")", "[", "]", "*" };
	static const char *const v3[] = { "a", "b", "c", "|", ",", "(", ")" };
	static const char *const v4[] = { "a", "b_-Z9", "$", "\t", "|", "\"", "{", "\n", "." };
	static const char *const v5[] = { "a", "X", "|", "," };
	static const char *const v6[] = { "ab", "abc", "bc", "AB", "a", "ab-c", "_", "9", "X", "|" };
	static const char *const ids[][2] = { { "ab", "abc" }, { "abc", "ab" }, { "X", "X" }, { "a", "AB" }, { "", "ab-c" }, { "_", "9" }, { "|", "bc" } };
	static const char *const in_id[] = { "a", "b", "c", "ab", "abc", "bc", "AB", "ab-c" };
	int t = mc_thorough ? 1 : 0;

	init_x();
	words();
	trees(4, t ? 2 : 1);
	repeated();
	all_formats(v0, 10, 5 + t, 0, 0, in_ab, 3, 3);
	all_formats(v0, 10, 4, 2, 0, in_ab, 3, 2);
	all_formats(v1, 10, 4 + t, 0, 1, in_std, 4, 3);
	all_formats(v2, 10, 4, 1, 2, in_std, 4, 2 + t);
	all_formats(v3, 7, 6 + t, 0, 0, in_std, 4, 3);
	all_formats(v4, 9, 3 + t, 0, 0, in_ab, 3, 2);
	all_formats(v5, 4, 6 + t, 0, 1, in_std, 4, 3);
	/* identifiers that are the beginning, the end or a variant of a word or of each other */
	for (size_t i = 0; i < sizeof(ids) / sizeof(ids[0]); i++) {
		idn[0] = ids[i][0]; idn[1] = ids[i][1];
		all_formats(v6, 10, 2 + t, 1, 2, in_id, 8, 2);
	}
	idn[0] = "X"; idn[1] = "Y";
	for (int n = 1; n <= (t ? 40 : 24); n++) {
		family(" ", "", "", n, 0);
		family("|", "", "", n, 0);
		family("*|", "(", ")*", n, 0);
		family("+ ", "[", "]", n, 0);
		if (n <= 5) family(",", "", "", n, 0);
		if (n <= 12) {
			family("", "[", "]", n, 1);
			family("", "(", ")", n, 1);
			family("", "[(", ")]", n, 1);
			if (n <= 6) family("", "(", ")*", n, 1);
		}
	}
}
