/* C05: sh_lex nodes: parse and completion of whole lines. */
#include <ecoli.h>
#include "gram.h"
#include "shlex_ref.h"

static struct rlex r;
static struct mc_buf db, b1, b2, lb;

static const struct ast leaf[] = { { .k = G_STR, .s = "a" }, { .k = G_STR, .s = "ab" }, { .k = G_STR, .s = "b" },
	{ .k = G_STR, .s = "" }, { .k = G_ANY }, { .k = G_EMPTY } };
static const struct ast unary[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_ONCE } };
static const enum gk nary[] = { G_SEQ, G_OR, G_SUBSET };
static const struct alphabet al = { leaf, 6, unary, 3, nary, 3, 2 };

static int plain(const char *s)
{
	return *s != 0 && strpbrk(s, " \t\n\v\f\r'\"\\#") == NULL;
}
static int same(const char *a, const char *b) { return a == NULL || b == NULL ? a == b : !strcmp(a, b); }
static const char *eq(const char *a, const char *b)
{
	if (a == NULL || b == NULL) return a == b ? "" : NULL;
	return strcmp(a, b) ? NULL : "";
}

static void check_line(struct gram *gr, struct ec_node *sh, const char *line)
{
	const char *tok[700];
	struct ec_pnode *p;
	struct ec_comp *c;
	struct ec_comp_item *it;
	struct rcomp rc;
	struct rt *rt;
	int n, i, exp;
	char q;
	static struct rlex r2;

	mc_buf_reset(&lb);
	mc_buf_str(&lb, line);
	mc_desc("sh_lex(%s) line %s", db.s, lb.s);
	ref_shlex(line, &r);
	n = r.n;
	for (i = 0; i < n; i++) tok[i] = r.buf + r.off[i];

	/* parse */
	exp = ref_parse(gr, tok, n, &rt);
	if (r.unterminated || exp != n) exp = R_NOMATCH;
	p = ec_parse(sh, line);
	mc_trans(1);
	MC_CHECK(p != NULL, "parse-error", "ec_parse() reports an error");
	if (exp == R_NOMATCH) {
		MC_CHECK(!ec_pnode_matches(p), "match", "the line matches, the words must not");
		MC_CHECK(ec_pnode_get_first_child(p) == NULL, "nomatch-child", "no match, but the tree has children");
	} else {
		MC_CHECK(ec_pnode_matches(p), "nomatch", "the line does not match, the words must");
		MC_CHECK(ec_pnode_len(p) == 1 && !strcmp(ec_strvec_val(ec_pnode_get_strvec(p), 0), line), "consumed", "the line is not the string consumed");
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		rt_text(&b1, rt);
		MC_CHECK(ec_pnode_get_first_child(p) != NULL && ec_pnode_get_first_child(p) == ec_pnode_get_last_child(p), "one-child", "one child expected");
		pnode_text(&b2, gr, ec_pnode_get_first_child(p));
		MC_CHECK(!strcmp(b1.s, b2.s), "tree", "tree of the child: %s instead of %s", b2.s, b1.s);
		if (n > 0) mc_nontrivial();
	}
	rt_free(rt);
	ec_pnode_free(p);

	/* completion */
	if (r.blank_end) tok[n++] = "";
	q = r.quote;
	ref_complete(gr, tok, n, &rc);
	c = ec_complete(sh, line);
	mc_trans(1);
	MC_CHECK(c != NULL, "complete-error", "ec_complete() reports an error");
	i = 0;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		enum ec_comp_type t = ec_comp_item_get_type(it);
		const char *s = ec_comp_item_get_str(it), *cm = ec_comp_item_get_completion(it);
		MC_CHECK(i < rc.n, "extra-item", "more than the %d expected items: %s", rc.n, s ? s : "(unknown)");
		MC_CHECK(t == (rc.it[i].type == 'F' ? EC_COMP_FULL : EC_COMP_UNKNOWN), "type", "item %d: type %d", i, t);
		MC_CHECK(ec_comp_item_get_node(it) == rc.it[i].g->node, "node", "item %d: wrong node", i);
		if (t == EC_COMP_FULL) {
			static char es[9000], ec[9000];
			snprintf(es, sizeof(es), q ? "%c%s%c" : "%2$s", q, rc.it[i].str, q);
			snprintf(ec, sizeof(ec), q ? "%s%c" : "%s", rc.it[i].completion, q);
			MC_CHECK(eq(s, es), "str", "item %d: text <%s> instead of <%s>", i, s ? s : "(null)", es);
			MC_CHECK(eq(cm, ec), "completion", "item %d: completion <%s> instead of <%s>", i, cm ? cm : "(null)", ec);
			/* round trip */
			if (!r.comment_end && plain(rc.it[i].str) &&
					!(r.pending && rc.it[i].completion[0] == 0)) {
				static char nl[20000];
				snprintf(nl, sizeof(nl), "%s%s", line, cm);
				ref_shlex(nl, &r2);
				MC_CHECK(r2.n == n && !r2.unterminated, "roundtrip", "<%s> has %d words instead of %d", nl, r2.n, n);
				for (int k = 0; k < n; k++)
					MC_CHECK(!strcmp(r2.buf + r2.off[k], k == n - 1 ? rc.it[i].str : tok[k]), "roundtrip-word",
						"word %d of <%s>", k, nl);
			}
		} else {
			MC_CHECK(s == NULL && cm == NULL, "unknown", "text in an unknown item");
		}
		i++;
	}
	MC_CHECK(i == rc.n, "missing-item", "%d items, %d expected", i, rc.n);
	ec_comp_free(c);
	mc_outcome(mc_hu(mc_hu(mc_hu(MC_H0, exp), rc.n), q));
	mc_state(mc_hs(mc_hs(MC_H0, db.s), line));
	rcomp_free(&rc);
}
static int maxlen, variadic;
static const char *alpha;
static void one_grammar(const struct ast *a)
{
	struct gram gr;
	struct ec_node *sh;
	char s[16];
	int idx[16], n, i, k = strlen(alpha);

	for (n = 0; n <= maxlen; n++) {
		if (!mc_next()) continue;
		mc_buf_reset(&db);
		ast_text(&db, a);
		mc_desc("sh_lex(%s)", db.s);
		if (gram_build(&gr, a, 1) < 0) mc_fail("build", "cannot build the grammar");
		sh = ec_node_sh_lex("sh", gr.node);
		MC_CHECK(sh != NULL, "build", "cannot build the lexer");
		memset(idx, 0, sizeof(idx));
		for (;;) {
			for (i = 0; i < n; i++) s[i] = alpha[idx[i]];
			s[n] = 0;
			check_line(&gr, sh, s);
			for (i = n - 1; i >= 0 && ++idx[i] == k; i--) idx[i] = 0;
			if (i < 0) break;
		}
		ec_node_clone(gr.node);     /* gram_free() releases one reference */
		ec_node_free(sh);
		gram_free(&gr);
		mc_end();
	}
}

/* a lexer inside another grammar: it takes one string, which it must match whole */
static const char *lines[] = { "", "a", "a b", "'a' b", "a  ", "'a", "b", "a b a", "''" };
#define NL 9
static int line_ok(int inner, const char *l)
{
	const char *tok[8];
	ref_shlex(l, &r);
	if (r.unterminated) return 0;
	for (int i = 0; i < r.n; i++) tok[i] = r.buf + r.off[i];
	switch (inner) {
	case 0: return r.n == 1 && !strcmp(tok[0], "a");
	case 1: return r.n == 2 && !strcmp(tok[0], "a") && !strcmp(tok[1], "b");
	case 2: return r.n == 0 || (r.n == 1 && !strcmp(tok[0], "a"));
	default: for (int i = 0; i < r.n; i++) if (strcmp(tok[i], "a") && strcmp(tok[i], "b")) return 0;
		return 1;
	}
}
static struct ec_node *mk_inner(int inner)
{
	switch (inner) {
	case 0: return ec_node_str(EC_NO_ID, "a");
	case 1: return EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, "a"), ec_node_str(EC_NO_ID, "b"));
	case 2: return ec_node_option(EC_NO_ID, ec_node_str(EC_NO_ID, "a"));
	default: return ec_node_many(EC_NO_ID, EC_NODE_OR(EC_NO_ID, ec_node_str(EC_NO_ID, "a"), ec_node_str(EC_NO_ID, "b")), 0, 0);
	}
}
static const char *outer_name[] = { "sh", "option(sh)", "many(sh)", "seq(sh, \"b\")", "or(sh, \"b\")", "seq(\"b\", sh)" };
static void nested(void)
{
	for (int inner = 0; inner < 4; inner++)
		for (int outer = 0; outer < 6; outer++) {
			if (!mc_next()) continue;
			struct ec_node *sh = ec_node_sh_lex("sh", mk_inner(inner)), *g = sh;
			switch (outer) {
			case 1: g = ec_node_option("o", sh); break;
			case 2: g = ec_node_many("o", sh, 0, 0); break;
			case 3: g = EC_NODE_SEQ("o", sh, ec_node_str("ob", "b")); break;
			case 4: g = EC_NODE_OR("o", sh, ec_node_str("ob", "b")); break;
			case 5: g = EC_NODE_SEQ("o", ec_node_str("ob", "b"), sh); break;
			}
			MC_CHECK(g != NULL, "build", "cannot build");
			for (int n = 0; n <= 3; n++)
				for (int v = 0; v < (n == 0 ? 1 : n == 1 ? NL : n == 2 ? NL * NL : NL * NL * NL); v++) {
					const char *tok[3];
					int x = v, ok[4] = { 0 }, isb[4] = { 0 }, exp, got, i;
					struct ec_strvec *sv;
					struct ec_pnode *p;
					/* no string at all: the lexer sees no word */
					int emptyok = line_ok(inner, "");
					mc_buf_reset(&lb);
					for (i = 0; i < n; i++) { tok[i] = lines[x % NL]; x /= NL; ok[i] = line_ok(inner, tok[i]); isb[i] = !strcmp(tok[i], "b"); }
					tok_text(&lb, tok, n);
					mc_desc("%s with inner grammar %d, input %s", outer_name[outer], inner, lb.s);
#define SH(i) ((i) < n ? (ok[i] ? 1 : R_NOMATCH) : emptyok ? 0 : R_NOMATCH)
					switch (outer) {
					case 0: exp = SH(0); break;
					case 1: exp = SH(0) < 0 ? 0 : SH(0); break;
					case 2: for (exp = 0; exp < n && ok[exp]; exp++) ; break;
					case 3: exp = SH(0); if (exp >= 0) exp = exp < n && isb[exp] ? exp + 1 : R_NOMATCH; break;
					case 4: exp = SH(0) >= 0 ? SH(0) : n > 0 && isb[0] ? 1 : R_NOMATCH; break;
					default: exp = n > 0 && isb[0] ? SH(1) : R_NOMATCH; if (exp >= 0) exp++; break;
					}
					sv = mk_strvec(tok, n);
					p = ec_parse_strvec(g, sv);
					mc_trans(1);
					ec_strvec_free(sv);
					MC_CHECK(p != NULL, "nested-error", "parsing reports an error");
					got = ec_pnode_matches(p) ? (int)ec_pnode_len(p) : R_NOMATCH;
					MC_CHECK(got == exp, "nested", "reference: %d string(s) consumed (-1: no match), library: %d", exp, got);
					ec_pnode_free(p);
					/* completion: the last string, once the grammar reached the lexer, as if it was alone */
					if (n > 0) {
						int reach = outer == 2 ? 1 : outer == 5 ? n == 2 && isb[0] : n == 1;
						struct ec_comp *c, *d;
						struct ec_comp_item *a, *b;
						int got_b = 0, want_b;
						for (i = 0; outer == 2 && i < n - 1; i++) if (!ok[i]) reach = 0;
						sv = mk_strvec(tok, n);
						c = ec_complete_strvec(g, sv);
						d = ec_complete(sh, tok[n - 1]);
						ec_strvec_free(sv);
						mc_trans(2);
						MC_CHECK(c != NULL && d != NULL, "nested-comp-error", "completion reports an error");
						b = reach ? ec_comp_iter_first(d, EC_COMP_ALL) : NULL;
						EC_COMP_FOREACH(a, c, EC_COMP_ALL) {
							if (!strcmp(ec_node_id(ec_comp_item_get_node(a)), "ob")) {
								got_b++;
								MC_CHECK(same(ec_comp_item_get_str(a), "b"), "nested-comp-outer", "word of the outer grammar is %s", ec_comp_item_get_str(a));
								continue;
							}
							MC_CHECK(b != NULL, "nested-comp-extra", "item %s does not come from the lexer alone", ec_comp_item_get_str(a));
							MC_CHECK(ec_comp_item_get_node(a) == ec_comp_item_get_node(b) && same(ec_comp_item_get_str(a), ec_comp_item_get_str(b)) &&
								same(ec_comp_item_get_completion(a), ec_comp_item_get_completion(b)), "nested-comp", "item %s (+%s) instead of %s (+%s)",
								ec_comp_item_get_str(a), ec_comp_item_get_completion(a), ec_comp_item_get_str(b), ec_comp_item_get_completion(b));
							b = ec_comp_iter_next(b, EC_COMP_ALL);
						}
						MC_CHECK(b == NULL, "nested-comp-missing", "item %s of the lexer is missing", ec_comp_item_get_str(b));
						want_b = (outer == 3 && n == 2 && ok[0]) || (outer == 4 && n == 1) || (outer == 5 && n == 1) || (outer == 3 && n == 1 && emptyok);
						if (want_b) want_b = tok[n - 1][0] == 0 || isb[n - 1];
						MC_CHECK(got_b == want_b, "nested-comp-b", "the word b of the outer grammar is proposed %d times instead of %d", got_b, want_b);
						ec_comp_free(c);
						ec_comp_free(d);
					}
					mc_outcome(mc_hu(MC_H0 ^ n, exp));
				}
			ec_node_free(g);
			mc_nontrivial();
			mc_end();
		}
}
/* items proposed by a user's node type: the open quote is closed in complete items, whatever their text */
struct sit { char type; const char *start, *full; };
static const struct sit sits[] = { { 'F', "", "ab" }, { 'F', "a", "ab" }, { 'P', "", "a/" }, { 'F', "x", "ab" }, { 'F', NULL, "q" }, { 'U' } };
static const struct sit *cur_it[3];
static int ncur;
static int sc_parse(const struct ec_node *n, struct ec_pnode *st, const struct ec_strvec *v) { return EC_PARSE_NOMATCH; }
static int sc_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	for (int i = 0; i < ncur; i++)
		if (!(cur_it[i]->type == 'U' ? ec_comp_add_item(c, n, EC_COMP_UNKNOWN, NULL, NULL) :
			ec_comp_add_item(c, n, cur_it[i]->type == 'F' ? EC_COMP_FULL : EC_COMP_PARTIAL, cur_it[i]->start, cur_it[i]->full))) mc_bug("item");
	return 0;
}
static struct ec_node_type sc_type = { .name = "mc_sh", .parse = sc_parse, .complete = sc_complete };
static void custom(void)
{
	static const char *ln[] = { "", "'", "\"", "a '", "'a", "a", "'a' \"b" };
	static const char qt[] = { 0, '\'', '"', '\'', '\'', 0, '"' };
	int v, n, i, x, l, tot;
	for (n = 0; n <= 3; n++) {
		for (tot = 1, i = 0; i < n; i++) tot *= 6;
		for (v = 0; v < tot; v++) {
			struct ec_node *g;
			if (!mc_next()) continue;
			g = ec_node_sh_lex("sh", EC_NODE_OR("o", ec_node_from_type(&sc_type, "c"), ec_node_str("s", "zz")));
			for (ncur = n, x = v, i = 0; i < n; i++, x /= 6) cur_it[i] = &sits[x % 6];
			for (l = 0; l < 7; l++) {
				struct ec_comp *c;
				struct ec_comp_item *it;
				mc_desc("user's items %d of %d, line %s", v, n, ln[l]);
				c = ec_complete(g, ln[l]);
				MC_CHECK(c != NULL, "custom-error", "completion reports an error");
				i = 0;
				EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
					char str[16], cp[16], *wc = NULL;
					const struct sit *s;
					if (ec_comp_group_get_node(ec_comp_item_get_grp(it)) != ec_node_find(g, "c")) continue;
					MC_CHECK(i < n, "custom-more", "more than %d items", n);
					s = cur_it[i++];
					if (s->type == 'U') { MC_CHECK(ec_comp_item_get_type(it) == EC_COMP_UNKNOWN, "custom-type", "wrong type"); continue; }
					if (s->type == 'F' && qt[l]) snprintf(str, sizeof(str), "%c%s%c", qt[l], s->full, qt[l]);
					else snprintf(str, sizeof(str), "%s", s->full);
					if (s->start && !strncmp(s->full, s->start, strlen(s->start))) {
						snprintf(cp, sizeof(cp), "%s%.1s", s->full + strlen(s->start), s->type == 'F' ? &qt[l] : "");
						if (!qt[l] || s->type != 'F') snprintf(cp, sizeof(cp), "%s", s->full + strlen(s->start));
						wc = cp;
					}
					MC_CHECK(same(ec_comp_item_get_str(it), str), "custom-str", "item %d is %s instead of %s", i, ec_comp_item_get_str(it), str);
					MC_CHECK(same(ec_comp_item_get_completion(it), wc), "custom-comp", "item %d adds %s instead of %s", i, ec_comp_item_get_completion(it), wc);
				}
				MC_CHECK(i == n, "custom-less", "%d items instead of %d", i, n);
				ec_comp_free(c);
				mc_trans(1);
			}
			ec_node_free(g);
			mc_nontrivial();
			mc_end();
		}
	}
}
/* several lexers complete the same line: each item closes the open quote once */
static void several(void)
{
	static const char *w[] = { "aa", "ab", "b" };
	static const char *ln[] = { "", "a", "'", "\"", "'a", "\"a", "b '", "b \"a", "b a", "\\a", "'b' \"a" };
	static const char qt[] = { 0, 0, '\'', '"', '\'', '"', '\'', '"', 0, 0, '"' };
	int v, n, i, x, l, tot, kind, shape;
	for (n = 2; n <= 3; n++) {
		for (tot = 1, i = 0; i < n; i++) tot *= 9;
		for (v = 0; v < tot; v++) for (shape = 0; shape < 2; shape++) {
			struct ec_node *g;
			int nw[3], kd[3];
			if (!mc_next()) continue;
			/* each branch: a lexer over a word, over "b" then a word, or the word itself */
			g = shape ? ec_node("subset", "g") : ec_node("or", "g");
			for (x = v, i = 0; i < n; i++, x /= 9) {
				struct ec_node *c = ec_node_str("w", w[nw[i] = x % 3]);
				kd[i] = kind = x / 3 % 3;
				if (kind == 1) c = EC_NODE_SEQ(EC_NO_ID, ec_node_str(EC_NO_ID, "b"), c);
				if (kind < 2) c = ec_node_sh_lex("sh", c);
				if (c == NULL || (shape ? ec_node_subset_add(g, c) : ec_node_or_add(g, c)) < 0) mc_bug("build");
			}
			for (l = 0; l < 11; l++) {
				struct ec_comp *c;
				struct ec_comp_item *it;
				const char *tok[16];
				char exp[3][2][16];
				int ne = 0, k, nt;
				mc_desc("%d branches (%d) of %s, line %s", n, v, shape ? "subset" : "or", ln[l]);
				ref_shlex(ln[l], &r);
				for (nt = 0; nt < r.n; nt++) tok[nt] = r.buf + r.off[nt];
				if (r.blank_end) tok[nt++] = "";
				for (i = 0; i < n; i++) {
					const char *last = kd[i] == 2 ? ln[l] : tok[nt - 1];
					const char *full = w[nw[i]];
					char q = kd[i] == 2 ? 0 : qt[l];
					if (kd[i] == 1 && nt == 1) full = "b";
					else if (kd[i] == 1 && (nt != 2 || strcmp(tok[0], "b"))) continue;
					else if (kd[i] == 0 && nt != 1) continue;
					if (strncmp(full, last, strlen(last))) continue;
					snprintf(exp[ne][0], 16, q ? "%c%s%c" : "%2$s", q, full, q);
					snprintf(exp[ne++][1], 16, "%s%.1s", full + strlen(last), &qt[kd[i] == 2 ? 0 : l]);
				}
				c = ec_complete(g, ln[l]);
				MC_CHECK(c != NULL, "several-error", "completion reports an error");
				k = 0;
				EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
					MC_CHECK(k < ne, "several-more", "more than %d items", ne);
					MC_CHECK(same(ec_comp_item_get_str(it), exp[k][0]), "several-str", "item %d is %s instead of %s", k, ec_comp_item_get_str(it), exp[k][0]);
					MC_CHECK(same(ec_comp_item_get_completion(it), exp[k][1]), "several-comp", "item %d adds %s instead of %s", k, ec_comp_item_get_completion(it), exp[k][1]);
					k++;
				}
				MC_CHECK(k == ne, "several-less", "%d items instead of %d", k, ne);
				ec_comp_free(c);
				mc_trans(1);
			}
			ec_node_free(g);
			mc_nontrivial();
			mc_end();
		}
	}
}
/* long words, many words, every way to quote them */
static void longwords(void)
{
	static const int wlen[] = { 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8190 };
	static const int pre[] = { 0, 1, 7, 8, 9, 31, 33, 64, 130, 300 };
	static char w[2][8200], line[20000];
	const struct ast *ch[310];
	int k, n, q, p, i, m, at[5];
	for (k = 1; k < 61 + 9; k++) for (q = 0; q < 5; q++) {
		struct gram gr;
		struct ec_node *sh;
		if (!mc_next()) continue;
		n = k < 40 ? k : k < 61 ? wlen[k - 40] : 5;
		m = k < 61 ? k % 3 : pre[k - 60];
		for (i = 0; i < n; i++) w[0][i] = w[1][i] = 'a' + i % 23;
		w[0][n] = 0; w[1][n] = 'q'; w[1][n + 1] = 0;
		if (n > 8188) w[1][n] = 0;
		for (i = 0; i < m; i++) ch[i] = ast_leaf(i & 1 ? G_ANY : G_STR, i & 1 ? NULL : "a");
		const struct ast *alt[2] = { ast_leaf(G_STR, w[0]), ast_leaf(G_STR, w[1]) };
		ch[m] = ast_n(G_OR, 2, alt);
		mc_buf_reset(&db);
		mc_buf_add(&db, "%d words then one of %d characters", m, n);
		if (gram_build(&gr, ast_n(G_SEQ, m + 1, ch), 1) < 0) mc_fail("build", "cannot build the grammar");
		sh = ec_node_sh_lex("sh", gr.node);
		MC_CHECK(sh != NULL, "build", "cannot build the lexer");
		at[0] = 0; at[1] = 1; at[2] = n / 2; at[3] = n - 1; at[4] = n;
		for (p = 0; p < 5; p++) {
			int l = 0, e;
			for (i = 0; i < m; i++) l += sprintf(line + l, i % 4 == 1 ? "'a'  " : "a ");
			/* plain, one quote kind, the other, only the end quoted, escaped first character */
			e = at[p];
			if (q == 1 || q == 2) line[l++] = q == 1 ? '\'' : '"';
			if (q == 4 && e) line[l++] = '\\';
			memcpy(line + l, w[0], e / 2); l += e / 2;
			if (q == 3) line[l++] = '"';
			memcpy(line + l, w[0] + e / 2, e - e / 2); l += e - e / 2;
			line[l] = 0;
			check_line(&gr, sh, line);
			if (q >= 1 && q <= 3) {
				line[l] = q == 1 ? '\'' : '"'; line[l + 1] = 0;
				check_line(&gr, sh, line);
				line[l + 1] = ' '; line[l + 2] = 0;
				check_line(&gr, sh, line);
			}
		}
		ec_node_clone(gr.node);
		ec_node_free(sh);
		gram_free(&gr);
		mc_end();
	}
}
void mc_run(void)
{
	int i;
	longwords();
	custom();
	several();
	alpha = "ab '\"\\"; maxlen = mc_thorough ? 6 : 5;
	for (i = 1; i <= 2; i++) ast_enum(&al, i, one_grammar);
	maxlen = mc_thorough ? 5 : 4;
	for (i = 3; i <= 3; i++) ast_enum(&al, i, one_grammar);
	alpha = "a #'\n"; maxlen = mc_thorough ? 7 : 6;
	for (i = 1; i <= 2; i++) ast_enum(&al, i, one_grammar);
	nested();
}
