/* C07: re and re_lex nodes. */
#include <ecoli.h>
#include "mc.h"

/* ---- reference: length of the longest match at the start of s, -1: none -- */
static int m_pat(int p, const char *s);
static const char *pats[] = { "a", "ab", "[ab]+", "=", " +", "a|ab", "b*", "(ab)+", "^b" };
#define NP 9
static int m_pat(int p, const char *s)
{
	int n = 0;
	switch (p) {
	case 0: return s[0] == 'a' ? 1 : -1;
	case 1: return s[0] == 'a' && s[1] == 'b' ? 2 : -1;
	case 2: while (s[n] == 'a' || s[n] == 'b') n++; return n ? n : -1;
	case 3: return s[0] == '=' ? 1 : -1;
	case 4: while (s[n] == ' ') n++; return n ? n : -1;
	case 5: return s[0] == 'a' ? (s[1] == 'b' ? 2 : 1) : -1;
	case 6: while (s[n] == 'b') n++; return n;
	case 7: while (s[n] == 'a' && s[n + 1] == 'b') n += 2; return n ? n : -1;
	default: return s[0] == 'b' ? 1 : -1;
	}
}
struct pat { int p, keep, attr; };
static struct mc_buf db, tb;
static char tokens[64][40];
static int tokpat[64], ntok;
/* cut the input: 0 if it cannot be */
static int ref_cut(const struct pat *l, int n, const char *s)
{
	ntok = 0;
	while (*s) {
		int i, len = 0;
		for (i = 0; i < n; i++)
			if ((len = m_pat(l[i].p, s)) > 0) break;
		if (i == n) return 0;
		if (l[i].keep) { memcpy(tokens[ntok], s, len); tokens[ntok][len] = 0; tokpat[ntok++] = i; }
		s += len;
	}
	return 1;
}
/* children: what they consume of the tokens, -1: no match */
static const char *child_name[] = { "many(any)", "seq(\"a\", option(\"=\"))", "option(\"ab\")", "any" };
#define NC 4
static struct ec_node *mk_child(int c)
{
	switch (c) {
	case 0: return ec_node_many("c", ec_node("any", "x"), 0, 0);
	case 1: return EC_NODE_SEQ("c", ec_node_str("x", "a"), ec_node_option("o", ec_node_str("y", "=")));
	case 2: return ec_node_option("c", ec_node_str("x", "ab"));
	default: return ec_node("any", "c");
	}
}
static int ref_child(int c)
{
	switch (c) {
	case 0: return ntok;
	case 1: if (ntok == 0 || strcmp(tokens[0], "a")) return -1;
		return ntok > 1 && !strcmp(tokens[1], "=") ? 2 : 1;
	case 2: return ntok > 0 && !strcmp(tokens[0], "ab") ? 1 : 0;
	default: return ntok > 0 ? 1 : -1;
	}
}
static void check_lex(struct ec_node *n, const struct pat *l, int np, int c, const char *s)
{
	struct ec_pnode *p;
	const struct ec_pnode *cp;
	const struct ec_strvec *v;
	int exp, i;

	mc_buf_reset(&tb);
	mc_buf_str(&tb, s);
	mc_desc("re_lex(%s) child %s input %s", db.s, child_name[c], tb.s);
	exp = ref_cut(l, np, s) && ref_child(c) == ntok;
	p = ec_parse(n, s);
	mc_trans(1);
	MC_CHECK(p != NULL, "error", "ec_parse() reports an error (errno %d)", errno);
	MC_CHECK(!!ec_pnode_matches(p) == exp, "match", "the node %s", exp ? "does not match, it must" : "matches, it must not");
	if (exp) {
		MC_CHECK(ec_pnode_len(p) == 1 && !strcmp(ec_strvec_val(ec_pnode_get_strvec(p), 0), s), "len", "does not consume the string");
		cp = ec_pnode_get_first_child(p);
		MC_CHECK(cp != NULL && ec_pnode_get_last_child(p) == cp, "child", "one child expected");
		v = ec_pnode_get_strvec(cp);
		MC_CHECK(v != NULL && ec_strvec_len(v) == (size_t)ntok, "ntok", "%zu tokens instead of %d", v ? ec_strvec_len(v) : 0, ntok);
		for (i = 0; i < ntok; i++) {
			const struct ec_dict *d = ec_strvec_get_attrs(v, i);
			MC_CHECK(!strcmp(ec_strvec_val(v, i), tokens[i]), "token", "token %d is <%s> instead of <%s>", i, ec_strvec_val(v, i), tokens[i]);
			if (l[tokpat[i]].attr) {
				char an[16];
				snprintf(an, sizeof(an), "at%d", tokpat[i]);
				MC_CHECK(d != NULL && ec_dict_has_key(d, an) && ec_dict_len(d) == 1, "attr", "token %d has not its attribute", i);
			} else {
				MC_CHECK(d == NULL, "attr-extra", "token %d has attributes", i);
			}
		}
		if (ntok > 1) mc_nontrivial();
	} else {
		MC_CHECK(ec_pnode_get_first_child(p) == NULL, "nomatch-child", "no match, but the tree has children");
	}
	ec_pnode_free(p);
	mc_outcome(mc_hu(mc_hu(MC_H0, exp), ntok));
	mc_state(mc_hs(mc_hs(mc_hu(MC_H0, c), db.s), s));
}
static void all_inputs(struct ec_node *n, const struct pat *l, int np, int c, int maxlen)
{
	static const char alpha[] = "ab= !";
	char s[16];
	int idx[16], len, i;
	for (len = 0; len <= maxlen; len++) {
		memset(idx, 0, sizeof(idx));
		for (;;) {
			for (i = 0; i < len; i++) s[i] = alpha[idx[i]];
			s[len] = 0;
			check_lex(n, l, np, c, s);
			for (i = len - 1; i >= 0 && ++idx[i] == 5; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	/* no string at all: the child sees no token */
	ntok = 0;
	struct ec_strvec *sv = ec_strvec();
	struct ec_pnode *p = ec_parse_strvec(n, sv);
	mc_desc("re_lex(%s) child %s no input", db.s, child_name[c]);
	MC_CHECK(p != NULL, "none-error", "parsing an empty list fails");
	MC_CHECK(!!ec_pnode_matches(p) == (ref_child(c) == 0), "none", "wrong verdict on an empty list");
	MC_CHECK(ec_pnode_len(p) == 0, "none-len", "consumes a string that is not there");
	ec_pnode_free(p);
	ec_strvec_free(sv);
	/* completion: cannot enumerate */
	struct ec_comp *cm = ec_complete(n, "a");
	MC_CHECK(cm != NULL && ec_comp_count(cm, EC_COMP_ALL) == 1 && ec_comp_count(cm, EC_COMP_UNKNOWN) == 1, "complete", "one unknown item expected");
	ec_comp_free(cm);
}
static void describe(const struct pat *l, int n)
{
	mc_buf_reset(&db);
	for (int i = 0; i < n; i++)
		mc_buf_add(&db, "%s%s%s%s", i ? " , " : "", pats[l[i].p], l[i].keep ? "" : " (dropped)", l[i].attr ? " (attr)" : "");
}
static int add_pat(struct ec_node *n, const struct pat *l, int i)
{
	char an[16];
	snprintf(an, sizeof(an), "at%d", i);
	return ec_node_re_lex_add(n, pats[l[i].p], l[i].keep, l[i].attr ? an : NULL);
}
static void lists(int np, int maxlen, int nc)
{
	struct pat l[4];
	int tot = 1, i;
	for (i = 0; i < np; i++) tot *= NP * 2;
	for (int v = 0; v < tot; v++)
		for (int c = 0; c < nc; c++) {
			int x = v;
			if (!mc_next()) continue;
			for (i = 0; i < np; i++) { l[i].p = x % (NP * 2) / 2; l[i].keep = x & 1; x /= NP * 2; l[i].attr = (i + v + c) % 3 == 0; }
			describe(l, np);
			mc_desc("re_lex(%s)", db.s);
			struct ec_node *n = ec_node_re_lex("r", mk_child(c));
			MC_CHECK(n != NULL, "build", "cannot build");
			for (i = 0; i < np; i++) {
				MC_CHECK(add_pat(n, l, i) == 0, "add", "cannot add pattern %d", i);
				if (i + 1 < np && v % 7 == 0) { describe(l, i + 1); all_inputs(n, l, i + 1, c, 2); }
			}
			describe(l, np);
			all_inputs(n, l, np, c, maxlen);
			/* a refused pattern changes nothing */
			MC_CHECK(ec_node_re_lex_add(n, "a(", 1, NULL) < 0, "bad-pattern", "an invalid pattern is accepted");
			MC_CHECK(ec_node_re_lex_add(n, "[", 0, "x") < 0, "bad-pattern", "an invalid pattern is accepted");
			all_inputs(n, l, np, c, 2);
			ec_node_free(n);
			mc_end();
		}
}

/* ---- re ------------------------------------------------------------------ */
static const char *rp[] = { "a", "a*", "a|ab", "(a|b)+", "[^a]", ".", "", "^a$", "a{2}", "a?b?", ".*b", "a.b", "\\.", "b|^a|ab*", "(a|ab)(b|)" };
#define NR 15
static int w(int p, const char *s)   /* whole token matches */
{
	size_t n = strlen(s), i;
	switch (p) {
	case 0: case 7: return !strcmp(s, "a");
	case 1: return strspn(s, "a") == n;
	case 2: return !strcmp(s, "a") || !strcmp(s, "ab");
	case 3: return n > 0 && strspn(s, "ab") == n;
	case 4: return n == 1 && s[0] != 'a';
	case 5: return n == 1;
	case 6: return n == 0;
	case 8: return !strcmp(s, "aa");
	case 9: return !strcmp(s, "") || !strcmp(s, "a") || !strcmp(s, "b") || !strcmp(s, "ab");
	case 10: return n > 0 && s[n - 1] == 'b';
	case 11: return n == 3 && s[0] == 'a' && s[2] == 'b';
	case 12: return !strcmp(s, ".");
	case 13: if (!strcmp(s, "b")) return 1;
		if (s[0] != 'a') return 0;
		for (i = 1; i < n; i++) if (s[i] != 'b') return 0;
		return 1;
	default: return !strcmp(s, "a") || !strcmp(s, "ab") || !strcmp(s, "abb");
	}
}
static void check_re(struct ec_node *n, int p, int maxlen, const char *how)
{
	static const char alpha[] = "ab. \n";
	char s[16];
	int idx[16], len, i;
	for (len = 0; len <= maxlen; len++) {
		memset(idx, 0, sizeof(idx));
		for (;;) {
			for (i = 0; i < len; i++) s[i] = alpha[idx[i]];
			s[len] = 0;
			if (strchr(s, '\n') == NULL || p == 0 || p == 3) {
				const char *two[2] = { s, "a" };
				struct ec_strvec *sv = ec_strvec_from_array(two, 2);
				struct ec_pnode *t = ec_parse_strvec(n, sv);
				ec_strvec_free(sv);
				mc_desc("%s re(%s) token \"%s\"", how, rp[p], s);
				mc_trans(1);
				MC_CHECK(t != NULL, "re-error", "parse error");
				MC_CHECK(!!ec_pnode_matches(t) == w(p, s), "re-match", "the node %s", w(p, s) ? "does not match, it must" : "matches, it must not");
				if (w(p, s)) { MC_CHECK(ec_pnode_len(t) == 1, "re-len", "consumes %zu", ec_pnode_len(t)); mc_nontrivial(); }
				ec_pnode_free(t);
				mc_state(mc_hs(mc_hu(MC_H0, p + 100), s));
				mc_outcome(mc_hu(p, w(p, s)));
			}
			for (i = len - 1; i >= 0 && ++idx[i] == 5; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	struct ec_strvec *sv = ec_strvec();
	struct ec_pnode *t = ec_parse_strvec(n, sv);
	MC_CHECK(t != NULL && !ec_pnode_matches(t), "re-empty", "matches an empty list");
	ec_pnode_free(t);
	ec_strvec_free(sv);
}
/* ---- many patterns, long inputs, every byte ------------------------------- */
size_t __sanitizer_get_current_allocated_bytes(void);
/* words of the input: w[k], cut by the pattern pw[k] */
static void expect_tokens(struct ec_node *n, const char *in, int nt, char *const *tok, char *const *attr)
{
	struct ec_pnode *p = ec_parse(n, in);
	const struct ec_strvec *v;
	mc_trans(1);
	MC_CHECK(p != NULL, "error", "ec_parse() reports an error (errno %d)", errno);
	MC_CHECK(!!ec_pnode_matches(p) == (nt >= 0), "match", "the node %s", nt >= 0 ? "does not match, it must" : "matches, it must not");
	if (nt >= 0) {
		MC_CHECK(ec_pnode_len(p) == 1 && !strcmp(ec_strvec_val(ec_pnode_get_strvec(p), 0), in), "len", "does not consume the string");
		v = ec_pnode_get_strvec(ec_pnode_get_first_child(p));
		MC_CHECK(ec_strvec_len(v) == (size_t)nt, "ntok", "%zu tokens instead of %d", ec_strvec_len(v), nt);
		for (int i = 0; i < nt; i++) {
			const struct ec_dict *d = ec_strvec_get_attrs(v, i);
			MC_CHECK(!strcmp(ec_strvec_val(v, i), tok[i]), "token", "token %d is <%.80s> instead of <%.80s>", i, ec_strvec_val(v, i), tok[i]);
			MC_CHECK(attr[i] ? d != NULL && ec_dict_has_key(d, attr[i]) && ec_dict_len(d) == 1 : d == NULL, "attr", "attributes of token %d", i);
		}
		mc_nontrivial();
	} else
		MC_CHECK(ec_pnode_get_first_child(p) == NULL, "nomatch-child", "no match, but the tree has children");
	ec_pnode_free(p);
}
static struct ec_node *mk_many_any(void) { return ec_node_many("m", ec_node("any", "x"), 0, 0); }
static int put_pattern(struct ec_node *n, struct ec_config *l, const char *p, int keep, const char *attr)
{
	struct ec_config *e;
	if (l == NULL) return ec_node_re_lex_add(n, p, keep, attr);
	e = ec_config_dict();
	ec_config_dict_set(e, "pattern", ec_config_string(p));
	ec_config_dict_set(e, "keep", ec_config_bool(keep));
	if (attr) ec_config_dict_set(e, "attr", ec_config_string(attr));
	return ec_config_list_add(l, e);
}
static int put_config(struct ec_node *n, struct ec_config *l)
{
	struct ec_config *c = ec_config_dict();
	ec_config_dict_set(c, "patterns", l);
	ec_config_dict_set(c, "child", ec_config_node(mk_many_any()));
	return ec_node_set_config(n, c);
}
static void many_patterns(int np, int cfg)
{
	struct ec_node *n;
	struct ec_config *l = NULL;
	char w[32], in[4000], *tok[300], *at[300];
	int i, nt = 0;
	if (!mc_next()) return;
	mc_desc("re_lex with %d patterns%s", np, cfg == 1 ? " (configuration)" : cfg == 2 ? " (configuration of a node that had patterns)" : "");
	n = cfg == 1 ? ec_node("re_lex", "r") : ec_node_re_lex("r", mk_many_any());
	if (cfg == 2) for (i = 0; i < 5; i++) ec_node_re_lex_add(n, "w.;", 0, "old");
	if (cfg) l = ec_config_list();
	for (i = 0; i < np; i++) {
		char a[16];
		snprintf(w, sizeof(w), "w%d;", i);
		snprintf(a, sizeof(a), "at%d", i);
		MC_CHECK(put_pattern(n, l, w, i % 5 != 3, i % 3 == 0 ? a : NULL) == 0, "add", "cannot add pattern %d", i);
	}
	if (l) MC_CHECK(put_config(n, l) == 0, "config", "the configuration is refused");
	/* each alone */
	for (i = 0; i < np; i++) {
		char *t, *a;
		snprintf(w, sizeof(w), "w%d;", i);
		t = w;
		if (asprintf(&a, "at%d", i) < 0) mc_bug("alloc");
		if (i % 3) { free(a); a = NULL; }
		expect_tokens(n, w, i % 5 != 3, &t, &a);
		free(a);
	}
	snprintf(w, sizeof(w), "w%d;", np);
	expect_tokens(n, w, -1, NULL, NULL);
	/* all of them, last one first */
	in[0] = 0;
	for (i = np - 1; i >= 0; i--) {
		snprintf(w, sizeof(w), "w%d;", i);
		strcat(in, w);
		if (i % 5 == 3) continue;
		tok[nt] = strdup(w);
		at[nt] = NULL;
		if (i % 3 == 0 && asprintf(&at[nt], "at%d", i) < 0) mc_bug("alloc");
		nt++;
	}
	expect_tokens(n, in, nt, tok, at);
	strcat(in, "w");
	expect_tokens(n, in, -1, NULL, NULL);
	for (i = 0; i < nt; i++) { free(tok[i]); free(at[i]); }
	mc_state(mc_hu(mc_hu(MC_H0 + 1, np), cfg));
	ec_node_free(n);
	mc_end();
}
/* two overlapping patterns among n: the first one in the list wins */
static void overlap(int np)
{
	for (int i = 0; i < np; i++)
		for (int j = 0; j < np; j++) {
			struct ec_node *n;
			char w[32], *t[2] = { "xx", "x" }, *a[2] = { NULL, NULL };
			if (np > 20 && (i > 1 && i < np - 2 && i != np / 2)) continue;
			if (np > 20 && (j > 1 && j < np - 2 && j != np / 2)) continue;
			if (i == j || !mc_next()) continue;
			mc_desc("re_lex with %d patterns, x+ at %d and xx at %d", np, i, j);
			n = ec_node_re_lex("r", mk_many_any());
			for (int k = 0; k < np; k++) {
				snprintf(w, sizeof(w), "w%d;", k);
				ec_node_re_lex_add(n, k == i ? "x+" : k == j ? "xx" : w, 1, NULL);
			}
			if (i < j) { t[0] = "xxx"; expect_tokens(n, "xxx", 1, t, a); }
			else expect_tokens(n, "xxx", 2, t, a);
			ec_node_free(n);
			mc_state(mc_hu(mc_hu(mc_hu(MC_H0 + 2, np), i), j));
			mc_end();
		}
}
static void long_inputs(void)
{
	static const int ln[] = { 1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 9000 };
	for (unsigned k = 0; k < sizeof(ln) / sizeof(*ln); k++)
		for (int m = 0; m < 4; m++) {
			struct ec_node *n;
			int L = ln[k], nt = 0;
			char *in = malloc(2 * L + 10), **tok = calloc(2 * L + 2, sizeof(*tok)), **at = calloc(2 * L + 2, sizeof(*at));
			if (!mc_next()) { free(in); free(tok); free(at); continue; }
			mc_desc("re_lex, input of length %d, kind %d", L, m);
			n = ec_node_re_lex("r", mk_many_any());
			ec_node_re_lex_add(n, "[a-z]+", 1, NULL);
			ec_node_re_lex_add(n, "[0-9]", 1, "digit");
			ec_node_re_lex_add(n, " +", 0, NULL);
			in[0] = 0;
			if (m == 0) {		/* one long word */
				memset(in, 'q', L); in[L] = 0;
				tok[nt++] = strdup(in);
			} else if (m == 1) {	/* many digits */
				for (int i = 0; i < L && i < 1200; i++) { in[i] = '0' + i % 10; in[i + 1] = 0; tok[nt] = strndup(in + i, 1); at[nt++] = "digit"; }
			} else if (m == 2) {	/* many words */
				for (int i = 0; i < L && i < 1200; i++) { in[2 * i] = 'a' + i % 26; in[2 * i + 1] = ' '; in[2 * i + 2] = 0; tok[nt++] = strndup(in + 2 * i, 1); }
			} else {		/* a long blank between two words */
				in[0] = 'a'; memset(in + 1, ' ', L); in[L + 1] = 'b'; in[L + 2] = 0;
				tok[nt++] = strdup("a"); tok[nt++] = strdup("b");
			}
			expect_tokens(n, in, nt, tok, at);
			strcat(in, "!");
			expect_tokens(n, in, -1, NULL, NULL);
			in[strlen(in) / 2] = '!';
			expect_tokens(n, in, -1, NULL, NULL);
			for (int i = 0; i < nt; i++) free(tok[i]);
			free(in); free(tok); free(at);
			ec_node_free(n);
			mc_state(mc_hu(mc_hu(MC_H0 + 3, L), m));
			mc_end();
		}
}
static void every_byte(void)
{
	for (int c = 1; c < 256; c++) {
		struct ec_node *n, *r;
		char in[4] = { 'a', c, 'a', 0 }, o[2] = { c, 0 }, *t[3] = { "a", o, "a" }, *a[3] = { NULL, NULL, NULL };
		struct ec_pnode *p;
		int low = c != 'a', d;
		if (!mc_next()) continue;
		mc_desc("byte %d", c);
		n = ec_node_re_lex("r", mk_many_any());
		ec_node_re_lex_add(n, "a", 1, NULL);
		if (low) ec_node_re_lex_add(n, "[^a]", 1, NULL);
		expect_tokens(n, in, 3, t, a);
		expect_tokens(n, in + 1, 2, t + 1, a);
		ec_node_free(n);
		/* this byte and no other */
		n = ec_node_re_lex("r", mk_many_any());
		char pat[8];
		if (c == '^' || c == '\\' || strchr("$.[()*+?{|", c)) snprintf(pat, sizeof(pat), "\\%c", c);
		else snprintf(pat, sizeof(pat), "%c", c);
		MC_CHECK(ec_node_re_lex_add(n, pat, 1, "at") == 0, "byte", "pattern refused");
		r = ec_node_re("re", pat);
		MC_CHECK(r != NULL, "byte", "pattern refused");
		for (d = 1; d < 256; d++) {
			char s[2] = { d, 0 }, *ts = s, *as = "at";
			expect_tokens(n, s, d == c ? 1 : -1, &ts, &as);
			p = ec_parse(r, s);
			MC_CHECK(p && !!ec_pnode_matches(p) == (c == d), "byte", "byte %d", d);
			ec_pnode_free(p);
		}
		ec_node_free(n);
		ec_node_free(r);
		mc_state(mc_hu(MC_H0 + 4, c));
		mc_end();
	}
}
/* compiled patterns are memory of the C library: everything must be given back */
static void mem_op(int op, const char *p, const char *q)
{
	struct ec_node *n;
	struct ec_config *l, *c;
	if (op < 4) {
		n = ec_node_re("r", p);
		if (op == 1) ec_node_re_set_regexp(n, q);
		if (op == 2) ec_node_re_set_regexp(n, "(");
		if (op == 3) { c = ec_config_dict(); ec_config_dict_set(c, "pattern", ec_config_string(q)); ec_node_set_config(n, c); }
	} else {
		n = ec_node_re_lex("r", mk_many_any());
		ec_node_re_lex_add(n, p, 1, "at");
		ec_node_re_lex_add(n, q, 0, NULL);
		if (op == 5) ec_node_re_lex_add(n, "(", 1, "at");
		if (op == 6 || op == 7) {
			l = ec_config_list();
			put_pattern(n, l, q, 1, "x");
			put_pattern(n, l, p, 1, NULL);
			if (op == 7) put_pattern(n, l, "[", 1, "z");
			put_config(n, l);
		}
		if (op == 8) { ec_pnode_free(ec_parse(n, "aabb")); ec_pnode_free(ec_parse(n, "ab!")); }
	}
	ec_node_free(n);
}
static void memory(void)
{
	for (int op = 0; op < 9; op++)
		for (int p = 0; p < NR; p++)
			for (int q = 0; q < NR; q++) {
				size_t b;
				if (!mc_next()) continue;
				mc_desc("memory of the patterns %s and %s, operation %d", rp[p], rp[q], op);
				mem_op(op, rp[p], rp[q]);
				b = __sanitizer_get_current_allocated_bytes();
				mem_op(op, rp[p], rp[q]);
				mc_trans(2);
				MC_CHECK(__sanitizer_get_current_allocated_bytes() == b, "memory", "%zd bytes are not released", (ssize_t)(__sanitizer_get_current_allocated_bytes() - b));
				mc_state(mc_hu(mc_hu(mc_hu(MC_H0 + 5, op), p), q));
				mc_end();
			}
}
static void scale(void)
{
	static const int cnt[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257 };
	for (unsigned i = 0; i < sizeof(cnt) / sizeof(*cnt); i++)
		for (int c = 0; c < 3; c++) many_patterns(cnt[i], c);
	for (int n = 2; n <= 20; n++) overlap(n);
	overlap(70);
	long_inputs();
	every_byte();
	memory();
}

void mc_run(void)
{
	int p, q;
	static const char *bad[] = { "(", "[", "a{2", "*a(", "\\" };

	lists(0, 4, NC);
	lists(1, mc_thorough ? 6 : 5, NC);
	lists(2, mc_thorough ? 5 : 4, NC);
	lists(3, mc_thorough ? 4 : 2, mc_thorough ? NC : 1);
	for (p = 0; p < NR; p++)
		for (q = -1; q < NR; q++)
			if (mc_next()) {
				mc_desc("re(%s)", rp[p]);
				struct ec_node *n = ec_node_re("r", rp[p]);
				MC_CHECK(n != NULL, "re-build", "cannot build");
				if (q < 0) {
					check_re(n, p, mc_thorough ? 5 : 4, "");
					for (int b = 0; b < 5; b++) {
						MC_CHECK(ec_node_re_set_regexp(n, bad[b]) < 0, "re-bad", "invalid pattern %s accepted", bad[b]);
						check_re(n, p, 2, "after a refused pattern,");
						MC_CHECK(ec_node_re("x", bad[b]) == NULL, "re-bad", "invalid pattern %s accepted", bad[b]);
					}
				} else {
					MC_CHECK(ec_node_re_set_regexp(n, rp[q]) == 0, "re-set", "cannot set %s", rp[q]);
					check_re(n, q, 3, "reconfigured");
				}
				ec_node_free(n);
				mc_end();
			}
	scale();
	/* long tokens */
	for (int len = 1; len <= 300; len++)
		if (mc_next()) {
			char s[400];
			struct ec_node *n = ec_node_re("r", "(a|b)+");
			struct ec_node *l = ec_node_re_lex("l", ec_node_many("m", ec_node("any", "x"), 0, 0));
			ec_node_re_lex_add(l, "a", 1, NULL);
			ec_node_re_lex_add(l, "b+", 0, NULL);
			mc_desc("tokens of %d bytes", len);
			for (int i = 0; i < len; i++) s[i] = i % 3 ? 'a' : 'b';
			s[len] = 0;
			struct ec_pnode *t = ec_parse(n, s);
			MC_CHECK(t && ec_pnode_matches(t), "long", "does not match");
			ec_pnode_free(t);
			t = ec_parse(l, s);
			MC_CHECK(t && ec_pnode_matches(t) && ec_pnode_len(ec_pnode_get_first_child(t)) == (size_t)(len - (len + 2) / 3), "long-lex", "wrong tokens");
			ec_pnode_free(t);
			s[len - 1] = '!';
			t = ec_parse(n, s);
			MC_CHECK(t && !ec_pnode_matches(t), "long-no", "matches");
			ec_pnode_free(t);
			t = ec_parse(l, s);
			MC_CHECK(t && !ec_pnode_matches(t), "long-lex-no", "matches");
			ec_pnode_free(t);
			mc_trans(4);
			ec_node_free(n);
			ec_node_free(l);
			mc_end();
		}
}
