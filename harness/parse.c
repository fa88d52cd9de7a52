/* C01: parse verdict and number of consumed tokens, against the reference. */
#include <ecoli.h>
#include "gram_space.h"

static struct mc_buf ab;
static void begin_grammar(struct gram *gr) { (void)gr; }

static void check_input(struct gram *gr, const char *const *tok, int n)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	int exp, got;

	exp = ref_parse(gr, tok, n, NULL);
	if (exp == R_DIVERGE) return;     /* left recursion: out of the space */
	case_desc(gr, tok, n);
	v = mk_strvec(tok, n);
	MC_CHECK(v != NULL, "alloc", "cannot build the input vector");
	p = ec_parse_strvec(gr->node, v);
	mc_trans(1);
	MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
	got = ec_pnode_matches(p) ? (int)ec_pnode_len(p) : R_NOMATCH;
	MC_CHECK(got == exp, "verdict", "reference: %d token(s) consumed (-1: no match), library: %d", exp, got);
	ec_pnode_free(p);
	/* the input is not modified */
	MC_CHECK(ec_strvec_len(v) == (size_t)n, "input-modified", "the input vector changed");
	for (int i = 0; i < n; i++) {
		const char *a = tok_attrs(tok[i]);
		MC_CHECK(!strcmp(ec_strvec_val(v, i), tok[i]), "input-modified", "the input vector changed");
		mc_buf_reset(&ab);
		vec_attrs(&ab, v, i);
		MC_CHECK(*a ? ab.s && ab.s[0] == '+' && !strcmp(ab.s + 1, a) : ab.len == 0,
			"input-modified", "the attributes of the input changed");
	}
	ec_strvec_free(v);
	if (n == 1 && !gram_attrs) {
		p = ec_parse(gr->node, tok[0]);
		mc_trans(1);
		MC_CHECK(p != NULL, "parse-error", "ec_parse() reports an error");
		got = ec_pnode_matches(p) ? (int)ec_pnode_len(p) : R_NOMATCH;
		MC_CHECK(got == exp, "verdict1", "reference: %d, ec_parse(): %d", exp, got);
		ec_pnode_free(p);
	}
	mc_outcome(mc_hu(mc_hu(MC_H0, exp), n));
	mc_state(mc_hu(mc_hs(MC_H0, db.s), mc_hu(exp, n)));
	if (exp > 0) mc_nontrivial();
}
/* more tokens than 16 bits can count */
static void huge(void)
{
	static const char *tok[65540];
	int len = 65537;
	r_maxwork = 10000000;
	for (int i = 0; i < 65540; i++) tok[i] = "a";
	one_family(ast_many(ast_leaf(G_STR, "a"), 0, 0), tok, &len, 1);
	one_family(ast_many(ast_leaf(G_STR, "a"), 65537, 0), tok, &len, 1);
	one_family(ast_many(ast_leaf(G_STR, "a"), 0, 65536), tok, &len, 1);
	r_maxwork = 60000;
}
void mc_run(void)
{
	if (mc_thorough) { mc_case_timeout = 250; huge(); }
	if (mc_thorough) enum_space(5, 6, 6, 4, 40, 1025, 5);
	else enum_space(4, 5, 5, 3, 40, 1025, 4);
}
