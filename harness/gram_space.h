/* The space of grammars and inputs shared by C01, C02 and C03. */
#ifndef GRAM_SPACE_H_
#define GRAM_SPACE_H_
#include "gram.h"

/* provided by the harness: check one grammar on one input */
static void check_input(struct gram *gr, const char *const *tok, int n);
/* start/end of a grammar */
static void begin_grammar(struct gram *gr) __attribute__((unused));

static const struct ast leaf_full[] = {
	{ .k = G_STR, .s = "a" }, { .k = G_STR, .s = "ab" }, { .k = G_ANY },
	{ .k = G_EMPTY }, { .k = G_NONE }, { .k = G_SHARED },
};
static const struct ast unary_full[] = {
	{ .k = G_OPTION }, { .k = G_MANY, .min = 0, .max = 0 }, { .k = G_MANY, .min = 1, .max = 0 },
	{ .k = G_MANY, .min = 0, .max = 1 }, { .k = G_MANY, .min = 2, .max = 0 },
	{ .k = G_MANY, .min = 1, .max = 2 }, { .k = G_ONCE }, { .k = G_BYPASS },
};
static const enum gk nary_full[] = { G_SEQ, G_OR, G_SUBSET };
static const struct alphabet al_full = { leaf_full, 6, unary_full, 8, nary_full, 3, 3 };

static const struct ast leaf_small[] = { { .k = G_STR, .s = "a" }, { .k = G_SHARED }, { .k = G_ANY } };
static const struct ast unary_small[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_ONCE } };
static const struct alphabet al_small = { leaf_small, 3, unary_small, 3, nary_full, 3, 3 };

/* recursive grammars */
static const struct ast leaf_rec[] = { { .k = G_STR, .s = "a" }, { .k = G_STR, .s = "ab" },
	{ .k = G_ROOT }, { .k = G_EMPTY } };
static const struct ast unary_rec[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_ONCE } };
static const struct alphabet al_rec = { leaf_rec, 4, unary_rec, 3, nary_full, 3, 3 };

/* all leaf kinds */
static const struct ast leaf_kinds[] = { { .k = G_STR, .s = "" }, { .k = G_STR, .s = "a" },
	{ .k = G_STR, .s = "a b" }, { .k = G_ANY }, { .k = G_EMPTY }, { .k = G_NONE }, { .k = G_SPACE },
	{ .k = G_INT, .min = 0, .max = 5 }, { .k = G_INT, .min = 3, .max = 12 } };
static const struct ast unary_kinds[] = { { .k = G_OPTION }, { .k = G_MANY, .min = 1 } };
static const struct alphabet al_kinds = { leaf_kinds, 9, unary_kinds, 2, nary_full, 2, 2 };

/* attributes of the tokens: the text, then the names of its attributes */
static const struct ast leaf_attr[] = { { .k = G_ANY, .s = "x" }, { .k = G_ANY, .s = "y" }, { .k = G_ANY },
	{ .k = G_STR, .s = "a" }, { .k = G_SHARED } };
static const struct ast unary_attr[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_MANY, .min = 1, .max = 2 },
	{ .k = G_ONCE }, { .k = G_BYPASS } };
static const struct alphabet al_attr = { leaf_attr, 5, unary_attr, 5, nary_full, 3, 3 };
static const char *const tok_attr[] = { "a\0", "a\0x", "a\0xy", "b\0y" };

static const char *const tok_std[] = { "a", "ab", "c", "" };
static const char *const tok_kinds[] = { "a", "", " ", " \t", "4", "7", "13", "a b", "\xe9", "4x", "-1" };

static const char *const *toks = tok_std;
static int ntoks = 4, maxlen = 3, variadic;
static int only_rec;
static struct mc_buf db;

static void one_grammar(const struct ast *a)
{
	struct gram gr;
	const char *tok[80];
	int idx[8], n, i;

	if (only_rec && !a->has_root) return;
	if (!mc_next()) return;
	mc_buf_reset(&db);
	ast_text(&db, a);
	mc_desc("grammar %s", db.s);
	if (gram_build(&gr, a, variadic) < 0)
		mc_fail("build", "cannot build the grammar");
	mc_trans(gr.count);
	for (n = 0; n <= maxlen; n++) {
		for (i = 0; i < n; i++) idx[i] = 0;
		for (;;) {
			for (i = 0; i < n; i++) tok[i] = toks[idx[i]];
			check_input(&gr, tok, n);
			for (i = n - 1; i >= 0 && ++idx[i] == ntoks; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	gram_free(&gr);
	mc_end();
}
/* one grammar, explicit inputs */
static void one_family(const struct ast *a, const char *const *tok, const int *lens, int nlens)
{
	struct gram gr;
	if (!mc_next()) return;
	mc_buf_reset(&db);
	ast_text(&db, a);
	mc_desc("grammar %.1500s", db.s);
	if (gram_build(&gr, a, variadic) < 0)
		mc_fail("build", "cannot build the grammar");
	mc_trans(gr.count);
	for (int i = 0; i < nlens; i++)
		check_input(&gr, tok, lens[i]);
	gram_free(&gr);
	mc_end();
}
static void case_desc(struct gram *gr, const char *const *tok, int n)
{
	static struct mc_buf b;
	mc_buf_reset(&b);
	tok_text(&b, tok, n);
	mc_desc("grammar %.1500s input %.1500s", db.s, b.s);
}

/* wide and deep grammars, long inputs: every size 0..max */
static void families(int max)
{
	static const char *names[64];
	const char *tok[80];
	const struct ast *ch[64];
	int n, i, lens[4];

	for (i = 0; i < 64; i++) {
		char *s = malloc(16);
		snprintf(s, 16, "k%02d", i);
		names[i] = s;
	}
	for (n = 0; n <= max; n++) {
		for (i = 0; i < n; i++) { ch[i] = ast_leaf(G_STR, names[i]); tok[i] = names[i]; }
		tok[n] = "k0"; tok[n + 1] = "zz";
		lens[0] = n; lens[1] = n + 1; lens[2] = n + 2; lens[3] = n > 0 ? n - 1 : 0;
		one_family(ast_n(G_SEQ, n, ch), tok, lens, 4);
		/* or: each alternative, and none */
		{
			struct ast *a = ast_n(G_OR, n, ch);
			for (i = 0; i <= n; i++) {
				lens[0] = 1; lens[1] = 2; lens[2] = 0;
				one_family(a, tok + i, lens, 3);
			}
		}
		/* option chain in a sequence: every suffix */
		for (i = 0; i < n; i++) ch[i] = ast_un(G_OPTION, ch[i]);
		{
			struct ast *a = ast_n(G_SEQ, n, ch);
			for (i = 0; i <= n && n <= 12; i++) {
				lens[0] = n - i; lens[1] = n - i + 1; lens[2] = n > i ? n - i - 1 : 0;
				one_family(a, tok + i, lens, 3);
			}
		}
		/* repetition of n tokens */
		for (i = 0; i < n; i++) tok[i] = i % 3 == 2 ? "ab" : "a";
		tok[n] = "a"; tok[n + 1] = "";
		lens[0] = n; lens[1] = n + 1; lens[2] = n + 2; lens[3] = n > 0 ? n - 1 : 0;
		ch[0] = ast_leaf(G_STR, "a"); ch[1] = ast_leaf(G_STR, "ab");
		if (n <= 20) {
			one_family(ast_many(ast_n(G_OR, 2, ch), 0, 0), tok, lens, 4);
			one_family(ast_many(ast_n(G_OR, 2, ch), n, n), tok, lens, 4);
		}
		/* nesting depth n */
		{
			const struct ast *a = ch[0], *b = ch[0], *c = ch[0];
			for (i = 0; i < n; i++) { a = ast_un(G_OPTION, a); b = ast_un(G_BYPASS, b); c = ast_n(G_SEQ, 1, &c); }
			lens[0] = 0; lens[1] = 1; lens[2] = 2;
			one_family(a, tok, lens, 3);
			one_family(b, tok, lens, 3);
			one_family(c, tok, lens, 3);
		}
	}
	/* subset of n distinct children, every rotation and the reverse order */
	for (n = 0; n <= (max > 12 ? 5 : 4); n++) {
		for (i = 0; i < n; i++) ch[i] = ast_leaf(G_STR, names[i]);
		struct ast *a = ast_n(G_SUBSET, n, ch);
		for (int rot = 0; rot <= n; rot++)
			for (int rev = 0; rev < 2; rev++) {
				for (i = 0; i < n; i++) tok[i] = names[rev ? (2 * n - 1 - i + rot) % n : (i + rot) % n];
				tok[n] = "k0"; tok[n + 1] = "";
				lens[0] = n; lens[1] = n + 1; lens[2] = n > 0 ? n - 1 : 0; lens[3] = n + 2;
				one_family(a, tok, lens, 4);
			}
	}
	/* many(min,max) over every small child, all bounds */
	for (unsigned mn = 0; mn <= 4; mn++)
		for (unsigned mx = 0; mx <= 4; mx++)
			for (int c = 0; c < 6; c++) {
				const struct ast *x = ast_leaf(G_STR, "a"), *y = ast_leaf(G_STR, "ab"), *z;
				const struct ast *p[3] = { x, y, ast_leaf(G_EMPTY, NULL) };
				switch (c) {
				case 0: z = x; break;
				case 1: z = ast_n(G_OR, 2, p); break;
				case 2: z = ast_n(G_SEQ, 2, p); break;
				case 3: z = ast_n(G_OR, 3, p); break;
				case 4: z = ast_un(G_OPTION, x); break;
				default: z = ast_n(G_SUBSET, 2, p); break;
				}
				struct ast *m = ast_many(z, mn, mx);
				for (int v = 0; v < 64; v++) {
					for (i = 0; i < 6; i++) tok[i] = v >> i & 1 ? "ab" : "a";
					tok[6] = "";
					for (i = 0; i < 4; i++) lens[i] = i + 3;
					one_family(m, tok, lens, 4);
				}
			}
}

/* sizes around powers of two, long words, every byte */
static void large(int max)
{
	static const int sizes[] = { 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025 };
	static const int wlen[] = { 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097 };
	static char names[1100][8];
	static const char *tok[1200];
	static const struct ast *ch[1100];
	int n, i, k, lens[6], sd = r_maxdepth, sw = r_maxwork;

	r_maxdepth = 3000; r_maxwork = 3000000;
	for (i = 0; i < 1100; i++) snprintf(names[i], sizeof(names[i]), "k%d", i);
	for (k = 0; k < 18 && sizes[k] <= max; k++) {
		n = sizes[k];
		for (i = 0; i < n; i++) { ch[i] = ast_leaf(G_STR, names[i]); tok[i] = names[i]; }
		tok[n] = "k1"; tok[n + 1] = "zz"; tok[n + 2] = "zz";
		lens[0] = n; lens[1] = n + 1; lens[2] = n - 1; lens[3] = n + 2; lens[4] = 0;
		one_family(ast_n(G_SEQ, n, ch), tok, lens, 5);
		{
			struct ast *a = ast_n(G_OR, n, ch), *b = ast_n(G_SUBSET, n, ch);
			int at[] = { 0, 1, n / 2, n - 2, n - 1, n, n + 1 };
			lens[0] = 1; lens[1] = 2; lens[2] = 0;
			for (i = 0; i < 7; i++) {
				one_family(a, tok + at[i], lens, 3);
				one_family(b, tok + at[i], lens, 3);
			}
			if (n <= 65) { lens[0] = n; lens[1] = n + 1; one_family(b, tok, lens, 2); }
		}
		for (i = 0; i < n; i++) ch[i] = ast_un(G_OPTION, ch[i]);
		lens[0] = 0; lens[1] = 1;
		{
			struct ast *a = ast_n(G_SEQ, n, ch);
			for (i = n - 2; i <= n + 1; i++) one_family(a, tok + i, lens, 2);
			one_family(a, tok, lens, 2);
		}
		ch[0] = ast_leaf(G_STR, "a"); ch[1] = ast_leaf(G_STR, "ab");
		for (i = 0; i < n + 2; i++) tok[i] = i % 3 == 2 ? "ab" : "a";
		tok[n + 2] = "";
		lens[0] = n; lens[1] = n + 1; lens[2] = n - 1;
		{
			struct ast *a = ast_n(G_OR, 2, ch);
			one_family(ast_many(a, 0, 0), tok, lens, 3);
			one_family(ast_many(a, n, n), tok, lens, 3);
			one_family(ast_many(a, n + 1, 0), tok, lens, 3);
			one_family(ast_many(a, 0, n - 1), tok, lens, 3);
			one_family(ast_many(ast_leaf(G_ANY, NULL), n, 0), tok, lens, 3);
		}
		{
			const struct ast *a = ch[0], *b = ch[0], *c = ch[0];
			for (i = 0; i < n; i++) { a = ast_un(G_OPTION, a); b = ast_un(G_BYPASS, b); c = ast_n(i & 1 ? G_OR : G_SEQ, 1, &c); }
			lens[0] = 0; lens[1] = 1; lens[2] = 2;
			one_family(a, tok, lens, 3);
			one_family(b, tok, lens, 3);
			one_family(c, tok, lens, 3);
		}
	}
	for (k = 1; k < 60; k++) {
		char *w[6];
		n = k < 40 ? k : wlen[k - 40];
		for (i = 0; i < 6; i++) {
			w[i] = malloc(n + 2);
			for (int j = 0; j <= n; j++) w[i][j] = 'a' + j % 23;
			w[i][n] = 0; w[i][n + 1] = 0;
		}
		w[1][n] = 'q'; w[2][n - 1] = 0; w[3][n - 1] ^= 1; w[4][0] ^= 0x20; w[5][n / 2] ^= 0x80;
		ch[0] = ast_leaf(G_STR, w[0]); ch[1] = ast_leaf(G_STR, w[1]);
		for (i = 0; i < 36; i++) {
			tok[0] = w[i / 6]; tok[1] = w[i % 6]; tok[2] = "";
			lens[0] = 1; lens[1] = 2; lens[2] = 3;
			one_family(ch[0], tok, lens, i % 6 ? 2 : 1);
			one_family(ast_n(G_OR, 2, ch), tok, lens, 2);
			one_family(ast_n(G_SEQ, 2, ch), tok, lens, 3);
		}
	}
	for (k = 1; k < 256; k++) {
		static char s[256][4];
		char *t = s[k];
		snprintf(t, 4, "%c", k);
		tok[1] = ""; lens[0] = 1; lens[1] = 0;
		for (i = 0; i < 7; i++) {
			static char x[7][4];
			char *w = x[i];
			w[0] = 'a'; w[1] = k; w[2] = 0; w[3] = 0;
			switch (i) {
			case 0: break;
			case 1: w[1] ^= 0x20; break;
			case 2: w[1] ^= 0x80; break;
			case 3: w[0] = k; w[1] = 0; break;
			case 4: w[0] = k ^ 0x20; w[1] = 0; break;
			case 5: w[2] = k; break;
			default: w[1] = 0; break;
			}
			tok[0] = w;
			char *l = malloc(4);
			snprintf(l, 4, "a%c", k);
			ch[0] = ast_leaf(G_STR, t); ch[1] = ast_leaf(G_STR, l); ch[2] = ast_leaf(G_ANY, NULL);
			one_family(ast_n(G_OR, 2, ch), tok, lens, 1);
			one_family(ast_n(G_OR, 3, ch), tok, lens, 1);
		}
	}
	r_maxdepth = sd; r_maxwork = sw;
}

/* nesting only, up to depths where a limit may hide */
static void __attribute__((unused)) deep(void)
{
	static const int sizes[] = { 200, 255, 256, 257, 400, 511, 512, 513, 800, 1000, 1023, 1024, 1025, 1500 };
	static const char *const tok[] = { "a", "" }, *const tok2[] = { "", "" };
	int lens[] = { 1, 2, 0 }, sd = r_maxdepth, sw = r_maxwork;
	r_maxdepth = 4000; r_maxwork = 10000000;
	for (int k = 0; k < 14; k++) {
		const struct ast *a = ast_leaf(G_STR, "a"), *b = a, *c = a;
		for (int i = 0; i < sizes[k]; i++) { a = ast_un(G_OPTION, a); b = ast_un(G_BYPASS, b); c = ast_n(i & 1 ? G_OR : G_SEQ, 1, &c); }
		one_family(a, tok, lens, 3);
		one_family(b, tok, lens, 3);
		one_family(b, tok2, lens, 2);
		if (sizes[k] <= 513) one_family(c, tok2, lens, 2);
	}
	r_maxdepth = sd; r_maxwork = sw;
}

static void enum_space(int full, int small, int rec, int kinds, int fam, int big, int attr)
{
	int i;
	toks = tok_std; ntoks = 4; maxlen = 3; only_rec = 0;
	for (variadic = 0; variadic < 2; variadic++)
		for (i = 1; i <= full - variadic; i++) ast_enum(&al_full, i, one_grammar);
	variadic = 1;
	families(fam);
	large(big);
	only_rec = 1;
	for (i = 1; i <= rec; i++) ast_enum(&al_rec, i, one_grammar);
	only_rec = 0;
	for (i = 1; i <= small; i++) ast_enum(&al_small, i, one_grammar);
	toks = tok_attr; ntoks = 4; maxlen = 3; gram_attrs = 1;
	for (i = 1; i <= attr; i++) ast_enum(&al_attr, i, one_grammar);
	gram_attrs = 0;
	toks = tok_kinds; ntoks = 11; maxlen = 2;
	for (i = 1; i <= kinds; i++) ast_enum(&al_kinds, i, one_grammar);
}
#endif
