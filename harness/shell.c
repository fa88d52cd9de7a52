/* C24: grammars used from shell scripts: the variables written by ecoli-parse-yaml, read through libshell/libecoli.sh. */
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <ecoli.h>
#include "gram.h"

/* the program, as it is */
#define main tool_main
#include "parse-yaml.c"
#undef main

static struct mc_buf yb, lb, eb, sb, xb, db;
static char *dir, *f_yaml, *f_out, *f_in, *f_stdout, *f_sh, *f_res;

static void paths(void)
{
	const char *sc = getenv("MC_SCRATCH");
	if (f_res) return;
	if (asprintf(&dir, "%s/sh-%d", sc && sc[0] == '/' ? sc : "/tmp", getpid()) < 0) mc_bug("asprintf");
	mkdir(dir, 0700);
	asprintf(&f_yaml, "%s/g.yaml", dir);
	asprintf(&f_out, "%s/o.sh", dir);
	asprintf(&f_in, "%s/in", dir);
	asprintf(&f_stdout, "%s/stdout", dir);
	asprintf(&f_sh, "%s/run.sh", dir);
	asprintf(&f_res, "%s/res", dir);
}
static void put(const char *path, const char *s)
{
	FILE *f = fopen(path, "w");
	if (!f || fputs(s, f) < 0 || fclose(f)) mc_bug("write %s", path);
}
static char *get(const char *path)
{
	static struct mc_buf b;
	char t[4096];
	size_t n;
	FILE *f = fopen(path, "r");
	if (!f) return NULL;
	mc_buf_reset(&b);
	mc_buf_add(&b, "%s", "");
	while ((n = fread(t, 1, sizeof(t), f)) > 0) mc_buf_add(&b, "%.*s", (int)n, t);
	fclose(f);
	return b.s;
}
/* run in a process of its own, in the scratch directory: the program, or a shell on the script */
static int run(char *const *argv, const char *in, const char *out)
{
	int st;
	pid_t p;
	fflush(NULL);
	p = fork();
	if (p < 0) mc_bug("fork");
	if (p == 0) {
		int i = open(in, O_RDONLY), o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("/dev/null", O_WRONLY), n;
		if (i < 0 || o < 0 || e < 0 || chdir(dir)) _exit(77);
		dup2(i, 0); dup2(o, 1);
		if (argv[0][0] == '/') {
			dup2(e, 2);
			execv(argv[0], argv);
			_exit(77);
		}
		for (n = 0; argv[n]; n++) ;
		ec_exit();
		optind = 0;
		n = tool_main(n, (char **)argv);
		fflush(NULL);
		_exit(n);
	}
	if (waitpid(p, &st, 0) != p) mc_bug("waitpid");
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) mc_bug("cannot run %s", argv[0]);
	return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

static void yaml_str(const char *s)
{
	mc_buf_add(&yb, "\"");
	for (; *s; s++)
		if (*s == '"' || *s == '\\') mc_buf_add(&yb, "\\%c", *s);
		else mc_buf_add(&yb, "%c", *s);
	mc_buf_add(&yb, "\"");
}
static void yaml(struct g *g)
{
	static const char *const t[] = { [G_STR] = "str", [G_ANY] = "any", [G_EMPTY] = "empty", [G_SPACE] = "space",
		[G_OPTION] = "option", [G_MANY] = "many", [G_ONCE] = "once", [G_BYPASS] = "bypass", [G_SEQ] = "seq", [G_OR] = "or", [G_SUBSET] = "subset" };
	if (g->k >= sizeof(t) / sizeof(t[0]) || !t[g->k]) mc_bug("yaml");
	mc_buf_add(&yb, "{type: %s", t[g->k]);
	if (gram_id(g)[0]) {
		mc_buf_add(&yb, ", id: ");
		yaml_str(gram_id(g));
	}
	if (g->k == G_STR) {
		mc_buf_add(&yb, ", string: ");
		yaml_str(g->s);
	}
	if (g->k == G_MANY) mc_buf_add(&yb, ", min: %u, max: %u", g->min, g->max);
	if (g->k >= G_SEQ) {
		mc_buf_add(&yb, ", children: [");
		for (int i = 0; i < g->n; i++) {
			if (i) mc_buf_add(&yb, ", ");
			yaml(g->ch[i]);
		}
		mc_buf_add(&yb, "]");
	} else if (g->n) {
		mc_buf_add(&yb, ", child: ");
		yaml(g->ch[0]);
	}
	mc_buf_add(&yb, "}");
}
static const char *type_of(struct g *g)
{
	static const char *const t[] = { [G_STR] = "str", [G_ANY] = "any", [G_EMPTY] = "empty", [G_SPACE] = "space",
		[G_OPTION] = "option", [G_MANY] = "many", [G_ONCE] = "once", [G_BYPASS] = "bypass", [G_SEQ] = "seq", [G_OR] = "or", [G_SUBSET] = "subset" };
	return t[g->k];
}
/* the tree the shell must see: node 1 is the lexer */
static struct { const char *id, *type; int parent, first, next, start, len; } T[300];
static int nT;
static int number(struct rt *t, int parent)
{
	int me = ++nT, prev = 0;
	if (me >= 290) mc_bug("tree too large");
	T[me].id = gram_id(t->g);
	T[me].type = type_of(t->g);
	T[me].parent = parent;
	T[me].first = T[me].next = 0;
	T[me].start = t->start;
	T[me].len = t->len;
	for (struct rt *c = t->first; c; c = c->next) {
		int k = number(c, me);
		if (prev) T[prev].next = k; else T[me].first = k;
		prev = k;
	}
	return me;
}
static void expect_node(int n) { if (n) mc_buf_add(&eb, "<ec_node%d>\n", n); else mc_buf_add(&eb, "<>\n"); }
#define Q(...) do { mc_buf_add(&sb, "r \"$("); mc_buf_add(&sb, __VA_ARGS__); mc_buf_add(&sb, ")\"\n"); } while (0)
static void sh_quote(struct mc_buf *b, const char *s)
{
	mc_buf_add(b, "'");
	for (; *s; s++)
		if (*s == '\'') mc_buf_add(b, "'\\''");
		else mc_buf_add(b, "%c", *s);
	mc_buf_add(b, "'");
}
#define NVAR 4
static const char *const shells[] = { "/bin/sh", "/bin/bash" };
static const char *const prelude[] = { "", "set -e\n" };

static void find(int from, const char *id)
{
	int k;
	mc_buf_add(&sb, "r \"$(ec_pnode_find_first ec_node%d ", from);
	sh_quote(&sb, id);
	mc_buf_add(&sb, ")\"\n");
	for (k = from; k <= nT; k++) if (!strcmp(T[k].id, id)) break;
	expect_node(k <= nT ? k : 0);
}
/* run the script in the shell, compare the answers; sig: how a difference is reported */
static void ask(int var, const char *sig)
{
	char *a[] = { (char *)shells[var % 2], f_sh, NULL }, *got, *e;
	int st = run(a, "/dev/null", f_res);
	mc_trans(nT * 6);
	got = get(f_res);
	if (strcmp(got, eb.s)) {
		const char *q = sb.s;
		/* the first line that differs, with the question */
		while (strncmp(q, "r ", 2)) q = strchr(q, '\n') + 1;
		for (e = eb.s; *e && *got; ) {
			size_t a = strcspn(e, "\n"), b = strcspn(got, "\n");
			if (a != b || memcmp(e, got, a)) {
				mc_fail(sig, "%.*s: %.*s instead of %.*s (%s)", (int)strcspn(q, "\n"), q, (int)b, got, (int)a, e, shells[var % 2]);
				return;
			}
			e += a + 1; got += b + (got[b] != 0);
			q += strcspn(q, "\n") + 1;
		}
		mc_fail(sig, "missing or additional lines, exit status %d (%s)", st, shells[var % 2]);
		return;
	}
	MC_CHECK(st == 0, sig, "%s%s: exit status %d of the script", prelude[var / 2], shells[var % 2], st);
}
static void parse_case(struct gram *gr, const char *const *tok, int n, int var, int full)
{
	struct rt *rt;
	int exp, st, i, j, k, quote;
	char *argv[] = { "ecoli-parse-yaml", "-i", f_yaml, "-o", f_out, NULL };

	exp = ref_parse(gr, tok, n, &rt);
	if (exp == R_DIVERGE) return;
	mc_buf_reset(&lb);
	mc_buf_add(&lb, "%s", "");
	for (i = 0; i < n; i++) {
		if (i) mc_buf_add(&lb, " ");
		if (!tok[i][0]) mc_buf_add(&lb, "\"\"");
		/* plain characters are given plain */
		for (const char *s = tok[i]; *s; s++) {
			if (!((*s >= 'a' && *s <= 'z') || (*s >= '0' && *s <= '9'))) mc_buf_add(&lb, "\\");
			mc_buf_add(&lb, "%c", *s);
		}
	}
	mc_buf_reset(&xb);
	mc_buf_add(&xb, "%s\n", lb.s);
	put(f_in, xb.s);
	put(f_yaml, yb.s);
	unlink(f_out);
	st = run(argv, f_in, f_stdout);
	mc_trans(1);
	if (exp != n) {
		MC_CHECK(st == 1, "exit", "the line does not match: exit status %d instead of 1", st);
		MC_CHECK(access(f_out, F_OK) != 0, "output", "the line does not match, but a result is written");
		rt_free(rt);
		mc_outcome(1);
		return;
	}
	MC_CHECK(st == 0, "exit", "the line matches: exit status %d", st);
	nT = 1;
	T[1].id = ""; T[1].type = "sh_lex"; T[1].parent = 0; T[1].next = 0; T[1].start = -1; T[1].len = 1;
	T[1].first = number(rt, 1);
	mc_buf_reset(&sb);
	mc_buf_reset(&eb);
	mc_buf_add(&sb, "%s. %s\n. %s\nr() { printf '<%%s>\\n' \"$1\"; }\n", prelude[var / 2], LIBECOLI_SH, f_out);
	for (i = 1; i <= nT; i++) {
		mc_buf_add(&sb, "r \"$ec_node%d_type\"\nr \"$ec_node%d_parent\"\n", i, i);
		mc_buf_add(&eb, "<%s>\n", T[i].type);
		expect_node(T[i].parent);
		Q("ec_pnode_get_id ec_node%d", i);
		mc_buf_add(&eb, "<%s>\n", T[i].id);
		Q("ec_pnode_get_first_child ec_node%d", i);
		expect_node(T[i].first);
		Q("ec_pnode_get_next ec_node%d", i);
		expect_node(T[i].next);
		Q("ec_pnode_iter_next ec_node%d", i);
		expect_node(i < nT ? i + 1 : 0);
		Q("ec_pnode_get_strvec_len ec_node%d", i);
		mc_buf_add(&eb, "<%d>\n", T[i].len);
		for (j = 0; j <= T[i].len; j++) {
			if (j > 12 && j < T[i].len - 2) continue;
			Q("ec_pnode_get_str ec_node%d %d", i, j);
			mc_buf_add(&eb, "<%s>\n", j == T[i].len ? "" : i == 1 ? lb.s : tok[T[i].start + j]);
		}
	}
	/* search of every identifier, from the root and (full) from everywhere */
	for (i = 1; i <= (full ? nT : 1); i++) {
		find(i, "zz");
		if (i == 1) { find(i, "x"); find(i, "*"); find(i, "x*"); find(i, "!="); find(i, "("); }
		for (j = 1; j <= nT; j++) {
			if (!T[j].id[0]) continue;
			for (k = 1; k < j; k++) if (!strcmp(T[k].id, T[j].id)) break;
			if (k == j) find(i, T[j].id);
		}
	}
	mc_buf_add(&sb, "echo end\n");
	mc_buf_add(&eb, "end\n");
	put(f_sh, sb.s);
	for (quote = strchr(lb.s, '\'') != NULL, i = 1; i <= nT; i++) if (strchr(T[i].id, '\'')) quote = 1;
	ask(var, quote ? "tool-quote" : "value");
	if (quote) {
		/* the program does not protect quotes: also ask about the same result, protected */
		mc_buf_reset(&xb);
		for (i = 1; i <= nT; i++) {
			mc_buf_add(&xb, "ec_node%d_id=", i); sh_quote(&xb, T[i].id);
			mc_buf_add(&xb, "\nec_node%d_type=%s\nec_node%d_strvec_len=%d\n", i, T[i].type, i, T[i].len);
			for (j = 0; j < T[i].len; j++) {
				mc_buf_add(&xb, "ec_node%d_str%d=", i, j); sh_quote(&xb, i == 1 ? lb.s : tok[T[i].start + j]);
				mc_buf_add(&xb, "\n");
			}
			if (T[i].parent) mc_buf_add(&xb, "ec_node%d_parent=ec_node%d\n", i, T[i].parent);
			if (T[i].first) mc_buf_add(&xb, "ec_node%d_first_child=ec_node%d\n", i, T[i].first);
			if (T[i].next) mc_buf_add(&xb, "ec_node%d_next=ec_node%d\n", i, T[i].next);
		}
		put(f_out, xb.s);
		ask(var, "value");
	}
	mc_outcome(mc_hs(MC_H0, eb.s));
	mc_state(mc_hs(mc_hs(MC_H0, eb.s), yb.s));
	if (nT > 2) mc_nontrivial();
	rt_free(rt);
}
static void complete_case(struct gram *gr, const char *const *tok, int n)
{
	struct rcomp rc = { 0 };
	int i, st, nf = 0, nu = 0;
	char *argv[24] = { "ecoli-parse-yaml", "-c", "-i", f_yaml, "-o", f_out, "--" }, *got;

	if (n == 0 || n > 12 || ref_complete(gr, tok, n, &rc) == R_DIVERGE) return;
	for (i = 0; i < n; i++) argv[7 + i] = (char *)tok[i];
	put(f_yaml, yb.s);
	st = run(argv, "/dev/null", f_stdout);
	mc_trans(1);
	for (i = 0; i < rc.n; i++) if (rc.it[i].type != 'F') nu++;
	MC_CHECK(st == 0, nu ? "tool-unknown" : "complete-exit", "completion: exit status %d", st);
	mc_buf_reset(&eb);
	mc_buf_add(&eb, "%s", "");
	for (i = 0; i < rc.n; i++)
		if (rc.it[i].type == 'F') { mc_buf_add(&eb, "%s\n", rc.it[i].str); nf++; }
	got = get(f_stdout);
	MC_CHECK(!strcmp(got, eb.s), nu ? "tool-unknown" : "complete", "completion prints:\n%sinstead of:\n%s", got, eb.s);
	mc_outcome(mc_hs(MC_H0, eb.s));
	mc_state(mc_hs(mc_hs(MC_H0, eb.s), yb.s));
	rcomp_free(&rc);
}
static void one(const struct ast *a, const char *const *ids, const char *const *tok, int n, int var, int full, int comp)
{
	struct gram gr;

	if (!mc_next()) return;
	var %= NVAR;
	gram_ids = ids;
	if (gram_build(&gr, a, 0) < 0) mc_bug("gram_build");
	mc_buf_reset(&yb);
	yaml(gr.root);
	mc_buf_add(&yb, "\n");
	mc_buf_reset(&db);
	tok_text(&db, tok, n);
	mc_desc("%s, %s%s: %swords %s", shells[var % 2], var / 2 ? "set -e, " : "", comp ? "completion" : "parse", yb.s, db.s);
	paths();
	/* names that a wildcard would find */
	mkdir(dir, 0700);
	xb.len = 0;
	if (access(f_yaml, F_OK)) {
		char *t;
		asprintf(&t, "%s/a", dir); put(t, ""); free(t);
		asprintf(&t, "%s/b c", dir); put(t, ""); free(t);
	}
	if (comp) complete_case(&gr, tok, n);
	else parse_case(&gr, tok, n, var, full);
	gram_free(&gr);
	gram_ids = NULL;
	mc_end();
}
/* every list of tokens of length <= max */
static const char *const *G_ids;
static const char *const *words;
static int nwords, maxtok, G_var, G_full, G_comp;
static void inputs(const struct ast *a)
{
	const char *tok[6];
	int idx[6], n, i;
	for (n = 0; n <= maxtok; n++) {
		for (i = 0; i < n; i++) idx[i] = 0;
		for (;;) {
			for (i = 0; i < n; i++) tok[i] = words[idx[i]];
			one(a, G_ids, tok, n, G_var, G_full, 0);
			if (n && G_comp) one(a, G_ids, tok, n, 0, 0, 1);
			for (i = n - 1; i >= 0 && ++idx[i] == nwords; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
}
static void grammars(void)
{
	static const struct ast leaf[] = { { .k = G_STR, .s = "a" }, { .k = G_STR, .s = "ab" }, { .k = G_ANY } };
	static const struct ast unary[] = { { .k = G_OPTION }, { .k = G_MANY, .min = 0, .max = 0 } };
	static const enum gk nary[] = { G_SEQ, G_OR };
	static const char *const w[] = { "a", "ab" };
	/* identifiers: none at all, all, every other one, the same twice */
	static const char *const ids[][8] = {
		{ "", "", "", "", "", "", "", "" }, { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7" },
		{ "", "x", "", "y", "", "z", "", "t" }, { "x", "", "x", "y", "x", "", "y", "x" },
		/* that extend each other */
		{ "xy", "yx", "y", "x", "X", "xx", "", "x y" } };
	struct alphabet al = { leaf, 3, unary, 2, nary, 2, 3 };
	words = w; nwords = 2; G_full = 1;
	for (int s = 1; s <= (mc_thorough ? 4 : 3); s++)
		for (int i = 0; i < 5; i++) {
			if ((s == 4 && i != 2) || (s == 3 && i == 1 && !mc_thorough)) continue;
			G_comp = i == (s == 4 ? 2 : 0);
			al.nleaf = 3;
			al.nnary = 2;
			maxtok = s <= 2 ? 3 : 2;
			G_ids = ids[i]; G_var = i % NVAR;
			ast_enum(&al, s, inputs);
		}
}
/* every text of a word, of an identifier */
static void texts(void)
{
	static const char set[] = "a *'\"$\\`-";
	static const char *const special[] = { "", "$HOME", "$(id)", "`id`", "-n", "-e", "--", "a\\nb", "\\", "%s", "%d%n", "a;b", "a&b", "(a)", "{a,b}", "~", "~root", "[a-z]", "?", "!", "#", "a#",
		"'", "''", "'a'", "\"", "\"a\"", "  ", " a", "a ", "a  b", "a\tb", "*", "/*", "*a", "a=b", "<a", ">a", "|", "${a}", "$1", "$*", "$@", "\\'", "'\\''", "'$HOME'", "ec_node2", "\x01\x7f" };
	static const char *const ids[] = { "s", "x", "y", "z" };
	static char w[5];
	const struct ast *ch[3] = { ast_leaf(G_ANY, NULL), ast_leaf(G_ANY, NULL), ast_leaf(G_ANY, NULL) };
	const struct ast *a = ast_n(G_SEQ, 3, ch), *m = ast_many(ast_leaf(G_ANY, NULL), 0, 0);
	int nsp = sizeof(special) / sizeof(special[0]), max = mc_thorough ? 3 : 2, i, n, k;
	const char *tok[20];

	for (i = 0; i < nsp; i++)
		for (k = 0; k < NVAR; k++) {
			tok[0] = "a"; tok[1] = special[i]; tok[2] = "b";
			one(a, ids, tok, 3, k, 0, 0);
			/* as a keyword, which is also proposed */
			{
				const struct ast *o[3] = { ast_leaf(G_STR, special[i]), ast_leaf(G_STR, "k"), ast_leaf(G_STR, "kk") };
				if (special[i][0] && (unsigned char)special[i][0] >= ' ' && (unsigned char)special[i][0] < 127) {
					one(ast_n(G_OR, 3, o), ids, tok + 1, 1, k, 0, 0);
					tok[1] = "";
					if (k == 0) one(ast_n(G_OR, 3, o), ids, tok + 1, 1, k, 0, 1);
					tok[1] = "k";
					if (k == 0) one(ast_n(G_OR, 3, o), ids, tok + 1, 1, k, 0, 1);
				}
			}
			/* as an identifier */
			if ((unsigned char)special[i][0] >= ' ' && (unsigned char)special[i][0] < 127) {
				const char *ids2[4] = { "", "x", special[i], "y" };
				tok[1] = "x";
				one(a, ids2, tok, 3, k, 0, 0);
			}
		}
	for (n = 1; n <= max; n++) {
		int idx[4] = { 0 };
		for (;;) {
			for (i = 0; i < n; i++) w[i] = set[idx[i]];
			w[n] = 0;
			tok[0] = w; tok[1] = "b"; tok[2] = w;
			one(m, ids, tok, 3, n + idx[0], 0, 0);
			for (i = n - 1; i >= 0 && !set[++idx[i]]; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
	/* every byte */
	for (i = 1; i < 128; i++) {
		static char c[4];
		if (i == '\n' || i == '\r') continue;  /* libedit ends the line */
		c[0] = 'x'; c[1] = i; c[2] = 'y'; c[3] = 0;
		tok[0] = c; tok[1] = "b"; tok[2] = c + 1;
		one(m, ids, tok, 3, i, 0, 0);
	}
}
/* large trees: numbers of two and three digits */
static void sizes(void)
{
	static const int sz[] = { 7, 8, 9, 10, 11, 19, 97, 98, 99, 100 };
	static const char *ids[300];
	static const char *tok[120];
	for (int i = 0; i < 120; i++) tok[i] = i % 3 ? "a" : "ab";
	for (int i = 0; i < (int)(sizeof(sz) / sizeof(sz[0])) - (mc_thorough ? 0 : 4); i++) {
		int n = sz[i];
		const struct ast *ch[110];
		for (int k = 0; k < 300; k++) ids[k] = k % 4 == 1 ? "" : k % 7 == 0 ? "q" : "n";
		one(ast_many(ast_leaf(G_ANY, NULL), 0, 0), ids, tok, n, i, 0, 0);
		for (int k = 0; k < n; k++) ch[k] = ast_leaf(G_ANY, NULL);
		ids[n / 2] = "mid"; ids[n] = "last";
		one(ast_n(G_SEQ, n, ch), ids, tok, n, i, 0, 0);
		/* deep: next after a deep child */
		const struct ast *a = ast_leaf(G_ANY, NULL);
		for (int k = 0; k < n - 2; k++) a = ast_un(k % 2 ? G_OPTION : G_ONCE, a);
		ch[0] = a; ch[1] = ast_leaf(G_ANY, NULL);
		one(ast_n(G_SEQ, 2, ch), ids, tok, 2, i, 0, 0);
	}
}
/* everything else the program can be asked */
static void refused(void)
{
	static const char *const docs[] = { NULL, "", "{type: str", "{type: nope}", "[a]", "{type: str, string: 3, x: 1}" };
	for (int i = 0; i < 6; i++)
		for (int c = 0; c < 2; c++) {
			char *argv[] = { "ecoli-parse-yaml", NULL, NULL, "-o", NULL, c ? "-c" : "--", "a", NULL };
			int st;
			if (!mc_next()) continue;
			paths();
			mkdir(dir, 0700);
			argv[1] = "-i"; argv[2] = f_yaml; argv[4] = f_out;
			mc_desc("document %s, %s", docs[i] ? docs[i] : "(missing)", c ? "completion" : "parse");
			put(f_in, "a\n");
			unlink(f_out);
			unlink(f_yaml);
			if (docs[i]) put(f_yaml, docs[i]);
			st = run(argv, f_in, f_stdout);
			mc_trans(1);
			MC_CHECK(st == 1, "refused", "exit status %d", st);
			MC_CHECK(access(f_out, F_OK) != 0, "refused-output", "a result is written");
			MC_CHECK(!get(f_stdout)[0], "refused-stdout", "something is printed");
			mc_outcome(i);
			mc_state(mc_hu(MC_H0, i * 2 + c));
			mc_end();
		}
}
void mc_run(void)
{
	refused();
	grammars();
	texts();
	sizes();
}
