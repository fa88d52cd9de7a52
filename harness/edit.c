/* C19: helpers for interactive use. Completion lists come from a scripted node (every small list), and from grammars behind
 * a lexer with every short line; every sequence of keys is typed on a pseudo terminal. */
#include <ecoli.h>
#include <ecoli_editline.h>
#include <fcntl.h>
#include <limits.h>
#include <termios.h>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>
#include "mc.h"

size_t __sanitizer_get_current_allocated_bytes(void);
static const char *nz(const char *s) { return s ? s : "(null)"; }

/* ---- a node that proposes a list of items --------------------------------- */
struct it { char type; const char *start, *full, *disp; };
#define MAXIT 40
static struct { int n; struct it it[MAXIT]; int match; } script[4];
struct priv { int num; };
static int sc_parse(const struct ec_node *n, struct ec_pnode *st, const struct ec_strvec *v)
{
	if (!script[((struct priv *)ec_node_priv(n))->num].match || ec_strvec_len(v) == 0) return EC_PARSE_NOMATCH;
	return 1;
}
static int sc_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	int g = ((struct priv *)ec_node_priv(n))->num, i;
	for (i = 0; i < script[g].n; i++) {
		struct it *x = &script[g].it[i];
		struct ec_comp_item *it = x->type == 'U' ? ec_comp_add_item(c, n, EC_COMP_UNKNOWN, NULL, NULL) :
			ec_comp_add_item(c, n, x->type == 'F' ? EC_COMP_FULL : EC_COMP_PARTIAL, x->start, x->full);
		if (it == NULL) mc_bug("add item");
		if (x->disp && ec_comp_item_set_display(it, x->disp) < 0) mc_bug("display");
	}
	return 0;
}
static struct ec_node_type sc_type = { .name = "mc_edit", .parse = sc_parse, .complete = sc_complete, .size = sizeof(struct priv) };
static struct ec_node *mk_script(int num, const char *id)
{
	struct ec_node *n = ec_node_from_type(&sc_type, id);
	((struct priv *)ec_node_priv(n))->num = num;
	return n;
}
static struct ec_node *with_help(struct ec_node *n, const char *h)
{
	if (h && ec_dict_set(ec_node_attrs(n), "help", ec_strdup(h), ec_free_func) < 0) mc_bug("help");
	return n;
}

/* ---- the terminal --------------------------------------------------------- */
static struct ec_editline *ed;
static EditLine *el;
static FILE *fin, *fout;
static struct mc_buf ob;
static void open_ed(void)
{
	if (ed) return;
	fin = fopen("/dev/null", "r");
	fout = tmpfile();
	if (!fin || !fout) mc_bug("files");
	ed = ec_editline("mc", fin, fout, fout, 0);
	if (ed == NULL) mc_fail("create", "ec_editline() failed");
	el = ec_editline_get_el(ed);
}
static void out_reset(void) { fflush(fout); rewind(fout); if (ftruncate(fileno(fout), 0) < 0) mc_bug("ftruncate"); }
static const char *out_get(void)
{
	char b[4096];
	size_t n;
	fflush(fout);
	mc_buf_reset(&ob);
	rewind(fout);
	while ((n = fread(b, 1, sizeof(b) - 1, fout)) > 0) { b[n] = 0; mc_buf_add(&ob, "%s", b); }
	return ob.s;
}
static void set_line(const char *s, int cursor)
{
	const LineInfo *li = el_line(el);
	el_cursor(el, li->lastchar - li->cursor);
	el_deletestr(el, li->lastchar - li->buffer);
	if (*s && el_insertstr(el, s) < 0) mc_bug("insertstr");
	el_cursor(el, cursor - (int)strlen(s));
	li = el_line(el);
	if ((size_t)(li->lastchar - li->buffer) != strlen(s) || li->cursor - li->buffer != cursor) mc_bug("line not set");
}

/* ---- expectations, from the completion list ---------------------------------- */
#define MAXW 620
struct want { char *m[MAXW]; int nm; char *lcp; int nfull, npart; struct { const char *help; char *desc; } h[MAXW]; int nh, match, err; };
static void want_free(struct want *w)
{
	int i;
	for (i = 0; i < w->nm; i++) free(w->m[i]);
	for (i = 0; i < w->nh; i++) ec_free(w->h[i].desc);
	free(w->lcp);
}
/* -1: the completion fails */
static int expect(struct want *w, const struct ec_node *node, const char *line, const char *full)
{
	struct ec_comp *c = ec_complete(node, line);
	struct ec_comp_item *it;
	const struct ec_comp_group *g, *pg = NULL;
	struct ec_pnode *p;
	memset(w, 0, sizeof(*w));
	if (c == NULL) return -1;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		const char *cp = ec_comp_item_get_completion(it);
		enum ec_comp_type t = ec_comp_item_get_type(it);
		const struct ec_pnode *s;
		int k;
		if (t != EC_COMP_UNKNOWN) {
			if (w->nm == MAXW) mc_bug("too many items");
			w->m[w->nm++] = strdup(ec_comp_item_get_display(it));
			if (cp == NULL) cp = "";
			if (w->lcp == NULL) w->lcp = strdup(cp);
			for (k = 0; w->lcp[k] && w->lcp[k] == cp[k]; k++);
			w->lcp[k] = 0;
			if (t == EC_COMP_FULL) w->nfull++; else w->npart++;
		}
		g = ec_comp_item_get_grp(it);
		if (g != pg) {
			if (w->nh == MAXW || w->nm >= MAXW) mc_bug("too many items");
			s = ec_comp_group_get_pstate(g);
			w->h[w->nh].desc = ec_node_desc(ec_pnode_get_node(s));
			for (; s && !ec_dict_has_key(ec_node_attrs(ec_pnode_get_node(s)), "help"); s = ec_pnode_get_parent(s));
			/* the text belongs to the grammar */
			w->h[w->nh++].help = s ? ec_dict_get(ec_node_attrs(ec_pnode_get_node(s)), "help") : "";
			pg = g;
		}
	}
	ec_comp_free(c);
	p = ec_parse(node, full);
	w->err = p == NULL; /* the line cannot be parsed: the helpers may report the error */
	w->match = p != NULL && ec_pnode_matches(p);
	ec_pnode_free(p);
	return 0;
}
static void check_helps(const struct want *w, struct ec_editline_help *h, ssize_t n, const char *what)
{
	int i;
	MC_CHECK(n == w->nh + w->match, "helps", "%s: %zd entries instead of %d", what, n, w->nh + w->match);
	if (w->match)
		MC_CHECK(!strcmp(nz(h[0].desc), "<return>") && h[0].help && h[0].help[0], "return", "%s: the first entry is \"%s\" \"%s\"", what, nz(h[0].desc), nz(h[0].help));
	for (i = 0; i < w->nh; i++) {
		MC_CHECK(!strcmp(nz(h[i + w->match].desc), nz(w->h[i].desc)), "desc", "%s: entry %d is \"%s\" instead of \"%s\"", what, i, nz(h[i + w->match].desc), nz(w->h[i].desc));
		MC_CHECK(!strcmp(nz(h[i + w->match].help), w->h[i].help), "help", "%s: the help of entry %d is \"%s\" instead of \"%s\"", what, i, nz(h[i + w->match].help), w->h[i].help);
	}
}
static int cmp_ci(const void *a, const void *b) { return strcasecmp(*(char *const *)a, *(char *const *)b); }
/* the output shows every match once, in order, in aligned columns */
static void check_cols(const char *o, char **m, int n, int width)
{
	char *sorted[MAXW];
	size_t max = 0, col;
	int i, seen[MAXW] = { 0 }, k = 0, rows = 0;
	for (i = 0; i < n; i++) { sorted[i] = m[i]; if (strlen(m[i]) > max) max = strlen(m[i]); }
	qsort(sorted, n, sizeof(*sorted), cmp_ci);
	MC_CHECK(o[0] == '\n', "cols-nl", "the list does not start on a new line");
	o++;
	if (n == 0) { MC_CHECK(*o == 0, "cols-extra", "output \"%s\" without any match", o); return; }
	if (max == 0) return;           /* nothing to see */
	while (*o) {
		const char *e = strchr(o, '\n');
		MC_CHECK(e != NULL, "cols-end", "unterminated row \"%s\"", o);
		for (col = 0; o + col < e || (col == 0 && o == e); col += max + 4) {
			char cell[2000];
			size_t l = e - o - col;
			if (l > max) l = max;
			memcpy(cell, o + col, l);
			while (l && cell[l - 1] == ' ') l--;
			cell[l] = 0;
			MC_CHECK(k < n, "cols-many", "more than %d matches shown", n);
			MC_CHECK(!strcasecmp(cell, sorted[k]), "cols-order", "\"%s\" is shown in place %d instead of \"%s\"", cell, k, sorted[k]);
			for (i = 0; i < n; i++) if (!seen[i] && !strcmp(cell, m[i])) break;
			MC_CHECK(i < n, "cols", "\"%s\" is shown", cell);
			seen[i] = 1;
			k++;
		}
		MC_CHECK(e - o <= width || (size_t)(e - o) <= max, "cols-width", "a row of %d characters on a terminal of %d", (int)(e - o), width);
		o = e + 1;
		rows++;
	}
	MC_CHECK(k == n, "cols-missing", "%d matches shown out of %d", k, n);
}
/* all helpers on one line */
static void helpers(const struct ec_node *node, const char *line, const char *full)
{
	struct want w;
	struct ec_comp *c;
	struct ec_editline_help *h;
	char **m, *a;
	ssize_t n;
	size_t before;
	int again = 0, i;
	if (expect(&w, node, line, full) < 0) {
		h = (void *)1;
		ec_editline_set_node(ed, node);
		n = ec_editline_get_helps(ed, line, full, &h);
		MC_CHECK(n < 0 && h == NULL, "helps-error", "%zd entries while the completion fails", n);
		return;
	}
retry:
	before = __sanitizer_get_current_allocated_bytes();
	c = ec_complete(node, line);
	m = (void *)1;
	n = ec_editline_get_completions(c, &m);
	MC_CHECK(n == w.nm, "count", "%zd completions instead of %d", n, w.nm);
	for (i = 0; i < w.nm; i++) MC_CHECK(!strcmp(m[i], w.m[i]), "match", "completion %d is \"%s\" instead of \"%s\"", i, m[i], w.m[i]);
	ec_editline_free_completions(m, n);
	a = ec_editline_append_chars(c);
	MC_CHECK((a == NULL) == (w.lcp == NULL), "append-null", "characters to append: %s instead of %s", nz(a), nz(w.lcp));
	MC_CHECK(a == NULL || !strcmp(a, w.lcp), "append", "characters to append: \"%s\" instead of \"%s\"", a, w.lcp);
	ec_free(a);
	ec_comp_free(c);
	ec_editline_set_node(ed, node);
	h = NULL;
	n = ec_editline_get_helps(ed, line, full, &h);
	if (w.err && n < 0) {
		MC_CHECK(h == NULL, "helps-error", "entries are returned with an error");
	} else {
		check_helps(&w, h, n, "helps");
		ec_editline_free_helps(h, n);
	}
	if (__sanitizer_get_current_allocated_bytes() != before && !again++) goto retry;
	MC_CHECK(__sanitizer_get_current_allocated_bytes() == before, "memory", "%zd bytes are not released", (ssize_t)(__sanitizer_get_current_allocated_bytes() - before));
	mc_trans(5);
	mc_outcome(mc_hu(mc_hu(mc_hs(MC_H0, w.lcp), w.nm), w.nh * 2 + w.match));
	if (w.nm || w.nh) mc_nontrivial();
	want_free(&w);
}
/* the two keys, with a cursor */
static void keys(const struct ec_node *node, const char *line, int cur, int width)
{
	struct want w;
	char left[PATH_MAX], wantl[PATH_MAX], *l;
	int r, err, i, wc;
	const char *o;
	memcpy(left, line, cur); left[cur] = 0;
	err = expect(&w, node, left, line) < 0;
	ec_editline_set_node(ed, node);
	for (int key = 0; key < 2; key++) {
		set_line(line, cur);
		l = ec_editline_curline(ed, true);
		MC_CHECK(l && !strcmp(l, left), "curline-trim", "line before the cursor: \"%s\" instead of \"%s\"", nz(l), left);
		ec_free(l);
		l = ec_editline_curline(ed, false);
		MC_CHECK(l && !strcmp(l, line), "curline", "line: \"%s\" instead of \"%s\"", nz(l), line);
		ec_free(l);
		out_reset();
		r = ec_editline_complete(el, key ? '?' : '\t');
		mc_trans(3);
		o = out_get();
		strcpy(wantl, line); wc = cur;
		if (!err && key == 1 && w.err && r == CC_ERROR) {
			;
		} else if (err) {
			MC_CHECK(r == CC_ERROR, "key-error", "key %d returns %d while the completion fails", key, r);
		} else if (key == 0 && w.lcp && w.lcp[0]) {
			MC_CHECK(r == CC_REFRESH, "refresh", "the line is not refreshed (%d)", r);
			snprintf(wantl, sizeof(wantl), "%s%s%s%s", left, w.lcp, w.nfull == 1 && w.npart == 0 ? " " : "", line + cur);
			wc = cur + strlen(wantl) - strlen(line);
			MC_CHECK(*o == 0, "noise", "output \"%s\"", o);
		} else if (key == 0) {
			MC_CHECK(r == CC_REDISPLAY, "redisplay", "the line is not displayed again (%d)", r);
			check_cols(o, w.m, w.nm, width);
		} else {
			MC_CHECK(r == CC_REDISPLAY, "redisplay", "the line is not displayed again (%d)", r);
			MC_CHECK(*o == '\n', "help-nl", "the help does not start on a new line");
			o++;
			for (i = 0; i < w.nh + w.match; i++) {
				const char *d = i < w.match ? "<return>" : w.h[i - w.match].desc, *h = i < w.match ? "" : w.h[i - w.match].help, *e = strchr(o, '\n');
				size_t dl = strlen(d);
				MC_CHECK(e != NULL, "help-lines", "%d lines of help instead of %d", i, w.nh + w.match);
				MC_CHECK(!strncmp(o, d, dl) && o[dl] == ' ', "help-desc", "line \"%.*s\" instead of the entry \"%s\"", (int)(e - o), o, d);
				if (i >= w.match) {
					const char *q = o + dl;
					while (*q == ' ' && q < e) q++;
					MC_CHECK((size_t)(e - q) == strlen(h) && !strncmp(q, h, e - q), "help-text", "help \"%.*s\" instead of \"%s\"", (int)(e - q), q, h);
				}
				o = e + 1;
			}
			MC_CHECK(*o == 0, "help-extra", "more than %d lines of help", w.nh + w.match);
		}
		l = ec_editline_curline(ed, false);
		MC_CHECK(l && !strcmp(l, wantl), "line", "key %s: the line becomes \"%s\" instead of \"%s\"", key ? "?" : "tab", nz(l), wantl);
		ec_free(l);
		l = ec_editline_curline(ed, true);
		MC_CHECK(l && (int)strlen(l) == wc, "cursor", "key %s: the cursor is at %d instead of %d", key ? "?" : "tab", (int)strlen(nz(l)), wc);
		ec_free(l);
	}
	if (!err) want_free(&w);
}
/* the longest part of the line, cut after a space, that matches or can be completed */
static void suggestions(const struct ec_node *node, const char *line)
{
	struct ec_editline_help *h = (void *)1;
	char *full = NULL, cut[PATH_MAX];
	int pos = -1, i;
	ssize_t n;
	struct want w;
	ec_editline_set_node(ed, node);
	set_line(line, strlen(line));
	n = ec_editline_get_suggestions(ed, &h, &full, &pos);
	mc_trans(1);
	MC_CHECK(n < 0 ? full == NULL || !strcmp(full, line) : full != NULL && !strcmp(full, line), "sug-line", "line \"%s\"", nz(full));
	ec_free(full);
	for (i = strlen(line); i >= 0; i--) {
		if (i && !strchr(" \t\n", line[i - 1])) continue;
		memcpy(cut, line, i); cut[i] = 0;
		if (expect(&w, node, cut, cut) < 0) { MC_CHECK(n < 0 && h == NULL, "sug-error", "%zd suggestions while the completion fails", n); return; }
		if (w.err && n < 0) {
			MC_CHECK(h == NULL, "sug-error", "entries are returned with an error");
			want_free(&w);
			return;
		}
		if (w.match || w.nh) {
			check_helps(&w, h, n, "suggestions");
			MC_CHECK(pos == i, "sug-pos", "position %d instead of %d", pos, i);
			want_free(&w);
			break;
		}
		want_free(&w);
	}
	if (i < 0) MC_CHECK(n == 0 && h == NULL, "sug-none", "%zd suggestions", n);
	ec_editline_free_helps(h, n);
	/* the other results are optional */
	h = NULL;
	MC_CHECK(ec_editline_get_suggestions(ed, &h, NULL, NULL) == n, "sug-opt", "not the same number of suggestions");
	ec_editline_free_helps(h, n);
}

/* ---- scripted lists ------------------------------------------------------------ */
static const struct it pool[] = {
	{ 'F', "", "ab" }, { 'F', "", "abc" }, { 'F', "", "b" }, { 'F', "", "" }, { 'P', "", "ab/" }, { 'P', "", "a" }, { 'U' },
	{ 'F', "x", "ab" }, { 'F', "a", "abd" }, { 'F', "", "ab", "shown" }, { 'F', "", "AB" }, { 'F', NULL, "q" },
};
#define NPOOL 12
static void scripted(void)
{
	static const char *hlp[] = { NULL, "h1", "two words" };
	struct ec_node *n0, *n1, *g, *p0;
	int len, v, i, x, tot, split, hv;
	static const char *ids[] = { "id0", EC_NO_ID };
	for (len = 0; len <= (mc_thorough ? 4 : 3); len++) {
		for (tot = 1, i = 0; i < len; i++) tot *= NPOOL;
		for (v = 0; v < tot; v++) {
			if (!mc_next()) continue;
			open_ed();
			for (split = 0; split <= len; split++) {
				memset(script, 0, sizeof(script));
				for (x = v, i = 0; i < len; i++, x /= NPOOL) {
					int k = i < split ? 0 : 1;
					script[k].it[script[k].n++] = pool[x % NPOOL];
				}
				hv = (v + split) % 27;
				script[0].match = v & 1;
				n0 = with_help(mk_script(0, ids[v % 2]), hlp[hv % 3]);
				p0 = with_help(ec_node_bypass("bp", n0), hlp[hv / 3 % 3]);
				n1 = mk_script(1, "id1");
				g = with_help(EC_NODE_OR("o", p0, n1), hlp[hv / 9]);
				mc_desc("%d items (%d), %d in the first group, helps %d", len, v, split, hv);
				helpers(g, "", "");
				keys(g, "", 0, 80);
				keys(g, "zz", 1, 80);
				suggestions(g, "z z");
				ec_editline_set_node(ed, NULL);
				ec_node_free(g);
			}
			mc_state(mc_hu(mc_hu(MC_H0, len), v));
			mc_end();
		}
	}
}
/* columns: number of matches, lengths, width of the terminal */
static void columns(void)
{
	static char names[64][260];
	char const *m[64];
	char *mm[64], wd[8];
	int n, wi, len, i, pat;
	static const int widths[] = { 80, 40, 10, 4, 132 };
	for (wi = 0; wi < 5; wi++)
		for (n = 0; n <= 30; n++) {
			if (!mc_next()) continue;
			open_ed();
			snprintf(wd, sizeof(wd), "%d", widths[wi]);
			if (el_set(el, EL_SETTC, "co", wd, NULL)) mc_bug("columns");
			for (len = 1; len <= 200; len += len < 8 ? 1 : len < 80 ? 9 : 40)
				for (pat = 0; pat < 3; pat++) {
					for (i = 0; i < n; i++) {
						int l = pat == 0 ? len : pat == 1 ? 1 + i % len : (i == n / 2 ? len : 1);
						memset(names[i], 'a' + (i * 7) % 26, l);
						if (pat == 2 && i & 1) names[i][0] = 'A' + (i * 3) % 26;
						names[i][l] = 0;
						m[i] = mm[i] = names[i];
					}
					mc_desc("%d matches of up to %d characters (%d), terminal of %d columns", n, len, pat, widths[wi]);
					out_reset();
					MC_CHECK(ec_editline_print_cols(ed, m, n) == 0, "print", "cannot print");
					mc_trans(1);
					check_cols(out_get(), mm, n, widths[wi]);
				}
			el_set(el, EL_SETTC, "co", "80", NULL);
			mc_end();
		}
}
/* ---- grammars behind a lexer --------------------------------------------------- */
static struct ec_node *S(const char *s, const char *h) { return with_help(ec_node_str(s, s), h); }
#define NG 13
static struct ec_node *grammar(int k)
{
	struct ec_node *g;
	switch (k) {
	case 0: g = EC_NODE_OR("o", S("ab", "help ab"), S("abc", NULL), S("ba", "help ba")); break;
	case 1: g = EC_NODE_SEQ("s", S("a", "first"), with_help(ec_node_option("opt", S("b", NULL)), "optional"), S("ab", "last")); break;
	case 2: g = with_help(ec_node_many("m", EC_NODE_OR("o", S("a", NULL), S("ab", "h ab")), 0, 0), "top"); break;
	case 3: g = EC_NODE_SUBSET("ss", S("a", "1"), S("b", "2"), EC_NODE_SEQ("s", S("ab", NULL), S("a", "3"))); break;
	case 4: g = EC_NODE_SEQ("s", S("a", NULL), with_help(ec_node_int("num", 0, 10, 10), "a number"), S("b", NULL)); break;
	case 5: g = EC_NODE_OR("o", with_help(ec_node_any("any", NULL), "anything"), S("a", "x")); break;
	case 6: g = EC_NODE_CMD("c", "a [b] x", with_help(ec_node_re("x", "[ab]+"), "regexp")); break;
	case 7: g = EC_NODE_OR("o", S("a b", "with a space"), S("a'b", "with a quote"), S("b", NULL)); break;
	case 8: g = ec_node_option("opt", EC_NODE_SEQ("s", S("ba", "y"), ec_node_once("once", S("bb", "z")))); break;
	case 9: g = ec_node_many("m", ec_node_cond("cond", "nosuch()", S("a", NULL)), 0, 0); break;
	case 10: g = EC_NODE_SEQ("s", ec_node_many("m", S("a", "same"), 1, 2), S("a", "same")); break;
	case 11: {   /* the same node below two nodes with their own help */
		struct ec_node *x = S("ab", NULL);
		g = EC_NODE_OR("o", with_help(EC_NODE_SEQ("s", ec_node_clone(x), S("b", NULL)), "one"), with_help(ec_node_bypass("by", x), "two"), S("ab", "three"));
		break;
	}
	default: g = ec_node("empty", "e"); break;
	}
	return g ? ec_node_sh_lex("sh", g) : NULL;
}
static void grammars_over(const char *al, int maxlen)
{
	int na = strlen(al), k, n, i, idx[8], c;
	char line[16];
	for (k = 0; k < NG; k++)
		for (n = 0; n <= maxlen; n++) {
			struct ec_node *g = NULL;
			int first = -1;
			for (i = 0; i < n; i++) idx[i] = 0;
			for (;;) {
				/* one case: the lines with the same first three characters */
				int f = n == 0 ? 0 : n == 1 ? idx[0] : n == 2 ? idx[0] * na + idx[1] : (idx[0] * na + idx[1]) * na + idx[2];
				if (f != first) {
					if (g) { ec_node_free(g); mc_end(); }
					g = NULL;
					first = f;
					if (mc_next()) {
						open_ed();
						g = grammar(k);
						if (g == NULL) mc_bug("grammar %d", k);
					}
				}
				if (g) {
					for (i = 0; i < n; i++) line[i] = al[idx[i]];
					line[n] = 0;
					mc_desc("grammar %d, line \"%s\"", k, line);
					helpers(g, line, line);
					suggestions(g, line);
					for (c = n; c >= 0 && c >= n - 2; c--) keys(g, line, c, 80);
					mc_state(mc_hu(mc_hs(MC_H0, line), k));
					ec_editline_set_node(ed, NULL);
				}
				for (i = n - 1; i >= 0 && ++idx[i] == na; i--) idx[i] = 0;
				if (i < 0) break;
			}
			if (g) { ec_node_free(g); mc_end(); }
		}
}
/* ---- long words, many matches, long lines ------------------------------------------- */
static char *rep(char c, int n) { char *s = malloc(n + 1); memset(s, c, n); s[n] = 0; return s; }
static void large(void)
{
	static const int pl[] = { 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400 };
	static const int nw[] = { 1, 2, 3, 17, 64, 65, 130, 256, 257, 300 };
	unsigned i, j, k, c;
	char line[2100], *pre, *tx;
	struct ec_node *g;
	/* words that share a prefix of p characters: end in a, b... then digits */
	for (i = 0; i < sizeof(pl) / sizeof(*pl); i++)
		for (j = 0; j < sizeof(nw) / sizeof(*nw); j++) {
			int cuts[] = { 0, 1, pl[i] / 2, pl[i] - 1, pl[i] };
			if (nw[j] > 20 && i % 3) continue;
			if (!mc_next()) continue;
			open_ed();
			pre = rep('w', pl[i]);
			g = ec_node("or", "o");
			for (k = 0; k < (unsigned)nw[j]; k++) {
				char w[600];
				snprintf(w, sizeof(w), "%s%c%u", pre, "abcXyz"[k % 6], k);
				if (ec_node_or_add(g, S(w, k % 3 ? NULL : "some help")) < 0) mc_bug("add");
			}
			g = ec_node_sh_lex("sh", g);
			for (c = 0; c < 5; c++) {
				if (cuts[c] < 0 || cuts[c] > pl[i] || (c && cuts[c] <= cuts[c - 1])) continue;
				snprintf(line, sizeof(line), "%.*s", cuts[c], pre);
				mc_desc("%d words that share %d characters, %d typed", nw[j], pl[i], cuts[c]);
				helpers(g, line, line);
				keys(g, line, cuts[c], 80);
				suggestions(g, line);
				snprintf(line, sizeof(line), "%.*sX", cuts[c], pre);
				keys(g, line, cuts[c], 80);
				keys(g, line, cuts[c] + 1, 80);
				suggestions(g, line);
				mc_state(mc_hu(mc_hu(mc_hu(MC_H0 + 3, pl[i]), nw[j]), c));
			}
			snprintf(line, sizeof(line), "%sa0", pre);	/* a complete word */
			helpers(g, line, line);
			keys(g, line, strlen(line), 80);
			suggestions(g, line);
			strcat(line, " ");
			helpers(g, line, line);
			suggestions(g, line);
			ec_editline_set_node(ed, NULL);
			ec_node_free(g);
			free(pre);
			mc_end();
		}
	/* long lines: n words */
	for (i = 0; i < 8; i++) {
		static const int ln[] = { 9, 20, 33, 65, 130, 257, 300, 450 };
		for (j = 0; j < 4; j++) {
			if (!mc_next()) continue;
			open_ed();
			g = ec_node_sh_lex("sh", ec_node_many("m", EC_NODE_OR("o", S("a", "letter a"), S("b", NULL)), 0, 0));
			line[0] = 0;
			for (k = 0; k < (unsigned)ln[i]; k++) strcat(line, k % 3 ? "a " : "b ");
			if (j == 1) line[strlen(line) - 1] = 0;
			else if (j == 2) strcat(line, "q");
			else if (j == 3) memcpy(line + 4, "qq", 2);	/* nothing goes beyond the third word */
			mc_desc("line of %d words, %d", ln[i], j);
			helpers(g, line, line);
			suggestions(g, line);
			keys(g, line, strlen(line), 80);
			keys(g, line, strlen(line) / 2, 80);
			mc_state(mc_hu(mc_hu(MC_H0 + 4, i), j));
			ec_editline_set_node(ed, NULL);
			ec_node_free(g);
			mc_end();
		}
	}
	/* long descriptions and help texts */
	for (i = 0; i < sizeof(pl) / sizeof(*pl); i++)
		for (j = 0; j < 3; j++) {
			if (!mc_next()) continue;
			open_ed();
			pre = rep('d', pl[i] + 1);
			tx = rep('h', pl[i] * 5 + 1);
			g = ec_node_sh_lex("sh", EC_NODE_OR("o", with_help(ec_node_any(j == 0 ? pre : "id", NULL), j == 1 ? tx : "x"), S(j == 2 ? pre : "a", tx), with_help(ec_node_int("num", 0, 9, 10), "%s %d")));
			mc_desc("description of %d characters, help of %d (%d)", pl[i] + 1, pl[i] * 5 + 1, j);
			helpers(g, "", "");
			keys(g, "", 0, 80);
			suggestions(g, "");
			keys(g, "dd", 1, 80);
			mc_state(mc_hu(mc_hu(MC_H0 + 5, i), j));
			ec_editline_set_node(ed, NULL);
			ec_node_free(g);
			free(pre); free(tx);
			mc_end();
		}
	/* help inherited from the n-th parent, the nearest one wins */
	for (i = 0; i < 24; i++)
		for (j = 0; j <= i; j++) {
			if (!mc_next()) continue;
			open_ed();
			g = ec_node_str("w", "word");
			for (k = 0; k < i; k++) {
				g = k % 3 == 0 ? ec_node_option("id", g) : k % 3 == 1 ? EC_NODE_SEQ("id", g) : ec_node_once("id", g);
				if (k == j) with_help(g, "nearest");
				else if (k > j && k % 2) with_help(g, "further");
			}
			g = ec_node_sh_lex("sh", g);
			mc_desc("%u levels, help from level %u", i, j);
			helpers(g, "", "");
			keys(g, "w", 1, 80);
			suggestions(g, "w");
			mc_state(mc_hu(mc_hu(MC_H0 + 6, i), j));
			ec_editline_set_node(ed, NULL);
			ec_node_free(g);
			mc_end();
		}
}
/* ---- typing on a pseudo terminal -------------------------------------------------- */
static int master = -1;
static FILE *tin, *tout;
static struct ec_editline *ted;
static void open_tty(void)
{
	struct termios t;
	int s;
	if (ted) return;
	master = posix_openpt(O_RDWR | O_NOCTTY | O_NONBLOCK);
	if (master < 0 || grantpt(master) < 0 || unlockpt(master) < 0) mc_bug("no pseudo terminal");
	s = open(ptsname(master), O_RDWR | O_NOCTTY);
	if (s < 0) mc_bug("pseudo terminal");
	tcgetattr(s, &t);
	cfmakeraw(&t);
	tcsetattr(s, TCSANOW, &t);
	tin = fdopen(s, "r");
	tout = fdopen(dup(s), "w");
	ted = ec_editline("mc", tin, tout, tout, 0);
	if (ted == NULL) mc_fail("create", "ec_editline() failed");
}
static char shown[4096];      /* what the last drain() read */
static void drain(void)
{
	char b[4096];
	int n, k = 0;
	fflush(tout);
	while ((n = read(master, b, sizeof(b))) > 0) {
		if (k + n >= (int)sizeof(shown)) n = sizeof(shown) - 1 - k;
		memcpy(shown + k, b, n); k += n;
	}
	shown[k] = 0;
}
static void type_keys(const char *s)
{
	struct termios t;
	size_t n = strlen(s);
	/* between two lines the terminal is in canonical mode: the keys must reach the line editor */
	tcgetattr(fileno(tin), &t);
	cfmakeraw(&t);
	tcsetattr(fileno(tin), TCSANOW, &t);
 	if (write(master, s, n) != (ssize_t)n) mc_bug("write");
}
/* reference line editor */
static char rl[256];
static int rlen, rcur;
static void r_insert(const char *s)
{
	int n = strlen(s);
	memmove(rl + rcur + n, rl + rcur, rlen - rcur + 1);
	memcpy(rl + rcur, s, n);
	rlen += n; rcur += n;
}
static void r_key(const struct ec_node *g, char k)
{
	char left[256], c[2] = { k, 0 };
	struct want w;
	switch (k) {
	case '\t':
		memcpy(left, rl, rcur); left[rcur] = 0;
		if (expect(&w, g, left, rl) < 0) return;
		if (w.lcp && w.lcp[0]) {
			r_insert(w.lcp);
			if (w.nfull == 1 && w.npart == 0) r_insert(" ");
		}
		want_free(&w);
		break;
	case '?': break;
	case 2: if (rcur) rcur--; break;
	case 127: if (rcur) { memmove(rl + rcur - 1, rl + rcur, rlen - rcur + 1); rcur--; rlen--; } break;
	default: r_insert(c);
	}
}
static void typing(void)
{
	static const char kk[] = { 'a', 'b', ' ', '\t', '?', 2, 127, '\'' };
	static const int gs[] = { 0, 1, 3, 7 };
	int nk = mc_thorough ? 6 : 5, gi, n, i, idx[8];
	for (gi = 0; gi < 4; gi++)
		for (n = 0; n <= nk; n++) {
			struct ec_node *g = NULL;
			int na = n <= 4 ? 8 : 5, first = -1;     /* the longest sequences: no quote and no move */
			for (i = 0; i < n; i++) idx[i] = 0;
			for (;;) {
				int f = n < 2 ? 0 : idx[0] * na + idx[1];
				if (f != first) {
					if (g) { ec_node_free(g); mc_end(); }
					g = NULL;
					first = f;
					if (mc_next()) { open_tty(); g = grammar(gs[gi]); }
				}
				if (g) {
					char s[16];
					struct ec_pnode *p, *q;
					char *l;
					mc_desc("grammar %d, keys", gs[gi]);
					rl[0] = 0; rlen = rcur = 0;
					for (i = 0; i < n; i++) {
						s[i] = kk[idx[i]];
						mc_desc_add(" %s", s[i] == '\t' ? "tab" : s[i] == 2 ? "left" : s[i] == 127 ? "del" : s[i] == ' ' ? "space" : (char[]){ s[i], 0 });
						r_key(g, s[i]);
					}
					s[n] = '\n'; s[n + 1] = 0;
					type_keys(s);
					ec_editline_set_node(ted, g);
					if ((n + idx[0]) & 1) {
						l = ec_editline_gets(ted);
						MC_CHECK(l != NULL && !strcmp(l, rl), "typed", "the line is \"%s\" instead of \"%s\"", nz(l), rl);
						ec_free(l);
					} else {
						p = ec_editline_parse(ted, g);
						q = ec_parse(g, rl);
						MC_CHECK((p == NULL) == (q == NULL), "typed-error", "the line is %s", p ? "accepted" : "refused");
						if (p) {
							struct ec_pnode *a = p, *b = q;
							MC_CHECK(ec_pnode_matches(p) == ec_pnode_matches(q), "typed-match", "the line does not match as \"%s\"", rl);
							for (; a && b; a = EC_PNODE_ITER_NEXT(p, a, 1), b = EC_PNODE_ITER_NEXT(q, b, 1))
								MC_CHECK(ec_pnode_get_node(a) == ec_pnode_get_node(b), "typed-tree", "not the parse tree of \"%s\"", rl);
							MC_CHECK(a == NULL && b == NULL, "typed-tree", "not the parse tree of \"%s\"", rl);
						}
						ec_pnode_free(p);
						ec_pnode_free(q);
					}
					mc_trans(n + 1);
					mc_state(mc_hu(mc_hs(MC_H0, rl), gs[gi] * 100 + rcur));
					mc_outcome(mc_hs(MC_H0, rl));
					drain();
					mc_nontrivial();
				}
				for (i = n - 1; i >= 0 && ++idx[i] == na; i--) idx[i] = 0;
				if (i < 0) break;
			}
			if (g) { ec_node_free(g); mc_end(); }
		}
}
/* ---- lines from a file, history ------------------------------------------------- */
static void write_file(const char *p, const char *s)
{
	FILE *f = fopen(p, "w");
	if (!f || fputs(s, f) < 0) mc_bug("write %s", p);
	fclose(f);
}
static void files(void)
{
	static const char *ln[] = { "", "a", "a b", " ", "?\tb", "bb" };
	char path[PATH_MAX], hist[PATH_MAX], text[256];
	const char *sc = getenv("MC_SCRATCH");
	int n, v, tot, x, i, term, size;
	if (sc == NULL) mc_bug("no scratch directory");
	snprintf(path, sizeof(path), "%s/in-%d", sc, (int)getpid());
	snprintf(hist, sizeof(hist), "%s/hist-%d", sc, (int)getpid());
	for (n = 0; n <= (mc_thorough ? 4 : 3); n++) {
		for (tot = 1, i = 0; i < n; i++) tot *= 6;
		for (v = 0; v < tot; v++) {
			if (!mc_next()) continue;
			open_ed();    /* also warms up the library */
			for (term = 0; term < 2; term++)
				for (size = -1; size <= 4; size++) {
					const char *lines[8], *h[8];
					FILE *f;
					struct ec_editline *e;
					char *l, buf[512];
					int nh = 0, k;
					text[0] = 0;
					for (x = v, i = 0; i < n; i++, x /= 6) { lines[i] = ln[x % 6]; strcat(text, lines[i]); if (i < n - 1 || term) strcat(text, "\n"); }
					if (n && !term && lines[n - 1][0] == 0) continue;
					write_file(path, text);
					unlink(hist);
					mc_desc("file \"%s\", history of %d lines", text, size);
					f = fopen(path, "r");
					e = ec_editline("mc", f, fout, fout, size == -1 ? EC_EDITLINE_DISABLE_HISTORY : EC_EDITLINE_DISABLE_COMPLETION);
					MC_CHECK(e != NULL, "create", "ec_editline() failed");
					if (size >= 0) MC_CHECK(ec_editline_set_history(e, size, hist) == 0, "set-history", "ec_editline_set_history() failed");
					if (v & 1) MC_CHECK(ec_editline_set_prompt(e, v & 2 ? NULL : "prompt ") == 0, "prompt", "ec_editline_set_prompt() failed");
					for (i = 0; i < n; i++) {
						l = ec_editline_gets(e);
						MC_CHECK(l != NULL && !strcmp(l, lines[i]), "gets", "line %d is \"%s\" instead of \"%s\"", i, nz(l), lines[i]);
						ec_free(l);
						if (strspn(lines[i], " \t") != strlen(lines[i]) && size > 0 && !(nh && !strcmp(h[nh - 1], lines[i]))) h[nh++] = lines[i];
					}
					l = ec_editline_gets(e);
					MC_CHECK(l == NULL, "eof", "a line after the end: \"%s\"", nz(l));
					mc_trans(n + 1);
					ec_editline_free(e);
					fclose(f);
					/* the file has a header, then the lines with their spaces escaped */
					f = fopen(hist, "r");
					MC_CHECK((f != NULL) == (nh > 0), "hist-file", "the history file is %s", f ? "written" : "missing");
					if (f) {
						k = nh > size ? nh - size : 0;
						if (fgets(buf, sizeof(buf), f) == NULL) buf[0] = 0;
						while (fgets(buf, sizeof(buf), f)) {
							char dec[512];
							int a, b;
							buf[strcspn(buf, "\n")] = 0;
							for (a = b = 0; buf[a]; b++)
								if (buf[a] == '\\' && buf[a + 1]) { dec[b] = (buf[a + 1] - '0') * 64 + (buf[a + 2] - '0') * 8 + buf[a + 3] - '0'; a += 4; }
								else dec[b] = buf[a++];
							dec[b] = 0;
							MC_CHECK(k < nh && !strcmp(dec, h[k]), "hist", "history entry %d is \"%s\" instead of \"%s\"", k, dec, k < nh ? h[k] : "nothing");
							k++;
						}
						MC_CHECK(k == nh, "hist-short", "%d lines of history missing", nh - k);
						fclose(f);
					}
				}
			unlink(path); unlink(hist);
			mc_nontrivial();
			mc_end();
		}
	}
}
/* the history is changed while lines are read: every file holds exactly what was recorded in it */
static void read_hist(const char *path, char *out)
{
	char buf[512];
	FILE *f = fopen(path, "r");
	*out = 0;
	if (!f) return;
	if (fgets(buf, sizeof(buf), f) == NULL) buf[0] = 0;
	while (fgets(buf, sizeof(buf), f)) { buf[strcspn(buf, "\n")] = 0; strcat(out, buf); strcat(out, ","); }
	fclose(f);
}
static void change_history(void)
{
	enum { NOP = 9 };
	static const char *op[NOP] = { "size 3, file A", "size 3, file B", "size 1, file A", "size 3", "size 0", "size 0, file A", "line", "line", "line" };
	const char *sc = getenv("MC_SCRATCH");
	char path[PATH_MAX], file[2][PATH_MAX], got[512], want[512];
	int len, v, tot, i, x, k, j, nl;
	snprintf(path, sizeof(path), "%s/in-%d", sc, (int)getpid());
	for (k = 0; k < 2; k++) snprintf(file[k], sizeof(file[k]), "%s/h%c-%d", sc, 'A' + k, (int)getpid());
	for (len = 1; len <= (mc_thorough ? 6 : 5); len++) {
		for (tot = 1, i = 0; i < len; i++) tot *= 7;
		for (v = 0; v < tot; v++) {
			/* content of the two files and of the memory, as letters; current file, size */
			char fc[2][16] = { "", "" }, mem[16] = "";
			int cur = -1, size = EC_EDITLINE_HISTORY_SIZE;
			struct ec_editline *e;
			FILE *f;
			if (!mc_next()) continue;
			open_ed();
			unlink(file[0]); unlink(file[1]);
			write_file(path, "a\nb\nb\nc\nd\ne\n");
			f = fopen(path, "r");
			e = ec_editline("mc", f, fout, fout, EC_EDITLINE_DISABLE_COMPLETION);
			MC_CHECK(e != NULL, "create", "ec_editline() failed");
			mc_desc("history:");
			for (x = v, i = 0, nl = 0; i < len; i++, x /= 7) {
				int o = x % 7;
				mc_desc_add(" %s;", op[o]);
				if (o < 6) {
					static const int sz[] = { 3, 3, 1, 3, 0, 0 }, fl[] = { 0, 1, 0, -1, -1, 0 };
					MC_CHECK(ec_editline_set_history(e, sz[o], fl[o] < 0 ? NULL : file[fl[o]]) == 0, "set-history", "ec_editline_set_history() failed");
					size = sz[o];
					cur = size ? fl[o] : -1;
					strcpy(mem, cur >= 0 ? fc[cur] : "");
					while ((int)strlen(mem) > size) memmove(mem, mem + 1, strlen(mem));
				} else {
					char *l = ec_editline_gets(e), c = "abbcde"[nl++];
					MC_CHECK(l && l[0] == c && !l[1], "gets", "line \"%s\"", nz(l));
					ec_free(l);
					if (size) {
						j = strlen(mem);
						if (j == 0 || mem[j - 1] != c) { mem[j] = c; mem[j + 1] = 0; }
						if ((int)strlen(mem) > size) memmove(mem, mem + 1, strlen(mem));
						if (cur >= 0) strcpy(fc[cur], mem);
					}
				}
				for (k = 0; k < 2; k++) {
					for (want[0] = 0, j = 0; fc[k][j]; j++) sprintf(want + 2 * j, "%c,", fc[k][j]);
					read_hist(file[k], got);
					MC_CHECK(!strcmp(got, want), "hist-files", "after operation %d file %c holds \"%s\" instead of \"%s\"", i, 'A' + k, got, want);
				}
			}
			mc_trans(len);
			mc_state(mc_hs(mc_hs(mc_hs(MC_H0, fc[0]), fc[1]), mem));
			ec_editline_free(e);
			fclose(f);
			unlink(path); unlink(file[0]); unlink(file[1]);
			mc_end();
		}
	}
}
/* creation, settings in any order */
static void settings(void)
{
	int flags, v, i, x;
	for (flags = 0; flags < 16; flags++)
		for (v = 0; v < 7 * 7 * 7; v++) {
			struct ec_editline *e;
			int hist = !(flags & EC_EDITLINE_DISABLE_HISTORY);
			const char *prompt = "> ";
			if (!mc_next()) continue;
			open_tty();
			mc_desc("flags %x, settings %d", flags, v);
			e = ec_editline("mc", tin, tout, tout, flags);
			MC_CHECK(e != NULL, "create", "ec_editline() failed");
			for (x = v, i = 0; i < 3; i++, x /= 7)
				switch (x % 7) {
				case 0: MC_CHECK(ec_editline_set_history(e, 0, NULL) == 0, "history", "failed"); hist = 0; break;
				case 1: MC_CHECK(ec_editline_set_history(e, 2, NULL) == 0, "history", "failed"); hist = 1; break;
				case 2: MC_CHECK(ec_editline_set_prompt(e, "p ") == 0, "prompt", "failed"); prompt = "p "; break;
				case 3: MC_CHECK(ec_editline_set_prompt(e, NULL) == 0, "prompt", "failed"); prompt = ""; break;
				case 4: MC_CHECK(ec_editline_set_prompt_esc(e, "\1x\1> ", 1) == 0, "prompt", "failed"); prompt = "x> "; break;
				case 5: {
					struct ec_node *g = ec_node_str("g", "zz");
					ec_editline_set_node(e, g);
					MC_CHECK(ec_editline_get_node(e) == g, "get-node", "another node");
					ec_editline_set_node(e, NULL);
					MC_CHECK(ec_editline_get_node(e) == NULL, "get-node", "another node");
					ec_node_free(g);
					break;
				}
				default: { char *l; type_keys("ab\n"); l = ec_editline_gets(e); MC_CHECK(l && !strcmp(l, "ab"), "gets", "line \"%s\"", nz(l)); ec_free(l); drain(); }
				}
			/* the prompt set last is shown, and only it (the terminal echoes the keys) */
			{
				char *l;
				drain();
				type_keys("w\n");
				l = ec_editline_gets(e);
				MC_CHECK(l && !strcmp(l, "w"), "gets", "line \"%s\"", nz(l)); ec_free(l); drain();
				if (*prompt) MC_CHECK(strstr(shown, prompt) != NULL, "prompt-shown", "prompt \"%s\" not shown: \"%s\"", prompt, shown);
				if (strcmp(prompt, "p ")) MC_CHECK(strstr(shown, "p ") == NULL, "prompt-old", "\"%s\" instead of prompt \"%s\"", shown, prompt);
				if (!strchr(prompt, 'x')) MC_CHECK(strstr(shown, "x> ") == NULL, "prompt-old", "\"%s\" instead of prompt \"%s\"", shown, prompt);
				if (!strchr(prompt, '>')) MC_CHECK(strstr(shown, "> ") == NULL, "prompt-old", "\"%s\" instead of prompt \"%s\"", shown, prompt);
			}
			/* previous line, from the history if any, then a tab without grammar */
			if (hist) {
				char *l;
				type_keys("q\n");
				l = ec_editline_gets(e);
				MC_CHECK(l && !strcmp(l, "q"), "gets", "line \"%s\"", nz(l)); ec_free(l); drain();
				type_keys("\020\n");
				l = ec_editline_gets(e);
				MC_CHECK(l && !strcmp(l, "q"), "recall", "recalled line \"%s\" instead of \"q\"", nz(l)); ec_free(l); drain();
			} else {
				char *l;
				type_keys("q\n\020b\n");
				l = ec_editline_gets(e); MC_CHECK(l && !strcmp(l, "q"), "gets", "line \"%s\"", nz(l)); ec_free(l);
				l = ec_editline_gets(e); MC_CHECK(l && !strcmp(l, "b"), "no-recall", "line \"%s\"", nz(l)); ec_free(l); drain();
			}
			if (!(flags & EC_EDITLINE_DISABLE_COMPLETION)) {
				char *l;
				type_keys("a\tb\n");
				l = ec_editline_gets(e); MC_CHECK(l && !strcmp(l, "ab"), "no-node", "line \"%s\"", nz(l)); ec_free(l); drain();
			}
			mc_trans(8);
			ec_editline_free(e);
			mc_nontrivial();
			mc_end();
		}
	if (mc_next()) {
		MC_CHECK(ec_editline("mc", NULL, stdout, stderr, 0) == NULL && errno == EINVAL, "null-in", "accepted");
		MC_CHECK(ec_editline("mc", stdin, NULL, stderr, 0) == NULL && errno == EINVAL, "null-out", "accepted");
		MC_CHECK(ec_editline("mc", stdin, stdout, NULL, 0) == NULL && errno == EINVAL, "null-err", "accepted");
		ec_editline_free(NULL);
		ec_editline_free_helps(NULL, 3);
		ec_editline_free_completions(NULL, 3);
		mc_end();
	}
}
void mc_run(void)
{
	signal(SIGPIPE, SIG_IGN);
	if (ec_node_type_register(&sc_type, true) < 0) mc_bug("register");
	open_ed();
	open_tty();
	scripted();
	columns();
	grammars_over("ab '\"\\", mc_thorough ? 6 : 5);
	/* other blanks */
	grammars_over("ab\t\n", mc_thorough ? 5 : 4);
	large();
	typing();
	files();
	change_history();
	settings();
}
