/* C21: completion lists filled by a scripted node type: items, groups, filtered
 * iteration, counts, updates, merge. */
#include <ecoli.h>
#include "mc.h"

struct it { char type; char text; };      /* type U F P; text: index in tx */
struct script { int ngrp; int n[4]; struct it it[4][4]; };
static int mult = 1, rep = 1;             /* each item added `mult` times, the groups `rep` times */
#define MAXI 4200
static const struct { const char *start, *full, *comp; } tx[] = {
	{ "", "ab", "ab" }, { "a", "ab", "b" }, { "ab", "ab", "" }, { "x", "ab", NULL }, { NULL, "cd", NULL }, { "", "", "" },
};
#define NTX 6
static const struct script *cur;
struct priv { int num; };

static enum ec_comp_type ty(char c) { return c == 'U' ? EC_COMP_UNKNOWN : c == 'F' ? EC_COMP_FULL : EC_COMP_PARTIAL; }
static int sc_parse(const struct ec_node *n, struct ec_pnode *st, const struct ec_strvec *v) { return EC_PARSE_NOMATCH; }
static int sc_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	int g = ((struct priv *)ec_node_priv(n))->num, i;
	struct ec_comp_item *it;
	MC_CHECK(ec_comp_get_cur_group(c) == NULL, "cur-group", "a group exists before the first item of the node");
	MC_CHECK(ec_comp_get_cur_pstate(c) != NULL && ec_pnode_get_node(ec_comp_get_cur_pstate(c)) == n, "cur-pstate", "the current parse state is not the one of the node");
	for (i = 0; i < cur->n[g] * mult; i++) {
		struct it x = cur->it[g][i / mult];
		/* refused: a text for an unknown item, no text for another one, bad type */
		MC_CHECK(ec_comp_add_item(c, n, EC_COMP_UNKNOWN, NULL, "zz") == NULL, "add-bad", "unknown item with a text accepted");
		MC_CHECK(ec_comp_add_item(c, n, EC_COMP_FULL, "", NULL) == NULL, "add-bad", "item without text accepted");
		MC_CHECK(ec_comp_add_item(c, n, EC_COMP_PARTIAL, "", NULL) == NULL, "add-bad", "item without text accepted");
		MC_CHECK(ec_comp_add_item(c, n, EC_COMP_ALL, "", "zz") == NULL, "add-bad", "item of several types accepted");
		MC_CHECK(ec_comp_add_item(c, n, 0, "", "zz") == NULL, "add-bad", "item without type accepted");
		it = x.type == 'U' ? ec_comp_add_item(c, n, EC_COMP_UNKNOWN, NULL, NULL) :
			ec_comp_add_item(c, n, ty(x.type), tx[(int)x.text].start, tx[(int)x.text].full);
		mc_trans(6);
		MC_CHECK(it != NULL, "add", "item refused");
		MC_CHECK(ec_comp_get_cur_group(c) != NULL && ec_comp_item_get_grp(it) == ec_comp_get_cur_group(c), "group", "the item is not in the current group");
	}
	return 0;
}
static struct ec_node_type sc_type = { .name = "mc_scripted", .parse = sc_parse, .complete = sc_complete, .size = sizeof(struct priv) };
static struct ec_node *gn[4], *root, *roots[200];

struct exp { char type; const char *str, *disp, *comp; const struct ec_node *node; int grp; struct ec_comp_item *real; };
static struct exp ex[MAXI];
static int nex;

static void expect(const struct script *s)
{
	int g, i, r;
	for (r = 0; r < rep; r++)
	for (g = 0; g < s->ngrp; g++)
		for (i = 0; i < s->n[g] * mult; i++) {
			struct it x = s->it[g][i / mult];
			struct exp *e = &ex[nex];
			memset(e, 0, sizeof(*e));
			e->type = x.type;
			e->node = gn[g];
			e->grp = nex ? ex[nex - 1].grp + (i == 0) : 0;
			if (x.type != 'U') { e->str = e->disp = tx[(int)x.text].full; e->comp = tx[(int)x.text].comp; }
			nex++;
		}
}
static int same(const char *a, const char *b) { return a == NULL || b == NULL ? a == b : !strcmp(a, b); }
static void verify(struct ec_comp *c)
{
	struct ec_comp_item *it, *prev[MAXI];
	int m, i, k, cnt[3] = { 0, 0, 0 };
	/* all items, once, in order */
	k = 0;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		struct exp *e = &ex[k];
		MC_CHECK(k < nex, "extra", "more than the %d items added", nex);
		MC_CHECK(ec_comp_item_get_type(it) == ty(e->type), "type", "item %d has type %d", k, ec_comp_item_get_type(it));
		MC_CHECK(same(ec_comp_item_get_str(it), e->str) && same(ec_comp_item_get_display(it), e->disp) &&
			 same(ec_comp_item_get_completion(it), e->comp), "text", "item %d is <%s>, display <%s>, completion <%s> instead of <%s> <%s> <%s>", k,
			 ec_comp_item_get_str(it), ec_comp_item_get_display(it), ec_comp_item_get_completion(it), e->str, e->disp, e->comp);
		MC_CHECK(ec_comp_item_get_node(it) == e->node && ec_comp_group_get_node(ec_comp_item_get_grp(it)) == e->node, "node", "item %d: bad node", k);
		MC_CHECK(ec_comp_group_get_pstate(ec_comp_item_get_grp(it)) != NULL &&
			 ec_pnode_get_node(ec_comp_group_get_pstate(ec_comp_item_get_grp(it))) == e->node, "pstate", "item %d: bad parse state", k);
		MC_CHECK(ec_comp_group_get_attrs(ec_comp_item_get_grp(it)) != NULL, "grp-attrs", "no group attributes");
		if (k) MC_CHECK((ec_comp_item_get_grp(it) == ec_comp_item_get_grp(prev[k - 1])) == (e->grp == ex[k - 1].grp), "grouping", "items %d and %d: bad groups", k - 1, k);
		e->real = prev[k] = it;
		cnt[e->type == 'U' ? 0 : e->type == 'F' ? 1 : 2]++;
		k++;
	}
	MC_CHECK(k == nex, "missing", "%d items instead of %d", k, nex);
	/* every filter: iteration from the start and from every item */
	for (m = 0; m < 8; m++) {
		size_t n = (m & 1 ? cnt[0] : 0) + (m & 2 ? cnt[1] : 0) + (m & 4 ? cnt[2] : 0);
		MC_CHECK(ec_comp_count(c, m) == n, "count", "filter %d: %zu items counted instead of %zu", m, ec_comp_count(c, m), n);
		for (i = -1; i < nex; i++) {
			it = i < 0 ? ec_comp_iter_first(c, m) : ec_comp_iter_next(ex[i].real, m);
			for (k = i + 1; k < nex && !(ty(ex[k].type) & m); k++) ;
			MC_CHECK(it == (k < nex ? ex[k].real : NULL), "iter", "filter %d: after item %d, item %d is expected", m, i, k < nex ? k : -1);
			mc_trans(1);
		}
	}
	MC_CHECK(ec_comp_iter_next(NULL, EC_COMP_ALL) == NULL, "iter-null", "an item follows NULL");
}
static struct ec_comp *run(const struct script *s)
{
	struct ec_comp *c;
	const char *v[] = { "q" };
	struct ec_strvec *sv = ec_strvec_from_array(v, 1);
	cur = s;
	c = ec_complete_strvec(rep == 1 ? root : roots[rep], sv);
	ec_strvec_free(sv);
	MC_CHECK(c != NULL, "complete", "completion failed");
	return c;
}
static void desc(const struct script *s)
{
	for (int g = 0; g < s->ngrp; g++) {
		mc_desc_add(" [");
		for (int i = 0; i < s->n[g]; i++) mc_desc_add("%c%d", s->it[g][i].type, s->it[g][i].text);
		mc_desc_add("]");
	}
}
static void dump_check(struct ec_comp *c)
{
	char *t = NULL;
	size_t n = 0;
	FILE *f = open_memstream(&t, &n);
	char *p;
	ec_comp_dump(f, c);
	fclose(f);
	if (nex == 0) MC_CHECK(strstr(t, "no completion") != NULL, "dump", "dump of an empty list:\n%s", t);
	p = t;
	for (int i = 0; i < nex; i++) {
		char want[64];
		if (ex[i].type == 'U') snprintf(want, sizeof(want), "type=unknown");
		else snprintf(want, sizeof(want), "type=%s str=<%s>", ex[i].type == 'F' ? "full" : "partial", ex[i].str);
		p = strstr(p, want);
		MC_CHECK(p != NULL, "dump", "item %d is not in the dump:\n%s", i, t);
		p += strlen(want);
	}
	free(t);
}
static void one_list(const struct script *s)
{
	struct ec_comp *c;
	int i, k, r;
	mc_desc("list");
	desc(s);
	nex = 0;
	expect(s);
	c = run(s);
	verify(c);
	dump_check(c);
	MC_CHECK(ec_comp_get_attrs(c) != NULL && ec_dict_len(ec_comp_get_attrs(c)) == 0, "attrs", "attributes");
	/* change every text of every item, one after the other */
	for (i = 0; i < nex; i += nex < 60 ? 1 : nex / 7)
		for (k = 0; k < 3; k++) {
			static const char *nt[] = { "S1", "D1", "C1" };
			int (*f[])(struct ec_comp_item *, const char *) = { ec_comp_item_set_str, ec_comp_item_set_display, ec_comp_item_set_completion };
			errno = 0;
			r = f[k](ex[i].real, nt[k]);
			mc_trans(1);
			if (ex[i].type == 'U') MC_CHECK(r < 0 && errno == EINVAL, "set-unknown", "text of an unknown item changed");
			else {
				MC_CHECK(r == 0, "set", "text of item %d not changed", i);
				*(k == 0 ? &ex[i].str : k == 1 ? &ex[i].disp : &ex[i].comp) = nt[k];
			}
			errno = 0;
			MC_CHECK(f[k](ex[i].real, NULL) < 0 && errno == EINVAL, "set-null", "NULL text accepted");
			MC_CHECK(f[k](NULL, "x") < 0, "set-noitem", "no item accepted");
			verify(c);
		}
	ec_comp_free(c);
	if (nex > 1) mc_nontrivial();
	mc_state(mc_h(MC_H0, s, sizeof(*s)));
	mc_outcome(mc_hu(MC_H0, nex));
}
static int released[4096], nat_max;
static void rel(void *p) { (*(int *)p)++; }
/* attributes of the list and of its groups live as long as they do */
static int put_attrs(struct ec_comp *c, int k)
{
	struct ec_comp_item *it;
	const struct ec_comp_group *g = NULL;
	MC_CHECK(ec_dict_set(ec_comp_get_attrs(c), "x", &released[k], rel) == 0, "attrs", "cannot set an attribute");
	k++;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL)
		if (ec_comp_item_get_grp(it) != g && k < 4000) {
			g = ec_comp_item_get_grp(it);
			MC_CHECK(ec_dict_set((struct ec_dict *)ec_comp_group_get_attrs(g), "x", &released[k], rel) == 0, "attrs", "cannot set an attribute");
			k++;
		}
	return k;
}
static void check_released(int n, int want)
{
	for (int i = 0; i < n; i++) MC_CHECK(released[i] == want, "attr-free", "attribute %d was released %d time(s) instead of %d", i, released[i], want);
}
/* several lists merged into one: their attributes stay until the end */
static void multi_merge(const struct script *const *s, int n)
{
	struct ec_comp *c, *x;
	int i, nat = 0, k = 0;
	mc_desc("merge of %d lists into one:", n);
	memset(released, 0, (nat_max > 4096 ? 4096 : nat_max) * sizeof(*released));
	c = ec_comp();
	MC_CHECK(c != NULL, "alloc", "ec_comp()");
	for (i = 0; i < n; i++) {
		desc(s[i]);
		nex = 0;
		expect(s[i]);
		k += nex;
		x = run(s[i]);
		nat = put_attrs(x, nat);
		if (nat > nat_max) nat_max = nat;
		MC_CHECK(ec_comp_merge(c, x) == 0, "merge", "merge failed");
		mc_trans(1);
		check_released(nat, 0);
		MC_CHECK(ec_comp_count(c, EC_COMP_ALL) == (size_t)k, "merge-count", "%zu items instead of %d", ec_comp_count(c, EC_COMP_ALL), k);
	}
	ec_comp_free(c);
	check_released(nat, 1);
	mc_nontrivial();
}
static void one_merge(const struct script *a, const struct script *b, const struct script *d)
{
	struct ec_comp *c1, *c2, *c3;
	int nat;
	mc_desc("merge");
	desc(a); mc_desc_add(" +"); desc(b);
	nex = 0;
	expect(a);
	c1 = run(a); c2 = run(b);
	if (nat_max) memset(released, 0, nat_max * sizeof(*released));
	nat = put_attrs(c2, put_attrs(c1, 0));
	if (nat > nat_max) nat_max = nat;
	{ int n0 = nex; expect(b); if (n0 && nex > n0) for (int i = nex - 1, d2 = ex[n0].grp == ex[n0 - 1].grp; i >= n0 && d2; i--) ex[i].grp++; }
	MC_CHECK(ec_comp_merge(c1, c2) == 0, "merge", "merge failed");
	mc_trans(1);
	verify(c1);
	dump_check(c1);
	if (d) {       /* a third list, merged from the other side */
		int n0, i;
		mc_desc_add(", then before"); desc(d);
		nex = 0;
		expect(d); n0 = nex; expect(a);
		if (n0 && nex > n0 && ex[n0].grp == ex[n0 - 1].grp) for (i = nex - 1; i >= n0; i--) ex[i].grp++;
		n0 = nex; expect(b);
		if (n0 && nex > n0 && ex[n0].grp == ex[n0 - 1].grp) for (i = nex - 1; i >= n0; i--) ex[i].grp++;
		c3 = run(d);
		MC_CHECK(ec_comp_merge(c3, c1) == 0, "merge", "merge failed");
		verify(c3);
		c1 = c3;
	}
	{	/* the groups of both lists are still there */
		struct ec_comp_item *it;
		EC_COMP_FOREACH(it, c1, EC_COMP_ALL)
			{
				const int *x = ec_dict_get(ec_comp_group_get_attrs(ec_comp_item_get_grp(it)), "x");
				MC_CHECK(x == NULL || *x == 0, "attr-free", "an attribute was released");
			}
	}
	ec_comp_free(c1);
	check_released(nat, 1);
	mc_state(mc_h(mc_h(MC_H0 + 1, a, sizeof(*a)), b, sizeof(*b)));
	mc_outcome(mc_hu(MC_H0 + 1, nex));
	mc_nontrivial();
}

#define MAXS 20000
static struct script sp[MAXS];
static int nsp;
/* every script of <= g groups of <= n items of the given kinds */
static void gen(int g, int n, const struct it *k, int nk)
{
	static struct it seq[2000][4];
	static int len[2000];
	int ns = 0, i, l, d[4];
	for (l = 0; l <= n; l++) {
		memset(d, 0, sizeof(d));
		for (;;) {
			for (i = 0; i < l; i++) seq[ns][i] = k[d[i]];
			len[ns++] = l;
			for (i = l - 1; i >= 0 && ++d[i] == nk; i--) d[i] = 0;
			if (i < 0) break;
		}
	}
	nsp = 0;
	memset(sp, 0, sizeof(sp));
	int x[4] = { 0 };
	for (;;) {
		struct script *s = &sp[nsp++];
		if (nsp >= MAXS) mc_bug("too many scripts");
		s->ngrp = g;
		for (i = 0; i < g; i++) { s->n[i] = len[x[i]]; memcpy(s->it[i], seq[x[i]], sizeof(seq[0])); }
		for (i = g - 1; i >= 0 && ++x[i] == ns; i--) x[i] = 0;
		if (i < 0) break;
	}
}
void mc_run(void)
{
	static const struct it types[] = { { 'U', 0 }, { 'F', 0 }, { 'P', 1 } };
	static const struct it texts[] = { { 'U', 0 }, { 'F', 0 }, { 'F', 1 }, { 'F', 2 }, { 'F', 3 }, { 'F', 4 }, { 'F', 5 }, { 'P', 0 }, { 'P', 1 }, { 'P', 3 }, { 'P', 5 } };
	int g, i, j, k;
	if (ec_node_type_register(&sc_type, 0) < 0) mc_bug("register");
	root = ec_node("or", "root");
	for (g = 0; g < 4; g++) {
		char id[8];
		snprintf(id, sizeof(id), "g%d", g);
		gn[g] = ec_node("mc_scripted", id);
		((struct priv *)ec_node_priv(gn[g]))->num = g;
		ec_node_or_add(root, ec_node_clone(gn[g]));
	}
	for (g = 1; g <= 4; g++) {        /* types over several groups */
		gen(g, g == 4 ? 1 : mc_thorough && g < 3 ? 3 : 2, types, 3);
		for (i = 0; i < nsp; i++) if (mc_next()) { one_list(&sp[i]); mc_end(); }
	}
	gen(2, mc_thorough ? 2 : 1, texts, 11);                /* all texts */
	for (i = 0; i < nsp; i++) if (mc_next()) { one_list(&sp[i]); mc_end(); }
	gen(1, 3, texts, 11);
	for (i = 0; i < nsp; i++) if (mc_next()) { one_list(&sp[i]); mc_end(); }
	gen(2, 2, types, 3);             /* merges of all pairs */
	for (i = 0; i < nsp; i++) for (j = 0; j < nsp; j++) if (mc_next()) { one_merge(&sp[i], &sp[j], NULL); mc_end(); }
	gen(mc_thorough ? 2 : 1, 2, types, 3);
	if (mc_thorough) gen(3, 1, types, 3);
	for (i = 0; i < nsp; i++) for (j = 0; j < nsp; j++) for (k = 0; k < nsp; k++)
		if (mc_next()) { one_merge(&sp[i], &sp[j], &sp[k]); mc_end(); }
	{
		const struct script *m[4];
		for (i = 0; i < nsp; i++) for (j = 0; j < nsp; j++) for (k = 0; k < nsp; k++)
			if (mc_next()) { m[0] = &sp[i]; m[1] = &sp[j]; m[2] = &sp[k]; m[3] = &sp[i]; multi_merge(m, 4); mc_end(); }
	}
	/* long lists */
	gen(2, 2, types, 3);
	for (k = 0; k < 12; k++) {
		static const int m[] = { 3, 8, 17, 33, 70, 130, 300, 1, 1, 1, 1, 2 }, r[] = { 1, 1, 1, 1, 1, 1, 1, 5, 17, 65, 130, 40 };
		if (r[k] > 1 && roots[r[k]] == NULL) {
			roots[r[k]] = ec_node("or", "roots");
			for (i = 0; i < r[k] * 4; i++) ec_node_or_add(roots[r[k]], ec_node_clone(gn[i % 4]));
		}
		for (i = 0; i < nsp; i++) {
			if (sp[i].n[0] + sp[i].n[1] < 2 || !mc_next()) continue;
			mult = m[k]; rep = r[k];
			one_list(&sp[i]);
			one_merge(&sp[i], &sp[(i * 7 + 3) % nsp], NULL);
			mult = rep = 1;
			mc_end();
		}
	}
	if (mc_next()) {
		struct ec_comp *c = ec_comp(), *d = ec_comp();
		mc_desc("empty lists");
		MC_CHECK(c != NULL && ec_comp_count(c, EC_COMP_ALL) == 0 && ec_comp_iter_first(c, EC_COMP_ALL) == NULL, "empty", "empty list");
		MC_CHECK(ec_comp_count(NULL, EC_COMP_ALL) == 0, "count-null", "NULL list");
		MC_CHECK(ec_comp_merge(c, d) == 0 && ec_comp_count(c, EC_COMP_ALL) == 0, "merge-empty", "merge of empty lists");
		ec_comp_free(c);
		ec_comp_free(NULL);
		mc_end();
	}
	for (g = 0; g < 4; g++) ec_node_free(gn[g]);
	ec_node_free(root);
	for (i = 0; i < 200; i++) ec_node_free(roots[i]);
}
