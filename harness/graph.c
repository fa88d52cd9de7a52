/* C08: reference counting of grammar graphs, with sharing and loops. */
#include <ecoli.h>
#include "mc.h"

#define MAXN 8
enum kind { K_SEQ, K_SUBSET, K_OR, K_BYPASS, K_OPTION, K_ONCE, K_MANY, K_RELEX, K_COND,
	K_CMD, K_EXPR, K_SHLEX, K_STR, NK };
static const char *kname[NK] = { "seq", "subset", "or", "bypass", "option", "once", "many",
	"re_lex", "cond", "cmd", "expr", "sh_lex", "str" };
static const char *idn[MAXN] = { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7" };

/* ---- model --------------------------------------------------------------- */
static int N;
static int kind[MAXN], nch[MAXN], chl[MAXN][64];
static int ext[MAXN];
static struct ec_node *nd[MAXN];
static int freed[MAXN];
static struct mc_buf db;

static unsigned reach(int i)
{
	unsigned m = 1u << i, o;
	do {
		o = m;
		for (int a = 0; a < N; a++)
			if (m & (1u << a))
				for (int k = 0; k < nch[a]; k++) m |= 1u << chl[a][k];
	} while (m != o);
	return m;
}
static unsigned alive_mask(void)
{
	unsigned m = 0;
	for (int i = 0; i < N; i++)
		if (ext[i] > 0) m |= reach(i);
	return m;
}
static void on_free(void *p) { (*(int *)p)++; }

static struct ec_node *mk(int k, int i)
{
	struct ec_node *n;
	if (k == K_STR) n = ec_node_str(idn[i], "x");
	else n = ec_node(kname[k], idn[i]);
	MC_CHECK(n != NULL, "create", "cannot create a %s node", kname[k]);
	MC_CHECK(ec_dict_set(ec_node_attrs(n), "k", &freed[i], on_free) == 0, "attr", "cannot set an attribute");
	return n;
}
static int set_cfg_child(struct ec_node *n, struct ec_node *c, const char *expr)
{
	struct ec_config *cfg = ec_config_dict();
	if (expr) ec_config_dict_set(cfg, "expr", ec_config_string(expr));
	ec_config_dict_set(cfg, "child", ec_config_node(c));
	return ec_node_set_config(n, cfg);
}
static int set_cfg_list(struct ec_node *n, struct ec_node **c, int nc, const char *expr)
{
	struct ec_config *cfg = ec_config_dict(), *l = ec_config_list();
	if (expr) ec_config_dict_set(cfg, "expr", ec_config_string(expr));
	for (int i = 0; i < nc; i++) ec_config_list_add(l, ec_config_node(c[i]));
	ec_config_dict_set(cfg, "children", l);
	return ec_node_set_config(n, cfg);
}
/* give one reference of c to parent p (not for cmd, expr, sh_lex) */
static int give(struct ec_node *p, int k, struct ec_node *c)
{
	mc_trans(1);
	switch (k) {
	case K_SEQ: return ec_node_seq_add(p, c);
	case K_OR: return ec_node_or_add(p, c);
	case K_SUBSET: return ec_node_subset_add(p, c);
	case K_BYPASS: return ec_node_bypass_set_child(p, c);
	case K_OPTION: return ec_node_option_set_child(p, c);
	case K_ONCE: return ec_node_once_set_child(p, c);
	case K_COND: return set_cfg_child(p, c, "true()");
	default: return set_cfg_child(p, c, NULL);
	}
}
static void connect_node(int i)
{
	struct ec_node *l[64];
	int ret = 0;
	switch (kind[i]) {
	case K_STR: case K_SHLEX: return;
	case K_CMD:
		for (int k = 0; k < nch[i]; k++) l[k] = ec_node_clone(nd[chl[i][k]]);
		ret = set_cfg_list(nd[i], l, nch[i], idn[chl[i][0]]);
		break;
	case K_EXPR:
		ret = ec_node_expr_set_val_node(nd[i], ec_node_clone(nd[chl[i][0]]));
		if (nch[i] > 1) ret |= ec_node_expr_add_bin_op(nd[i], ec_node_clone(nd[chl[i][1]]));
		if (nch[i] > 2) ret |= ec_node_expr_add_pre_op(nd[i], ec_node_clone(nd[chl[i][2]]));
		if (nch[i] > 3) ret |= ec_node_expr_add_post_op(nd[i], ec_node_clone(nd[chl[i][3]]));
		if (nch[i] > 4) ret |= ec_node_expr_add_parenthesis(nd[i], ec_node_clone(nd[chl[i][4]]), ec_node_clone(nd[chl[i][5]]));
		break;
	default:
		for (int k = 0; k < nch[i]; k++) ret |= give(nd[i], kind[i], ec_node_clone(nd[chl[i][k]]));
	}
	MC_CHECK(ret == 0, "add", "cannot add the children of n%d", i);
}
static void build(void)
{
	memset(freed, 0, sizeof(freed));
	for (int i = 0; i < N; i++) ext[i] = 1;
	for (int i = 0; i < N; i++) {
		if (kind[i] == K_SHLEX) {
			nd[i] = ec_node_sh_lex(idn[i], ec_node_clone(nd[chl[i][0]]));
			MC_CHECK(nd[i] != NULL, "create", "cannot create a sh_lex node");
			ec_dict_set(ec_node_attrs(nd[i]), "k", &freed[i], on_free);
		} else nd[i] = mk(kind[i], i);
	}
	for (int i = 0; i < N; i++) connect_node(i);
	mc_trans(N);
}
static void graph_text(void)
{
	for (int i = 0; i < N; i++) {
		mc_buf_add(&db, "%sn%d=%s(", i ? " " : "", i, kname[kind[i]]);
		for (int k = 0; k < nch[i]; k++) mc_buf_add(&db, "%sn%d", k ? "," : "", chl[i][k]);
		mc_buf_add(&db, ")");
	}
}
/* every live node is usable, every dead one is freed, exactly once */
static void check_all(void)
{
	unsigned am = alive_mask();
	for (int i = 0; i < N; i++) {
		int dead = !(am & (1u << i));
		MC_CHECK(freed[i] == dead, dead ? "not-freed" : "freed-early",
			"node n%d %s, but it was freed %d time(s)", i,
			dead ? "has no reference left" : "is still referenced", freed[i]);
	}
	for (int i = 0; i < N; i++) {
		size_t n;
		if (!(am & (1u << i))) continue;
		MC_CHECK(!strcmp(ec_node_id(nd[i]), idn[i]), "id", "bad id of n%d", i);
		MC_CHECK(!strcmp(ec_node_get_type_name(nd[i]), kname[kind[i]]), "type", "bad type of n%d", i);
		n = ec_node_get_children_count(nd[i]);
		if (kind[i] != K_CMD && kind[i] != K_EXPR)
			MC_CHECK(n == (size_t)nch[i], "children-count", "n%d has %zu children instead of %d", i, n, nch[i]);
		for (size_t k = 0; k < n; k++) {
			struct ec_node *c = NULL; unsigned refs;
			MC_CHECK(ec_node_get_child(nd[i], k, &c, &refs) == 0 && c != NULL, "get-child", "cannot get child %zu of n%d", k, i);
			if (kind[i] != K_CMD && kind[i] != K_EXPR)
				MC_CHECK(c == nd[chl[i][k]], "get-child", "child %zu of n%d is not n%d", k, i, chl[i][k]);
			MC_CHECK(ec_node_id(c) != NULL, "get-child", "child without id");
		}
	}
	for (int i = 0; i < N; i++) {
		unsigned r;
		if (ext[i] <= 0) continue;
		r = reach(i);
		for (int j = 0; j < N; j++) {
			struct ec_node *f = ec_node_find(nd[i], idn[j]);
			MC_CHECK(f == ((r & (1u << j)) ? nd[j] : NULL), "find",
				"ec_node_find(n%d, \"n%d\") %s", i, j, f ? "returns a wrong node" : "does not find the node");
		}
		MC_CHECK(ec_node_find(nd[i], "none") == NULL, "find", "finds a node that does not exist");
	}
	mc_trans(1);
}
static uint64_t fp(void)
{
	uint64_t h = MC_H0;
	for (int i = 0; i < N; i++) {
		h = mc_hu(h, kind[i] * 1000 + nch[i] * 100 + ext[i]);
		for (int k = 0; k < nch[i]; k++) h = mc_hu(h, chl[i][k]);
	}
	return h;
}
static void release(int i)
{
	ext[i]--;
	ec_node_free(nd[i]);
	mc_trans(1);
	check_all();
	mc_state(fp());
}
/* all release orders of the multiset cnt[] */
static int seq[16], nseq;
static void run_one(const int *cnt)
{
	int tot = 0, loops = 0;
	if (!mc_next()) return;
	mc_buf_reset(&db);
	graph_text();
	mc_buf_add(&db, "; release:");
	for (int k = 0; k < nseq; k++) mc_buf_add(&db, " n%d", seq[k]);
	mc_desc("%s", db.s);
	build();
	for (int i = 0; i < N; i++)
		for (int k = 1; k < cnt[i]; k++) { ec_node_clone(nd[i]); ext[i]++; tot++; }
	check_all();
	for (int k = 0; k < nseq; k++) release(seq[k]);
	for (int i = 0; i < N; i++) {
		for (int k = 0; k < nch[i]; k++)
			if (reach(chl[i][k]) & (1u << i)) loops++;
	}
	mc_outcome(mc_hu(mc_hu(MC_H0, loops), tot));
	if (loops) mc_nontrivial();
	mc_end();
}
static void orders(const int *cnt, int *left, int canonical, int seen)
{
	int any = 0;
	for (int i = 0; i < N; i++) {
		if (!left[i]) continue;
		any = 1;
		if (canonical && i > seen) continue;  /* the labelled graphs cover the symmetric orders */
		left[i]--; seq[nseq++] = i;
		orders(cnt, left, canonical, i == seen ? seen + 1 : seen);
		nseq--; left[i]++;
	}
	if (!any) run_one(cnt);
}
static void all_orders(int maxextra, int canonical)
{
	int cnt[MAXN], left[MAXN];
	for (int m = 0; m < (1 << N); m++) {
		if (__builtin_popcount(m) > maxextra) continue;
		for (int i = 0; i < N; i++) cnt[i] = left[i] = 1 + ((m >> i) & 1);
		orders(cnt, left, canonical, 0);
	}
}
/* enumerate kinds and children of node i, i+1, ... */
static void shapes(int i, const unsigned *kmask, int maxch, int maxextra, int canonical)
{
	if (i == N) { all_orders(maxextra, canonical); return; }
	for (int k = 0; k < NK; k++) {
		int lo, hi;
		if (!(kmask[i] & (1u << k))) continue;
		kind[i] = k;
		switch (k) {
		case K_SEQ: case K_OR: case K_SUBSET: lo = 0; hi = maxch; break;
		case K_CMD: lo = 1; hi = 2; break;
		case K_EXPR: lo = 1; hi = 2; break;
		case K_STR: lo = hi = 0; break;
		default: lo = hi = 1;
		}
		for (int n = lo; n <= hi; n++) {
			int lim = 1, base = k == K_SHLEX ? i : N;
			for (int j = 0; j < n; j++) lim *= base;
			for (int c = 0; c < lim; c++) {
				int r = c;
				nch[i] = n;
				for (int j = 0; j < n; j++) { chl[i][j] = r % base; r /= base; }
				shapes(i + 1, kmask, maxch, maxextra, canonical);
			}
		}
	}
}

/* ---- histories: add, replace, failing additions, clone, release ----------- */
static struct { int op, i, j; } hist[16];
enum { O_ADD, O_BADCFG, O_NULL, O_CLONE, O_FREE, O_SETLIST, NO };
static const char *oname[NO] = { "add", "bad-config", "add-null", "clone", "free", "set-list" };
static int hkind[3][4] = {
	{ K_SEQ, K_BYPASS, K_SUBSET, K_STR },
	{ K_OR, K_MANY, K_COND, K_OPTION },
	{ K_SEQ, K_ONCE, K_RELEX, K_OR },
};
static int enabled(int op, int i, int j)
{
	switch (op) {
	case O_ADD: case O_BADCFG: return ext[i] > 0 && ext[j] > 0;
	case O_NULL: return j == 0 && ext[i] > 0;
	case O_CLONE: return j == 0 && ext[i] == 1;
	case O_FREE: return j == 0 && ext[i] > 0;
	case O_SETLIST: return (kind[i] == K_SEQ || kind[i] == K_OR) && ext[i] > 0 && ext[j] > 0;
	}
	return 0;
}
/* execute on the model (and on the real graph if real) */
static void apply(int op, int i, int j, int real)
{
	int ret, ok;
	switch (op) {
	case O_ADD:
		ok = kind[i] != K_STR;
		if (ok) {
			if (kind[i] == K_SEQ || kind[i] == K_OR || kind[i] == K_SUBSET) chl[i][nch[i]++] = j;
			else { nch[i] = 1; chl[i][0] = j; }
		}
		if (!real) return;
		if (ok) ret = give(nd[i], kind[i], ec_node_clone(nd[j]));
		else ret = ec_node_seq_add(nd[i], ec_node_clone(nd[j])); /* not a seq */
		MC_CHECK((ret == 0) == ok, "add-ret", "adding n%d to n%d returns %d", j, i, ret);
		break;
	case O_BADCFG: {
		struct ec_config *c;
		if (!real) return;
		c = ec_config_dict();
		ec_config_dict_set(c, "unknown", ec_config_node(ec_node_clone(nd[j])));
		if (kind[i] == K_SUBSET || kind[i] == K_STR) ec_config_dict_set(c, "string", ec_config_i64(1));
		ret = ec_node_set_config(nd[i], c);
		MC_CHECK(ret < 0, "bad-config", "an invalid configuration is accepted");
		break;
	}
	case O_NULL:
		if (!real) return;
		switch (kind[i]) {
		case K_SEQ: ret = ec_node_seq_add(nd[i], NULL); break;
		case K_OR: ret = ec_node_or_add(nd[i], NULL); break;
		case K_SUBSET: ret = ec_node_subset_add(nd[i], NULL); break;
		case K_BYPASS: ret = ec_node_bypass_set_child(nd[i], NULL); break;
		case K_OPTION: ret = ec_node_option_set_child(nd[i], NULL); break;
		case K_ONCE: ret = ec_node_once_set_child(nd[i], NULL); break;
		default: ret = -1;
		}
		MC_CHECK(ret < 0, "add-null", "adding NULL succeeds");
		break;
	case O_CLONE:
		ext[i]++;
		if (!real) return;
		MC_CHECK(ec_node_clone(nd[i]) == nd[i], "clone", "ec_node_clone() returns another node");
		break;
	case O_FREE:
		ext[i]--;
		if (!real) return;
		ec_node_free(nd[i]);
		break;
	case O_SETLIST: {
		struct ec_node *l[1];
		nch[i] = 1; chl[i][0] = j;
		if (!real) return;
		l[0] = ec_node_clone(nd[j]);
		ret = set_cfg_list(nd[i], l, 1, NULL);
		MC_CHECK(ret == 0, "set-list", "cannot replace the children");
		break;
	}
	}
	mc_trans(1);
}
static int hset, hdepth;
static void hist_run(int n)
{
	static int sk[MAXN];
	memcpy(sk, hkind[hset], sizeof(hkind[hset]));
	if (!mc_next()) return;
	N = 4;
	mc_buf_reset(&db);
	mc_buf_add(&db, "n0=%s n1=%s n2=%s n3=%s:", kname[sk[0]], kname[sk[1]], kname[sk[2]], kname[sk[3]]);
	for (int k = 0; k < n; k++) mc_buf_add(&db, " %s(n%d,n%d)", oname[hist[k].op], hist[k].i, hist[k].j);
	mc_desc("%s", db.s);
	memset(freed, 0, sizeof(freed));
	memset(nch, 0, sizeof(nch));
	for (int i = 0; i < N; i++) { kind[i] = sk[i]; ext[i] = 1; nd[i] = mk(kind[i], i); }
	for (int k = 0; k < n; k++) {
		apply(hist[k].op, hist[k].i, hist[k].j, 1);
		check_all();
		mc_state(fp());
	}
	for (int i = 0; i < N; i++)
		while (ext[i] > 0) release(i);
	mc_outcome(mc_hu(MC_H0, n));
	mc_nontrivial();
	mc_end();
}
static void hist_rec(int d)
{
	int s_n[MAXN], s_c[MAXN][64], s_e[MAXN];
	if (d > 0) {
		memcpy(s_n, nch, sizeof(s_n)); memcpy(s_c, chl, sizeof(s_c)); memcpy(s_e, ext, sizeof(s_e));
		if (d == hdepth) hist_run(d);
		memcpy(nch, s_n, sizeof(s_n)); memcpy(chl, s_c, sizeof(s_c)); memcpy(ext, s_e, sizeof(s_e));
		if (d == hdepth) return;
	}
	for (int op = 0; op < NO; op++)
		for (int i = 0; i < 4; i++)
			for (int j = 0; j < 4; j++) {
				if (!enabled(op, i, j)) continue;
				memcpy(s_n, nch, sizeof(s_n)); memcpy(s_c, chl, sizeof(s_c)); memcpy(s_e, ext, sizeof(s_e));
				hist[d].op = op; hist[d].i = i; hist[d].j = j;
				apply(op, i, j, 0);
				hist_rec(d + 1);
				memcpy(nch, s_n, sizeof(s_n)); memcpy(chl, s_c, sizeof(s_c)); memcpy(ext, s_e, sizeof(s_e));
			}
}
static void histories(int depth)
{
	hdepth = depth;
	for (hset = 0; hset < 3; hset++) {
		N = 4;
		memset(nch, 0, sizeof(nch));
		for (int i = 0; i < 4; i++) { kind[i] = hkind[hset][i]; ext[i] = 1; }
		hist_rec(0);
	}
}

/* ---- constructors: a failing constructor consumes its arguments ----------- */
static void ctors(void)
{
	for (int k = 0; k < NK; k++)
		for (int badid = 0; badid < 2; badid++)
			for (int m = 0; m < 8; m++)          /* which arguments are NULL */
				for (int bad = 0; bad < 2; bad++) { /* bad format / condition */
			struct ec_node *a[3], *n = NULL;
			const char *id = badid ? NULL : "p";
			int expect, nargs = k == K_SEQ || k == K_OR || k == K_SUBSET || k == K_CMD ? 3 : 1;
			if (k == K_STR || k == K_EXPR) continue;
			if (nargs == 1 && m > 1) continue;
			if (bad && k != K_CMD && k != K_COND) continue;
			if (!mc_next()) continue;
			mc_desc("constructor %s, id %s, NULL arguments mask %d%s", kname[k], badid ? "NULL" : "p", m, bad ? ", bad expression" : "");
			N = 3;
			memset(freed, 0, sizeof(freed)); memset(nch, 0, sizeof(nch)); memset(ext, 0, sizeof(ext));
			for (int i = 0; i < 3; i++) {
				kind[i] = K_STR;
				a[i] = NULL;
				if (i < nargs && !(m & (1 << i))) { a[i] = nd[i] = mk(K_STR, i); }
				else freed[i] = 1;
			}
			mc_trans(1);
			switch (k) {
			case K_SEQ: n = EC_NODE_SEQ(id, a[0], a[1], a[2]); break;
			case K_OR: n = EC_NODE_OR(id, a[0], a[1], a[2]); break;
			case K_SUBSET: n = EC_NODE_SUBSET(id, a[0], a[1], a[2]); break;
			case K_CMD: n = EC_NODE_CMD(id, bad ? "n0 (n1" : "n0 n1 [n2]", a[0], a[1], a[2]); break;
			case K_BYPASS: n = ec_node_bypass(id, a[0]); break;
			case K_OPTION: n = ec_node_option(id, a[0]); break;
			case K_ONCE: n = ec_node_once(id, a[0]); break;
			case K_MANY: n = ec_node_many(id, a[0], 0, 0); break;
			case K_RELEX: n = ec_node_re_lex(id, a[0]); break;
			case K_COND: n = ec_node_cond(id, bad ? "true(" : "true()", a[0]); break;
			case K_SHLEX: n = ec_node_sh_lex(id, a[0]); break;
			}
			expect = !badid && m == 0 && !bad;
			MC_CHECK((n != NULL) == expect, "ctor-ret", "the constructor %s", n ? "succeeds" : "fails");
			for (int i = 0; i < 3; i++) {
				if (freed[i] == 1 && (m & (1 << i))) continue;
				if (i >= nargs) continue;
				MC_CHECK(freed[i] == !expect, "ctor-free", "argument %d was freed %d time(s)", i, freed[i]);
			}
			if (n != NULL) ec_node_free(n);
			mc_outcome(mc_hu(mc_hu(MC_H0, k), expect));
			mc_state(mc_hu(MC_H0, k * 100 + badid * 50 + m * 2 + bad));
			if (!expect) mc_nontrivial();
			mc_end();
		}
}
/* ---- chains and rings of many nodes ---------------------------------------- */
static void rings(int max)
{
	for (int n = 1; n <= max; n++)
		for (int back = -1; back < n; back++)
			for (int hold = 0; hold < 2; hold++) {
				struct ec_node **r; int *fr;
				if (!mc_next()) continue;
				mc_desc("ring of %d seq nodes, last one refers to %d, release %s", n, back, hold ? "head last" : "head first");
				r = malloc(n * sizeof(*r)); fr = calloc(n, sizeof(*fr));
				for (int i = 0; i < n; i++) {
					r[i] = ec_node("seq", "r");
					ec_dict_set(ec_node_attrs(r[i]), "k", &fr[i], on_free);
				}
				for (int i = 0; i + 1 < n; i++) ec_node_seq_add(r[i], ec_node_clone(r[i + 1]));
				if (back >= 0) ec_node_seq_add(r[n - 1], ec_node_clone(r[back]));
				mc_trans(2 * n);
				for (int k = 0; k < n; k++) {
					int i = hold ? n - 1 - k : k;
					ec_node_free(r[i]);
					/* dead: no held node at an index <= i' that reaches it */
					for (int j = 0; j < n; j++) {
						int lo = hold ? 0 : k + 1, hi = hold ? n - 1 - k : n; /* held: [lo, hi) */
						int alive = 0;
						for (int h = lo; h < hi && !alive; h++)
							alive = h <= j || (back >= 0 && j >= back);
						MC_CHECK(fr[j] == !alive, alive ? "freed-early" : "not-freed", "after %d releases node %d was freed %d time(s)", k + 1, j, fr[j]);
					}
				}
				mc_outcome(mc_hu(MC_H0, back >= 0)); mc_state(mc_hu(MC_H0, n * 1000 + back * 2 + hold));
				if (back >= 0) mc_nontrivial();
				free(r); free(fr);
				mc_end();
			}
}
/* ---- an expression with operators of every kind, each of them in a loop or not -- */
static void expressions(void)
{
	for (int m = 0; m < 64; m++)
		for (int o = 0; o < 14; o++)
			for (int ring = 0; ring < 2; ring++) {
				int one[MAXN];
				N = 7;
				kind[0] = K_EXPR;
				nch[0] = 6;
				for (int i = 0; i < 6; i++) {
					chl[0][i] = i + 1;
					kind[i + 1] = K_STR;
					nch[i + 1] = 0;
					if (m >> i & 1) {
						kind[i + 1] = i % 2 ? K_OPTION : K_SEQ;
						nch[i + 1] = 1;
						chl[i + 1][0] = ring ? (i + 1) % 6 + 1 : 0;
					}
				}
				nseq = 0;	/* one of them first or last, the others in order */
				if (o < 7) seq[nseq++] = o;
				for (int i = 0; i < 7; i++) if (i != o % 7) seq[nseq++] = i;
				if (o >= 7) seq[nseq++] = o - 7;
				for (int i = 0; i < N; i++) one[i] = 1;
				run_one(one);
			}
	nseq = 0;
}
/* ---- many references: to one node, from one node, in one list --------------- */
static void many_refs(void)
{
	static const int cnt[] = { 1, 2, 3, 8, 9, 16, 17, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600 };
	static const int big[] = { 32767, 32768, 65535, 65536, 65537, 70000 };
	static const int kinds[] = { K_SEQ, K_OR, K_SUBSET };
	int fr, fp2, n;
	/* references to a node */
	for (unsigned c = 0; c < 23; c++)
		for (int m = 0; m < 2; m++) {
			struct ec_node *x, *s = NULL;
			n = c < 17 ? cnt[c] : big[c - 17];
			if (!mc_next()) continue;
			mc_desc("%d references to a %s", n, m ? "loop of two nodes" : "node");
			fr = fp2 = 0;
			x = ec_node("seq", "x");
			ec_dict_set(ec_node_attrs(x), "k", &fr, on_free);
			if (m) {
				s = ec_node("seq", "s");
				ec_dict_set(ec_node_attrs(s), "k", &fp2, on_free);
				ec_node_seq_add(x, s);
				ec_node_seq_add(s, ec_node_clone(x));
			}
			for (int i = 0; i < n; i++) ec_node_clone(x);
			for (int i = 0; i <= n; i++) {
				MC_CHECK(fr == 0 && fp2 == 0, "freed-early", "freed after %d releases", i);
				ec_node_free(x);
			}
			MC_CHECK(fr == 1 && fp2 == m, "not-freed", "freed %d times after the last release", fr);
			mc_trans(2 * n);
			mc_state(mc_hu(mc_hu(MC_H0 + 1, n), m));
			mc_nontrivial();
			mc_end();
		}
	/* the same child n times in a list, in a loop or not, and n parents of one child */
	for (unsigned c = 0; c < 17; c++)
		for (int k = 0; k < 3; k++)
			for (int m = 0; m < 8; m++) {
				struct ec_node *p[601], *x;
				int npar = m & 4 ? cnt[c] : 1, per = m & 4 ? 1 : cnt[c];
				int *fpar;
				n = cnt[c];
				if (n == 600 && k == 2) continue;
				if (!mc_next()) continue;
				mc_desc("%d %s parents, %d times the same child%s, %s released first", npar, kname[kinds[k]], per, m & 1 ? " that refers to the first one" : "", m & 2 ? "child" : "parents");
				fr = 0;
				fpar = calloc(npar, sizeof(*fpar));
				x = ec_node("seq", "x");
				ec_dict_set(ec_node_attrs(x), "k", &fr, on_free);
				for (int i = 0; i < npar; i++) {
					p[i] = ec_node(kname[kinds[k]], "p");
					ec_dict_set(ec_node_attrs(p[i]), "k", &fpar[i], on_free);
					for (int j = 0; j < per; j++) MC_CHECK(give(p[i], kinds[k], ec_node_clone(x)) == 0, "add", "child %d refused", j);
					MC_CHECK(ec_node_get_children_count(p[i]) == (size_t)per, "children-count", "%zu children", ec_node_get_children_count(p[i]));
				}
				if (m & 1) ec_node_seq_add(x, ec_node_clone(p[0]));
				if (m & 2) { ec_node_free(x); MC_CHECK(fr == 0, "freed-early", "child freed"); }
				for (int i = 0; i < npar; i++) {
					int r = npar - 1 - i;
					MC_CHECK(fr == 0 && fpar[r] == 0, "freed-early", "freed before the release of parent %d", r);
					ec_node_free(p[r]);
					/* the first parent lives as long as x */
					MC_CHECK(fpar[r] == !(r == 0 && (m & 1) && !(m & 2)), "parent", "parent %d freed %d times", r, fpar[r]);
				}
				if (!(m & 2)) { MC_CHECK(fr == 0, "freed-early", "child freed"); ec_node_free(x); }
				MC_CHECK(fr == 1 && fpar[0] == 1, "not-freed", "child freed %d times, first parent %d", fr, fpar[0]);
				free(fpar);
				mc_state(mc_hu(mc_hu(mc_hu(MC_H0 + 2, n), m), k));
				mc_nontrivial();
				mc_end();
			}
	/* a list of n distinct children, the k-th one refers to the list */
	for (unsigned c = 0; c < 15; c++)
		for (int k = 0; k < 3; k++)
			for (int b = 0; b < 4; b++) {
				struct ec_node *p, *x[300];
				int back = b == 0 ? -1 : b == 1 ? 0 : b == 2 ? cnt[c] / 2 : cnt[c] - 1, *fx;
				n = cnt[c];
				if (!mc_next()) continue;
				mc_desc("%s of %d children, child %d refers to it", kname[kinds[k]], n, back);
				fr = 0;
				fx = calloc(n, sizeof(*fx));
				p = ec_node(kname[kinds[k]], "p");
				ec_dict_set(ec_node_attrs(p), "k", &fr, on_free);
				for (int i = 0; i < n; i++) {
					x[i] = ec_node("seq", "x");
					ec_dict_set(ec_node_attrs(x[i]), "k", &fx[i], on_free);
					if (i == back) ec_node_seq_add(x[i], ec_node_clone(p));
					MC_CHECK(give(p, kinds[k], ec_node_clone(x[i])) == 0, "add", "child %d refused", i);
				}
				for (int i = 0; i < n; i++) {
					struct ec_node *ch = NULL; unsigned refs;
					MC_CHECK(ec_node_get_child(p, i, &ch, &refs) == 0 && ch == x[i], "get-child", "child %d", i);
				}
				ec_node_free(p);
				MC_CHECK(fr == (back < 0), back < 0 ? "not-freed" : "freed-early", "list freed %d times", fr);
				for (int i = 0; i < n; i++) if (i != back) {
					MC_CHECK(fx[i] == 0, "freed-early", "child %d", i);
					ec_node_free(x[i]);
					MC_CHECK(fx[i] == (back < 0), back < 0 ? "not-freed" : "freed-early", "child %d freed %d times", i, fx[i]);
				}
				if (back >= 0) ec_node_free(x[back]);
				for (int i = 0; i < n; i++) MC_CHECK(fx[i] == 1 && fr == 1, "not-freed", "child %d freed %d times, list %d", i, fx[i], fr);
				free(fx);
				mc_trans(3 * n);
				mc_state(mc_hu(mc_hu(mc_hu(MC_H0 + 3, n), k), b));
				mc_nontrivial();
				mc_end();
			}
}

void mc_run(void)
{
	unsigned all = (1u << NK) - 1, k1[MAXN] = { 3, 3, 3, 3 };
	unsigned k2[MAXN] = { 1u << K_SEQ, all & ~(1u << K_SHLEX), all, 0 };
	unsigned k3[MAXN] = { 1, 1, 1, 1 };
	unsigned k4[MAXN] = { all & ~(1u << K_SHLEX), all, 0, 0 };

	ctors();
	expressions();
	many_refs();
	rings(mc_thorough ? 40 : 16);
	N = 2; shapes(0, k4, 2, 2, 0);
	N = 3; shapes(0, k1, 2, mc_thorough ? 3 : 1, 1);
	N = 3; shapes(0, k2, mc_thorough ? 2 : 1, mc_thorough ? 1 : 0, 0);
	N = 4; shapes(0, k3, 2, mc_thorough ? 1 : 0, 1);
	if (mc_thorough) { N = 4; shapes(0, k1, 2, 0, 1); }
	histories(mc_thorough ? 4 : 3);
}
