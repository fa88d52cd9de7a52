/* C02: the parse tree is the derivation; navigation, search, duplication. */
#include <ecoli.h>
#include "gram_space.h"

static void begin_grammar(struct gram *gr) { (void)gr; }
static struct mc_buf ref_b, got_b, b1, b2;

#define MAXN 1024
static const struct ec_pnode *all[MAXN], *par[MAXN];
static int nall, depth_of[MAXN], end_of[MAXN];   /* subtree = [i, end_of[i]) in prefix order */

static void walk(const struct ec_pnode *p, const struct ec_pnode *parent, int depth)
{
	const struct ec_pnode *c, *last = NULL;
	int me = nall, k = 0;
	if (nall >= MAXN) mc_bug("tree too large");
	all[nall] = p; par[nall] = parent; depth_of[nall] = depth; nall++;
	MC_CHECK(ec_pnode_get_parent(p) == parent, "parent", "wrong parent of tree node %d", me);
	EC_PNODE_FOREACH_CHILD(c, p) {
		MC_CHECK(++k < MAXN, "loop", "endless list of children");
		walk(c, p, depth + 1);
		last = c;
	}
	MC_CHECK(ec_pnode_get_last_child(p) == last, "last", "wrong last child of tree node %d", me);
	end_of[me] = nall;
}
static const char *id_of(const struct ec_pnode *p)
{
	const struct ec_node *n = ec_pnode_get_node(p);
	return n ? ec_node_id(n) : "";
}
static void pos_text(struct mc_buf *b, struct gram *gr, const struct ec_pnode *p)
{
	/* child indexes from the root to p */
	const struct ec_pnode *q = ec_pnode_get_parent(p), *c;
	int i = 0;
	if (q == NULL) return;
	pos_text(b, gr, q);
	EC_PNODE_FOREACH_CHILD(c, q) { if (c == p) break; i++; }
	mc_buf_add(b, ".%d", i);
}
static void check_nav(struct gram *gr, struct ec_pnode *root)
{
	char idb[16];
	const struct ec_pnode *it;
	int i, j, k;

	nall = 0;
	walk(root, NULL, 0);
	/* iteration below every node, from every node of that sub-tree */
	for (i = 0; i < nall; i++) {
		MC_CHECK(ec_pnode_get_root((struct ec_pnode *)all[i]) == root, "root", "wrong root of tree node %d", i);
		for (j = i; j < end_of[i]; j++) {
			it = EC_PNODE_ITER_NEXT(all[i], all[j], 1);
			MC_CHECK(it == (j + 1 < end_of[i] ? all[j + 1] : NULL), "iter",
				"iteration below node %d: wrong successor of node %d", i, j);
			it = EC_PNODE_ITER_NEXT(all[i], all[j], 0);
			k = end_of[j];
			MC_CHECK(it == (k < end_of[i] ? all[k] : NULL), "iter-skip",
				"iteration below node %d: wrong successor of node %d when skipping its children", i, j);
		}
	}
	/* search by id */
	for (int n = 0; n <= gr->count; n++) {
		snprintf(idb, sizeof(idb), "n%d", n);   /* n == count: unknown id */
		for (i = 0; i < nall; i++) {
			for (k = i; k < end_of[i] && strcmp(id_of(all[k]), idb); k++) ;
			it = ec_pnode_find(all[i], idb);
			MC_CHECK(it == (k < end_of[i] ? all[k] : NULL), "find", "ec_pnode_find(node %d, %s): wrong node", i, idb);
			for (j = i; j < end_of[i]; j++) {
				if (strcmp(id_of(all[j]), idb)) continue;
				for (int ch = 0; ch < 2; ch++) {
					for (k = ch ? j + 1 : end_of[j]; k < end_of[i] && strcmp(id_of(all[k]), idb); k++) ;
					it = ec_pnode_find_next(all[i], all[j], idb, ch);
					MC_CHECK(it == (k < end_of[i] ? all[k] : NULL), "find-next",
						"ec_pnode_find_next(node %d, prev node %d, %s, iter_children=%d): wrong node", i, j, idb, ch);
				}
			}
		}
	}
	mc_trans(nall * 4);
}
static void check_dup(struct gram *gr, struct ec_pnode *root)
{
	struct ec_pnode *d, *dr;
	int i;
	for (i = 0; i < nall; i++) {
		char key[16];
		snprintf(key, sizeof(key), "%d", i);
		MC_CHECK(ec_dict_set(ec_pnode_get_attrs((struct ec_pnode *)all[i]), "pos", (void *)all[i], NULL) == 0, "attr", "cannot set an attribute");
	}
	for (i = 0; i < nall; i++) {
		d = ec_pnode_dup(all[i]);
		MC_CHECK(d != NULL, "dup-null", "ec_pnode_dup() fails on node %d", i);
		dr = ec_pnode_get_root(d);
		mc_buf_reset(&b1);
		pnode_text(&b1, gr, dr);
		MC_CHECK(!strcmp(b1.s, got_b.s), "dup", "duplicate of node %d is %s", i, b1.s);
		mc_buf_reset(&b1); mc_buf_reset(&b2);
		mc_buf_add(&b1, "@"); mc_buf_add(&b2, "@");
		pos_text(&b1, gr, d); pos_text(&b2, gr, all[i]);
		MC_CHECK(!strcmp(b1.s, b2.s), "dup-pos", "duplicate of node %d is positioned on %s instead of %s", i, b1.s, b2.s);
		MC_CHECK(ec_dict_get(ec_pnode_get_attrs(d), "pos") == all[i], "dup-attr", "attributes of node %d are not duplicated", i);
		if (i == 0 || i == nall - 1) {
			const struct ec_pnode *it;
			int n = 0;
			for (it = dr; it; it = EC_PNODE_ITER_NEXT(dr, it, 1), n++) {
				MC_CHECK(n < nall && ec_dict_get(ec_pnode_get_attrs((struct ec_pnode *)it), "pos") == all[n], "dup-attr",
					"attributes of node %d are not duplicated", n);
				MC_CHECK(it != all[n], "dup-alias", "the duplicate shares node %d", n);
			}
			MC_CHECK(n == nall, "dup-iter", "the duplicate has %d nodes instead of %d", n, nall);
			/* independence */
			ec_dict_set(ec_pnode_get_attrs(d), "pos", NULL, NULL);
			ec_pnode_free_children(dr);
			mc_buf_reset(&b1);
			pnode_text(&b1, gr, root);
			MC_CHECK(!strcmp(b1.s, got_b.s), "dup-indep", "changing the duplicate changed the tree: %s", b1.s);
			MC_CHECK(ec_dict_get(ec_pnode_get_attrs((struct ec_pnode *)all[i]), "pos") == all[i], "dup-attr-indep",
				"changing an attribute of the duplicate changed the tree");
		}
		ec_pnode_free(dr);
	}
	mc_trans(nall);
}

static int fresh(uint64_t h)
{
	static uint64_t *set;
	size_t i;
	if (set == NULL) set = calloc(1 << 20, sizeof(*set));
	for (i = h >> 44; set[i] != 0; i = (i + 1) & ((1 << 20) - 1))
		if (set[i] == h) return 0;
	set[i] = h;
	return 1;
}
static void check_input(struct gram *gr, const char *const *tok, int n)
{
	struct ec_strvec *v;
	struct ec_pnode *p;
	struct rt *rt;
	int exp;

	exp = ref_parse(gr, tok, n, &rt);
	if (exp == R_DIVERGE) { rt_free(rt); return; }
	case_desc(gr, tok, n);
	mc_buf_reset(&ref_b);
	rt_text(&ref_b, rt);
	rt_free(rt);
	v = mk_strvec(tok, n);
	MC_CHECK(v != NULL, "alloc", "cannot build the input vector");
	p = ec_parse_strvec(gr->node, v);
	mc_trans(1);
	MC_CHECK(p != NULL, "parse-error", "ec_parse_strvec() reports an error");
	ec_strvec_free(v);              /* the tree does not depend on the input */
	mc_buf_reset(&got_b);
	pnode_text(&got_b, gr, p);
	MC_CHECK(!strcmp(ref_b.s, got_b.s), "tree", "reference tree: %s, library: %s", ref_b.s, got_b.s);
	/* navigation depends on the shape, identifiers and tokens of the tree only:
	 * done once per distinct tree and number of grammar nodes */
	if (fresh(mc_hu(mc_hs(MC_H0, got_b.s), gr->count))) {
		check_nav(gr, p);
		check_dup(gr, p);
	}
	ec_pnode_free(p);
	mc_outcome(mc_hs(MC_H0, got_b.s));
	mc_state(mc_hs(mc_hs(MC_H0, db.s), got_b.s));
	if (exp > 0) mc_nontrivial();
}

/* ---- trees built by hand: every sequence of link/unlink/delete ------------ */
#define MT 6
struct mt { int used, parent, ch[MT], nch; };
static struct ec_pnode *pn[MT];
static struct mt mt[MT];
static struct ec_node *ids[3];
static const char *idn[3] = { "n0", "n1", "n0" };

static void mt_kill(int i)
{
	while (mt[i].nch) mt_kill(mt[i].ch[--mt[i].nch]);
	mt[i].used = 0; pn[i] = NULL;
}
static void mt_detach(int i)
{
	int p = mt[i].parent, k;
	if (p < 0) return;
	for (k = 0; mt[p].ch[k] != i; k++) ;
	for (; k + 1 < mt[p].nch; k++) mt[p].ch[k] = mt[p].ch[k + 1];
	mt[p].nch--;
	mt[i].parent = -1;
}
static int mt_root(int i) { while (mt[i].parent >= 0) i = mt[i].parent; return i; }
static void mt_check(int i)
{
	const struct ec_pnode *c;
	int k = 0;
	MC_CHECK(ec_pnode_get_parent(pn[i]) == (mt[i].parent < 0 ? NULL : pn[mt[i].parent]), "h-parent", "wrong parent");
	EC_PNODE_FOREACH_CHILD(c, pn[i]) {
		MC_CHECK(k < mt[i].nch && c == pn[mt[i].ch[k]], "h-child", "node %d: wrong child %d", i, k);
		k++;
	}
	MC_CHECK(k == mt[i].nch, "h-nchild", "node %d: %d children instead of %d", i, k, mt[i].nch);
	MC_CHECK(ec_pnode_get_first_child(pn[i]) == (k ? pn[mt[i].ch[0]] : NULL), "h-first", "wrong first child");
	MC_CHECK(ec_pnode_get_last_child(pn[i]) == (k ? pn[mt[i].ch[k - 1]] : NULL), "h-last", "wrong last child");
	MC_CHECK(ec_pnode_get_root(pn[i]) == pn[mt_root(i)], "h-root", "wrong root");
	MC_CHECK(ec_pnode_get_node(pn[i]) == ids[i % 3], "h-node", "wrong grammar node");
	MC_CHECK(!ec_pnode_matches(pn[i]) && ec_pnode_len(pn[i]) == 0 && ec_pnode_get_strvec(pn[i]) == NULL, "h-match", "a new node matches");
}
static int hand_full = 1;
static void hand_replay(const int *ops, int n)
{
	int i, a, b;
	memset(mt, 0, sizeof(mt));
	memset(pn, 0, sizeof(pn));
	for (i = 0; i < 3; i++) ids[i] = ec_node("empty", idn[i]);
	mc_desc("parse tree operations:");
	for (int s = 0; s < n; s++) {
		int op = ops[s];
		if (op < MT) {                   /* new */
			a = op;
			if (mt[a].used) goto invalid;
			mc_desc_add(" new(%d)", a);
			pn[a] = ec_pnode(ids[a % 3]);
			MC_CHECK(pn[a] != NULL, "h-new", "ec_pnode() fails");
			mt[a].used = 1; mt[a].parent = -1; mt[a].nch = 0;
		} else if (op < MT + MT * MT) {  /* link a under b */
			a = (op - MT) % MT; b = (op - MT) / MT;
			if (!mt[a].used || !mt[b].used || mt[a].parent >= 0 || mt_root(b) == a) goto invalid;
			mc_desc_add(" link(%d under %d)", a, b);
			ec_pnode_link_child(pn[b], pn[a]);
			mt[b].ch[mt[b].nch++] = a; mt[a].parent = b;
		} else {
			a = (op - MT - MT * MT) % MT;
			if (!mt[a].used) goto invalid;
			switch ((op - MT - MT * MT) / MT) {
			case 0:
				mc_desc_add(" unlink(%d)", a);
				ec_pnode_unlink_child(pn[a]);
				mt_detach(a);
				break;
			case 1:
				mc_desc_add(" del_last_child(%d)", a);
				ec_pnode_del_last_child(pn[a]);
				if (mt[a].nch) mt_kill(mt[a].ch[--mt[a].nch]);
				break;
			case 2:
				mc_desc_add(" free_children(%d)", a);
				ec_pnode_free_children(pn[a]);
				while (mt[a].nch) mt_kill(mt[a].ch[--mt[a].nch]);
				break;
			default:
				if (mt[a].parent >= 0) goto invalid;
				mc_desc_add(" free(%d)", a);
				ec_pnode_free(pn[a]);
				mt_kill(a);
			}
		}
		mc_trans(1);
	}
	uint64_t h = MC_H0;
	for (i = 0; i < MT; i++) {
		h = mc_h(h, &mt[i].used, sizeof(int));
		if (!mt[i].used) continue;
		mt_check(i);
		h = mc_hu(h, mt[i].nch);
		for (a = 0; a < mt[i].nch; a++) h = mc_hu(h, mt[i].ch[a]);
	}
	/* navigation and copies of partial trees, attributes included */
	struct g fg[3];
	struct gram fake = { .all = fg, .count = 3 };
	memset(fg, 0, sizeof(fg));
	for (i = 0; i < 3; i++) { fg[i].num = i; fg[i].node = ids[i]; fg[i].all_next = i < 2 ? &fg[i + 1] : NULL; }
	for (i = 0; i < MT && hand_full; i++)
		if (mt[i].used && mt[i].parent < 0) {
			mc_buf_reset(&got_b);
			pnode_text(&got_b, &fake, pn[i]);
			check_nav(&fake, pn[i]);
			check_dup(&fake, pn[i]);
		}
	mc_state(h); mc_outcome(h); mc_nontrivial();
invalid:
	for (i = 0; i < MT; i++)
		if (mt[i].used && mt[i].parent < 0) { ec_pnode_free(pn[i]); mt_kill(i); }
	for (i = 0; i < 3; i++) ec_node_free(ids[i]);
}
static int hand_valid(const int *ops, int n)
{
	/* run the model only */
	struct mt save[MT];
	int s, a, b, i;
	memset(save, 0, sizeof(save));
	memset(mt, 0, sizeof(mt));
	for (s = 0; s < n; s++) {
		int op = ops[s];
		if (op < MT) {
			a = op;
			if (mt[a].used) return 0;
			for (i = 0; i < a; i++) if (!mt[i].used) return 0;   /* lowest free index */
			mt[a].used = 1; mt[a].parent = -1; mt[a].nch = 0;
		} else if (op < MT + MT * MT) {
			a = (op - MT) % MT; b = (op - MT) / MT;
			if (!mt[a].used || !mt[b].used || mt[a].parent >= 0 || mt_root(b) == a) return 0;
			mt[b].ch[mt[b].nch++] = a; mt[a].parent = b;
		} else {
			a = (op - MT - MT * MT) % MT;
			if (!mt[a].used) return 0;
			switch ((op - MT - MT * MT) / MT) {
			case 0: mt_detach(a); break;
			case 1: if (mt[a].nch) mt_kill(mt[a].ch[--mt[a].nch]); break;
			case 2: while (mt[a].nch) mt_kill(mt[a].ch[--mt[a].nch]); break;
			default: if (mt[a].parent >= 0) return 0; mt_kill(a);
			}
		}
	}
	return 1;
}
static void hand_enum(int *ops, int n, int depth, int nodes)
{
	if (mc_next()) { hand_replay(ops, n); mc_end(); }
	if (n == depth) return;
	for (int op = 0; op < MT + MT * MT + 4 * MT; op++) {
		ops[n] = op;
		if (op < MT && op >= nodes) continue;
		if (hand_valid(ops, n + 1)) hand_enum(ops, n + 1, depth, nodes);
	}
}

void mc_run(void)
{
	int ops[16];
	if (mc_thorough) { enum_space(5, 6, 6, 3, 40, 300, 5); hand_enum(ops, 0, 8, 4); }
	else { enum_space(4, 5, 4, 3, 20, 129, 4); hand_enum(ops, 0, 7, 3); }
}
