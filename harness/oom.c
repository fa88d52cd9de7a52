/* C12: every allocation of every operation fails, alone or with all the next ones: the
 * operation reports it or gives its normal result, what existed keeps its content, nothing
 * leaks, and the operation succeeds once memory is back. */
#include <ecoli.h>
#include <histedit.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "gram.h"

/* ---- what can be observed of the objects --------------------------------- */
static int cmp_str(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static void dict_text(struct mc_buf *b, const struct ec_dict *d, int vals)
{
	const struct ec_dict_elt_ref *it;
	char *k[600], s[600];
	int n = 0, internal = 0;
	mc_buf_add(b, "{");
	if (d != NULL) {
		for (it = ec_dict_iter(d); it != NULL; it = ec_dict_iter_next((struct ec_dict_elt_ref *)it)) {
			const char *v = ec_dict_iter_get_val(it);
			if (ec_dict_iter_get_key(it)[0] == '_') { internal++; continue; }   /* private to a node, may contain an address */
			snprintf(s, sizeof(s), "%s=%s", ec_dict_iter_get_key(it), !vals ? "" : v ? v : "(null)");
			if (n < 600) k[n++] = strdup(s);
		}
		if ((size_t)n + internal != ec_dict_len(d)) mc_buf_add(b, "LEN %zu!", ec_dict_len(d));
		qsort(k, n, sizeof(*k), cmp_str);
		for (int i = 0; i < n; i++) { mc_buf_add(b, "%s,", k[i]); free(k[i]); }
	}
	mc_buf_add(b, "}");
}
static void htable_text(struct mc_buf *b, const struct ec_htable *h)
{
	struct ec_htable_elt_ref *it;
	char *k[600], s[600];
	int n = 0;
	for (it = ec_htable_iter(h); it != NULL; it = ec_htable_iter_next(it)) {
		const char *v = ec_htable_iter_get_val(it);
		snprintf(s, sizeof(s), "%.*s=%s", (int)ec_htable_iter_get_key_len(it), (char *)ec_htable_iter_get_key(it), v ? v : "(null)");
		if (n < 600) k[n++] = strdup(s);
		if (ec_htable_get(h, ec_htable_iter_get_key(it), ec_htable_iter_get_key_len(it)) != v) mc_buf_add(b, "GET!");
	}
	if ((size_t)n != ec_htable_len(h)) mc_buf_add(b, "LEN %zu!", ec_htable_len(h));
	qsort(k, n, sizeof(*k), cmp_str);
	for (int i = 0; i < n; i++) { mc_buf_add(b, "%s,", k[i]); free(k[i]); }
}
static void conf_text(struct mc_buf *b, struct ec_config *c)
{
	struct ec_config *i;
	struct ec_dict_elt_ref *it;
	if (c == NULL) { mc_buf_add(b, "-"); return; }
	switch (ec_config_get_type(c)) {
	case EC_CONFIG_TYPE_BOOL: mc_buf_add(b, "%d", c->boolean); break;
	case EC_CONFIG_TYPE_INT64: mc_buf_add(b, "i%lld", (long long)c->i64); break;
	case EC_CONFIG_TYPE_UINT64: mc_buf_add(b, "u%llu", (unsigned long long)c->u64); break;
	case EC_CONFIG_TYPE_STRING: mc_buf_str(b, c->string); break;
	case EC_CONFIG_TYPE_NODE: mc_buf_add(b, "node %s", ec_node_id(c->node)); break;
	case EC_CONFIG_TYPE_LIST:
		mc_buf_add(b, "[");
		TAILQ_FOREACH(i, &c->list, next) { conf_text(b, i); mc_buf_add(b, ","); }
		mc_buf_add(b, "]%zd", ec_config_count(c));
		break;
	case EC_CONFIG_TYPE_DICT: {
		const char *k[64];
		int n = 0;
		for (it = ec_dict_iter(c->dict); it != NULL; it = ec_dict_iter_next(it)) if (n < 64) k[n++] = ec_dict_iter_get_key(it);
		qsort(k, n, sizeof(*k), cmp_str);
		mc_buf_add(b, "{");
		for (int j = 0; j < n; j++) { mc_buf_add(b, "%s:", k[j]); conf_text(b, ec_dict_get(c->dict, k[j])); mc_buf_add(b, ","); }
		mc_buf_add(b, "}");
		break;
	}
	default: mc_buf_add(b, "?");
	}
}
static void sv_text(struct mc_buf *b, const struct ec_strvec *v)
{
	mc_buf_add(b, "<");
	for (size_t i = 0; i < ec_strvec_len(v); i++) {
		mc_buf_str(b, ec_strvec_val(v, i));
		if (ec_strvec_get_attrs(v, i)) dict_text(b, ec_strvec_get_attrs(v, i), 0);
		mc_buf_add(b, " ");
	}
	mc_buf_add(b, ">");
}
static void pn_text(struct mc_buf *b, struct ec_pnode *p)
{
	struct ec_pnode *c;
	mc_buf_add(b, "%s", ec_node_id(ec_pnode_get_node(p)));
	if (ec_pnode_get_strvec(p)) sv_text(b, ec_pnode_get_strvec(p));
	dict_text(b, ec_pnode_get_attrs(p), 0);
	mc_buf_add(b, "(");
	EC_PNODE_FOREACH_CHILD(c, p) { pn_text(b, c); mc_buf_add(b, " "); }
	mc_buf_add(b, ")");
}
static void comp_text(struct mc_buf *b, const struct ec_comp *c)
{
	struct ec_comp_item *it;
	const struct ec_comp_group *g = NULL;
	mc_buf_add(b, "%zu/%zu/%zu:", ec_comp_count(c, EC_COMP_UNKNOWN), ec_comp_count(c, EC_COMP_FULL), ec_comp_count(c, EC_COMP_PARTIAL));
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		if (ec_comp_item_get_grp(it) != g) {
			g = ec_comp_item_get_grp(it);
			mc_buf_add(b, " grp %s ", ec_node_id(ec_comp_group_get_node(g)));
			pn_text(b, EC_PNODE_GET_ROOT((struct ec_pnode *)ec_comp_group_get_pstate(g)));
			dict_text(b, ec_comp_group_get_attrs(g), 0);
		}
		mc_buf_add(b, " [%d ", ec_comp_item_get_type(it));
		mc_buf_str(b, ec_comp_item_get_str(it));
		mc_buf_str(b, ec_comp_item_get_display(it));
		mc_buf_str(b, ec_comp_item_get_completion(it));
		mc_buf_add(b, "]");
	}
	dict_text(b, ec_comp_get_attrs(c), 0);
}
static void node_text(struct mc_buf *b, const struct ec_node *n, int depth)
{
	size_t i;
	mc_buf_add(b, "%s:%s", ec_node_type_name(ec_node_type(n)), ec_node_id(n));
	dict_text(b, ec_node_attrs(n), 0);
	if (ec_node_get_config(n)) conf_text(b, (struct ec_config *)ec_node_get_config(n));
	if (depth == 0) return;
	mc_buf_add(b, "(");
	for (i = 0; i < ec_node_get_children_count(n); i++) {
		struct ec_node *c = NULL;
		unsigned refs = 77;
		if (ec_node_get_child(n, i, &c, &refs) < 0 || c == NULL) { mc_buf_add(b, "!"); continue; }
		node_text(b, c, depth - 1);
		mc_buf_add(b, " ");
	}
	mc_buf_add(b, ")");
}

/* ---- context of an operation ---------------------------------------------- */
struct ctx {
	struct ec_node *node, *c1, *c2, *c3;
	struct ec_pnode *p, *p2;
	struct ec_comp *comp, *comp2;
	struct ec_strvec *sv, *sv2;
	struct ec_dict *d, *d2;
	struct ec_htable *h, *h2;
	struct ec_vec *v, *v2;
	struct ec_config *c, *k;
	struct ec_editline *el;
	FILE *in, *out;
	char *s;              /* result, freed with ec_free() */
	char **m; ssize_t nm; /* completions */
	struct ec_editline_help *he; ssize_t nh;
	int val, hasval;
	const char *const *probe;    /* inputs, words separated by '|' */
	int vec_strings;
	int hide_node;               /* only the behaviour of the node is observed */
};
static struct ec_strvec *words(const char *s)
{
	struct ec_strvec *v = ec_strvec();
	char *t = strdup(s), *p = t, *q;
	if (!strcmp(s, "0")) { free(t); return v; }   /* empty vector */
	for (;;) {
		q = strchr(p, '|');
		if (q) *q = 0;
		ec_strvec_add(v, p);
		if (!q) break;
		p = q + 1;
	}
	free(t);
	return v;
}
static void look(struct ctx *x, struct mc_buf *b)
{
	mc_buf_reset(b);
	if (x->node) {
		if (!x->hide_node) { mc_buf_add(b, "\nnode "); node_text(b, x->node, 4); }
		for (int i = 0; x->probe && x->probe[i]; i++) {
			struct ec_strvec *v = words(x->probe[i]);
			struct ec_pnode *p = ec_parse_strvec(x->node, v);
			struct ec_comp *c = ec_complete_strvec(x->node, v);
			mc_buf_add(b, "\n%s: ", x->probe[i]);
			if (p) pn_text(b, p); else mc_buf_add(b, "error");
			mc_buf_add(b, "\n  ");
			if (c) comp_text(b, c); else mc_buf_add(b, "error");
			ec_comp_free(c);
			ec_pnode_free(p);
			ec_strvec_free(v);
		}
	}
	if (x->p) { mc_buf_add(b, "\ntree "); pn_text(b, EC_PNODE_GET_ROOT(x->p)); mc_buf_add(b, " at %s", ec_node_id(ec_pnode_get_node(x->p))); }
	if (x->p2) { mc_buf_add(b, "\ntree2 "); pn_text(b, EC_PNODE_GET_ROOT(x->p2)); mc_buf_add(b, " at %s", ec_node_id(ec_pnode_get_node(x->p2))); }
	if (x->comp) { mc_buf_add(b, "\ncomp "); comp_text(b, x->comp); }
	if (x->sv) { mc_buf_add(b, "\nsv "); sv_text(b, x->sv); }
	if (x->sv2) { mc_buf_add(b, "\nsv2 "); sv_text(b, x->sv2); }
	if (x->d) { mc_buf_add(b, "\ndict "); dict_text(b, x->d, 1); }
	if (x->d2) { mc_buf_add(b, "\ndict2 "); dict_text(b, x->d2, 1); }
	if (x->h) { mc_buf_add(b, "\nhtable "); htable_text(b, x->h); }
	if (x->h2) { mc_buf_add(b, "\nhtable2 "); htable_text(b, x->h2); }
	for (int k = 0; k < 2; k++) {
		struct ec_vec *v = k ? x->v2 : x->v;
		if (v == NULL) continue;
		mc_buf_add(b, "\nvec %zu:", ec_vec_len(v));
		for (size_t i = 0; i < ec_vec_len(v); i++) {
			uint64_t u = 0;
			if (ec_vec_get(&u, v, i) < 0) mc_buf_add(b, "!");
			if (x->vec_strings) mc_buf_add(b, " %s", (char *)(uintptr_t)u);
			else mc_buf_add(b, " %llx", (unsigned long long)u);
		}
	}
	if (x->c) { mc_buf_add(b, "\nconfig "); conf_text(b, x->c); }
	if (x->k) { mc_buf_add(b, "\nconfig2 "); conf_text(b, x->k); }
	if (x->s) { mc_buf_add(b, "\nstring "); mc_buf_str(b, x->s); }
	if (x->m) for (ssize_t i = 0; i < x->nm; i++) mc_buf_add(b, "\nmatch %s", x->m[i]);
	if (x->he) for (ssize_t i = 0; i < x->nh; i++) mc_buf_add(b, "\nhelp %s|%s", x->he[i].desc, x->he[i].help);
	if (x->hasval) mc_buf_add(b, "\nval %d", x->val);
	if (x->el) {
		const LineInfo *li = el_line(ec_editline_get_el(x->el));
		mc_buf_add(b, "\nline %.*s", (int)(li->lastchar - li->buffer), li->buffer);
	}
}
static void done(struct ctx *x)
{
	if (x->m) ec_editline_free_completions(x->m, x->nm);
	if (x->he) ec_editline_free_helps(x->he, x->nh);
	if (x->el) ec_editline_free(x->el);
	if (x->in) fclose(x->in);
	if (x->out) fclose(x->out);
	ec_free(x->s);
	ec_config_free(x->c); ec_config_free(x->k);
	ec_vec_free(x->v); ec_vec_free(x->v2);
	ec_htable_free(x->h); ec_htable_free(x->h2);
	ec_dict_free(x->d); ec_dict_free(x->d2);
	ec_strvec_free(x->sv); ec_strvec_free(x->sv2);
	ec_comp_free(x->comp); ec_comp_free(x->comp2);
	ec_pnode_free(x->p ? EC_PNODE_GET_ROOT(x->p) : NULL); ec_pnode_free(x->p2 ? EC_PNODE_GET_ROOT(x->p2) : NULL);
	ec_node_free(x->node); ec_node_free(x->c1); ec_node_free(x->c2); ec_node_free(x->c3);
	memset(x, 0, sizeof(*x));
}

/* ---- exploration ----------------------------------------------------------- */
struct op {
	void (*setup)(struct ctx *x, long a);
	int (*run)(struct ctx *x, long a);       /* 0, or -1 */
};
static int any_errno;      /* the operation does not promise errno */
static int mayalter;       /* an error may leave the operation partly done, only usability is required */
static struct mc_buf pre, post, cur;

static void explore(const struct op *o, long a, const char *fmt, ...)
{
	char name[1500];
	struct ctx x;
	va_list ap;
	long n, k, live0;
	int mode, r, e;

	va_start(ap, fmt);
	vsnprintf(name, sizeof(name), fmt, ap);
	va_end(ap);
	mc_desc("%s", name);
	live0 = mc_live;
	mc_track_mark();
	memset(&x, 0, sizeof(x));
	if (o->setup) o->setup(&x, a);
	look(&x, &pre);
	mc_allocs = 0;
	r = o->run(&x, a);
	n = mc_allocs;
	mc_trans(1);
	MC_CHECK(r >= 0, "normal", "the operation fails although no allocation fails (errno %d)", errno);
	look(&x, &post);
	done(&x);
	MC_CHECK(mc_live == live0, "leak", "%ld block(s) lost although no allocation fails", mc_live - live0);
	mc_state(mc_hs(mc_hs(MC_H0, pre.s), post.s));
	if (n > 0) mc_nontrivial();
	for (mode = 0; mode < 2; mode++)
		for (k = 1; k <= n; k++) {
			mc_desc("%s, allocation %ld of %ld fails%s", name, k, n, mode ? ", and all the next ones" : "");
			memset(&x, 0, sizeof(x));
			if (o->setup) o->setup(&x, a);
			mc_allocs = mc_failed = 0;
			mc_fail_file = NULL;
			mc_fail_all = mode;
			mc_fail_at = k;
			errno = 0;
			r = o->run(&x, a);
			e = errno;
			mc_fail_at = 0;
			mc_trans(1);
			mc_desc_add(" (%s:%u)", mc_fail_file ? strrchr(mc_fail_file, '/') ? strrchr(mc_fail_file, '/') + 1 : mc_fail_file : "not reached", mc_fail_line);
			mc_outcome(mc_hu(mc_hs(mc_hs(MC_H0, mc_fail_file), name), mc_hu(mc_fail_line, r)));
			look(&x, &cur);
			if (r >= 0) {
				MC_CHECK(!strcmp(cur.s, post.s), "silent", "success is returned, but the result is\n%s\ninstead of\n%s", cur.s, post.s);
			} else {
				if (!any_errno) MC_CHECK(e != 0, "errno", "errno is not set after the failure");
				if (!mayalter) MC_CHECK(!strcmp(cur.s, pre.s), "altered", "after the failure:\n%s\ninstead of the previous state\n%s", cur.s, pre.s);
				r = o->run(&x, a);
				mc_trans(1);
				MC_CHECK(r >= 0, "retry", "the operation still fails once memory is available (errno %d)", errno);
				look(&x, &cur);
				MC_CHECK(!strcmp(cur.s, post.s), "retry-result", "once memory is available the result is\n%s\ninstead of\n%s", cur.s, post.s);
			}
			done(&x);
			if (mc_live != live0 && mc_verbose) mc_track_dump(stderr);
			MC_CHECK(mc_live == live0, "leak", "%ld block(s) lost", mc_live - live0);
		}
}

/* ---- containers -------------------------------------------------------------- */
static char *dup_(const char *s) { return ec_strdup(s); }
static void fill_dict(struct ec_dict *d, int n)
{
	char k[16];
	for (int i = 0; i < n; i++) { snprintf(k, sizeof(k), "k%d", i); if (ec_dict_set(d, k, i & 1 ? NULL : dup_(k), ec_free_func) < 0) mc_bug("fill"); }
}
static void s_dict(struct ctx *x, long n) { x->d = ec_dict(); fill_dict(x->d, n); }
static int r_dict(struct ctx *x, long a) { x->d = ec_dict(); return x->d ? 0 : -1; }
/* on failure the value is released by ec_dict_set(), as documented */
static int r_dict_set(struct ctx *x, long n) { char *v = ec_strdup("v"); if (v == NULL) return -1; return ec_dict_set(x->d, "zz", v, ec_free_func); }
static int r_dict_replace(struct ctx *x, long n) { char *v = ec_strdup("v"); if (v == NULL) return -1; return ec_dict_set(x->d, "k0", v, ec_free_func); }
static int r_dict_null(struct ctx *x, long n) { return ec_dict_set(x->d, "zz", NULL, NULL); }
static int r_dict_dup(struct ctx *x, long n) { x->d2 = ec_dict_dup(x->d); return x->d2 ? 0 : -1; }
static int r_dict_del(struct ctx *x, long n) { return ec_dict_del(x->d, "k0"); }
static void s_htable(struct ctx *x, long n)
{
	char k[16];
	x->h = ec_htable();
	for (int i = 0; i < n; i++) { snprintf(k, sizeof(k), "k%d", i); if (ec_htable_set(x->h, k, strlen(k), dup_(k), ec_free_func) < 0) mc_bug("fill"); }
}
static int r_htable(struct ctx *x, long a) { x->h = ec_htable(); return x->h ? 0 : -1; }
static int r_htable_set(struct ctx *x, long n) { char *v = ec_strdup("v"); if (v == NULL) return -1; return ec_htable_set(x->h, "zz", 2, v, ec_free_func); }
static int r_htable_dup(struct ctx *x, long n) { x->h2 = ec_htable_dup(x->h); return x->h2 ? 0 : -1; }

static void v_copy(void *d, void *s) { *(char **)d = ec_strdup(*(char **)s); }
static void v_free(void *p) { ec_free(*(char **)p); }
static const size_t esz[] = { 1, 2, 4, 8 };
static void s_vec(struct ctx *x, long a)
{
	int n = a / 4, s = a % 4;
	x->v = ec_vec(esz[s], 0, NULL, NULL);
	for (uint64_t i = 0; i < (uint64_t)n; i++) ec_vec_add_by_ref(x->v, &i);
}
static int r_vec(struct ctx *x, long a) { x->v = ec_vec(4, a, NULL, NULL); return x->v ? 0 : -1; }
static int r_vec_add(struct ctx *x, long a) { uint64_t v = 0x77; return ec_vec_add_by_ref(x->v, &v); }
static int r_vec_addt(struct ctx *x, long a)
{
	switch (a % 4) { case 0: return ec_vec_add_u8(x->v, 0x77); case 1: return ec_vec_add_u16(x->v, 0x77); case 2: return ec_vec_add_u32(x->v, 0x77); default: return ec_vec_add_u64(x->v, 0x77); }
}
static int r_vec_dup(struct ctx *x, long a) { x->v2 = ec_vec_dup(x->v); return x->v2 ? 0 : -1; }
static int r_vec_ndup(struct ctx *x, long a) { x->v2 = ec_vec_ndup(x->v, 1, a / 4 - 1); return x->v2 ? 0 : -1; }
static void s_vecs(struct ctx *x, long n)
{
	x->v = ec_vec(sizeof(char *), 0, v_copy, v_free);
	x->vec_strings = 1;
	for (int i = 0; i < n; i++) { char *t = "abc"; ec_vec_add_by_ref(x->v, &t); }
}

static void s_sv(struct ctx *x, long n)
{
	char k[16];
	x->sv = ec_strvec();
	for (int i = 0; i < (n & 63); i++) {
		snprintf(k, sizeof(k), "w%d", i);
		ec_strvec_add(x->sv, k);
		if (n & 64) { struct ec_dict *d = ec_dict(); ec_dict_set(d, k, NULL, NULL); ec_strvec_set_attrs(x->sv, i, d); }
	}
	if (n & 128) x->sv2 = ec_strvec_dup(x->sv);      /* elements are shared */
}
static int r_sv(struct ctx *x, long a) { x->sv = ec_strvec(); return x->sv ? 0 : -1; }
static int r_sv_add(struct ctx *x, long a) { return ec_strvec_add(x->sv, "new"); }
static int r_sv_set(struct ctx *x, long a) { return ec_strvec_set(x->sv, 0, "new"); }
static int r_sv_dup(struct ctx *x, long a) { struct ec_strvec *v = ec_strvec_dup(x->sv); if (v == NULL) return -1; ec_strvec_free(x->sv2); x->sv2 = v; return 0; }
static int r_sv_ndup(struct ctx *x, long a) { struct ec_strvec *v = ec_strvec_ndup(x->sv, 1, (a & 63) - 1); if (v == NULL) return -1; ec_strvec_free(x->sv2); x->sv2 = v; return 0; }
static int r_sv_arr(struct ctx *x, long a) { const char *t[] = { "a", "b", "", "dd", "e" }; x->sv = ec_strvec_from_array(t, a); return x->sv ? 0 : -1; }
static int r_sv_attrs(struct ctx *x, long a)
{
	struct ec_dict *d = ec_dict();
	if (d == NULL) return -1;
	if (ec_dict_set(d, "q", NULL, NULL) < 0) { ec_dict_free(d); return -1; }
	return ec_strvec_set_attrs(x->sv, 0, d);
}
static int r_sv_sort(struct ctx *x, long a) { ec_strvec_sort(x->sv, NULL); return 0; }
static const char *lexs[] = { "", "a", "a b", " a  'b c' \"d\"", "a\\ b", "x # c", "a b ", "'a", "a'b'\"c\"", "''" };
static const ec_strvec_flag_t lexf[] = { 0, EC_STRVEC_TRAILSP, EC_STRVEC_STRICT, EC_STRVEC_STRICT | EC_STRVEC_TRAILSP };
static int r_lex(struct ctx *x, long a)
{
	char *missing = NULL;
	x->sv = ec_strvec_sh_lex_str(lexs[a / 4], lexf[a % 4], &missing);
	return x->sv ? 0 : -1;
}

static void s_conf(struct ctx *x, long a)
{
	x->c1 = ec_node_str("c1", "a");
	x->c = ec_config_dict();
	ec_config_dict_set(x->c, "a", ec_config_i64(5));
	if (a) {
		struct ec_config *l = ec_config_list();
		ec_config_list_add(l, ec_config_string("x"));
		ec_config_list_add(l, ec_config_node(ec_node_clone(x->c1)));
		ec_config_list_add(l, ec_config_bool(true));
		ec_config_dict_set(x->c, "l", l);
		ec_config_dict_set(x->c, "u", ec_config_u64(7));
		ec_config_dict_set(x->c, "s", ec_config_string("txt"));
	}
}
static int r_conf_new(struct ctx *x, long a)
{
	switch (a) {
	case 0: x->k = ec_config_bool(true); break;
	case 1: x->k = ec_config_i64(-3); break;
	case 2: x->k = ec_config_u64(3); break;
	case 3: x->k = ec_config_string("abc"); break;
	case 4: x->k = ec_config_node(ec_node_clone(x->c1)); break;
	case 5: x->k = ec_config_dict(); break;
	case 6: x->k = ec_config_list(); break;
	}
	return x->k ? 0 : -1;
}
static struct ec_config *val(struct ctx *x, int a)
{
	switch (a) {
	case 0: return ec_config_i64(9);
	case 1: return ec_config_string("new");
	case 2: return ec_config_node(ec_node_clone(x->c1));
	default: return ec_config_list();
	}
}
static int r_conf_set(struct ctx *x, long a) { return ec_config_dict_set(x->c, a & 4 ? "a" : "z", val(x, a & 3)); }
static int r_conf_add(struct ctx *x, long a) { return ec_config_list_add(ec_config_dict_get(x->c, "l"), val(x, a & 3)); }
static int r_conf_dup(struct ctx *x, long a) { x->k = ec_config_dup(x->c); return x->k ? 0 : -1; }

static int r_asprintf(struct ctx *x, long a) { return ec_asprintf(&x->s, "%d-%s", 12, "abc") < 0 ? -1 : 0; }
static int r_strdup(struct ctx *x, long a)
{
	x->s = a == 0 ? ec_strdup("abc") : a == 1 ? ec_strndup("abc", 2) : a == 2 ? ec_calloc(1, 5) : NULL;
	return x->s ? 0 : -1;
}
static void s_str(struct ctx *x, long a) { x->s = ec_strdup("abc"); }
static int r_realloc(struct ctx *x, long a) { char *t = ec_realloc(x->s, 100); if (t == NULL) return -1; x->s = t; return 0; }

static void containers(void)
{
	static const struct op o_dict = { NULL, r_dict }, o_set = { s_dict, r_dict_set }, o_rep = { s_dict, r_dict_replace }, o_null = { s_dict, r_dict_null },
		o_dup = { s_dict, r_dict_dup }, o_del = { s_dict, r_dict_del }, o_ht = { NULL, r_htable }, o_hset = { s_htable, r_htable_set }, o_hdup = { s_htable, r_htable_dup },
		o_vec = { NULL, r_vec }, o_vadd = { s_vec, r_vec_add }, o_vaddt = { s_vec, r_vec_addt }, o_vdup = { s_vec, r_vec_dup }, o_vndup = { s_vec, r_vec_ndup },
		o_sv = { NULL, r_sv }, o_svadd = { s_sv, r_sv_add }, o_svset = { s_sv, r_sv_set }, o_svdup = { s_sv, r_sv_dup }, o_svndup = { s_sv, r_sv_ndup },
		o_arr = { NULL, r_sv_arr }, o_attrs = { s_sv, r_sv_attrs }, o_sort = { s_sv, r_sv_sort }, o_lex = { NULL, r_lex },
		o_cnew = { s_conf, r_conf_new }, o_cset = { s_conf, r_conf_set }, o_cadd = { s_conf, r_conf_add }, o_cdup = { s_conf, r_conf_dup },
		o_asp = { NULL, r_asprintf }, o_sd = { NULL, r_strdup }, o_re = { s_str, r_realloc };
	int n, i, f;
#define ONE(o, a, ...) do { if (mc_next()) { explore(&(o), a, __VA_ARGS__); mc_end(); } } while (0)
	ONE(o_dict, 0, "ec_dict()");
	ONE(o_ht, 0, "ec_htable()");
	for (n = 0; n <= 300; n = n < 40 ? n + 1 : n == 40 ? 100 : n < 140 ? n + 1 : n == 140 ? 200 : n < 300 && n >= 200 && n < 262 ? n + 1 : 301) {
		ONE(o_set, n, "ec_dict_set() of a new key in %d", n);
		ONE(o_hset, n, "ec_htable_set() of a new key in %d", n);
		if (n > 40) continue;
		if (n) ONE(o_rep, n, "ec_dict_set() of an existing key in %d", n);
		if (n) ONE(o_del, n, "ec_dict_del() in %d", n);
		ONE(o_null, n, "ec_dict_set() of NULL in %d", n);
		ONE(o_dup, n, "ec_dict_dup() of %d", n);
		ONE(o_hdup, n, "ec_htable_dup() of %d", n);
	}
	for (n = 0; n < 3; n++) ONE(o_vec, n * 3, "ec_vec(4, %d)", n * 3);
	for (n = 0; n <= 40; n++)
		for (i = 0; i < 4; i++) {
			ONE(o_vadd, n * 4 + i, "ec_vec_add_by_ref() on %d elements of size %zu", n, esz[i]);
			ONE(o_vaddt, n * 4 + i, "ec_vec_add_uXX() on %d elements of size %zu", n, esz[i]);
			if (n > 8) continue;
			ONE(o_vdup, n * 4 + i, "ec_vec_dup() of %d elements of size %zu", n, esz[i]);
			if (n) ONE(o_vndup, n * 4 + i, "ec_vec_ndup() of %d elements of size %zu", n, esz[i]);
		}
	ONE(o_sv, 0, "ec_strvec()");
	for (f = 0; f < 256; f += 64)
		for (n = 0; n <= (f ? 9 : 40); n++) {
			ONE(o_svadd, n | f, "ec_strvec_add() on %d%s%s", n, f & 64 ? " with attributes" : "", f & 128 ? ", shared" : "");
			if (n > 9) continue;
			if (n) ONE(o_svset, n | f, "ec_strvec_set() on %d%s%s", n, f & 64 ? " with attributes" : "", f & 128 ? ", shared" : "");
			ONE(o_svdup, n | f, "ec_strvec_dup() of %d%s%s", n, f & 64 ? " with attributes" : "", f & 128 ? ", shared" : "");
			if (n) ONE(o_svndup, n | f, "ec_strvec_ndup() of %d%s%s", n, f & 64 ? " with attributes" : "", f & 128 ? ", shared" : "");
			if (n) ONE(o_attrs, n | f, "ec_strvec_set_attrs() on %d%s%s", n, f & 64 ? " with attributes" : "", f & 128 ? ", shared" : "");
			ONE(o_sort, n | f, "ec_strvec_sort() of %d%s%s", n, f & 64 ? " with attributes" : "", f & 128 ? ", shared" : "");
		}
	for (n = 0; n <= 5; n++) ONE(o_arr, n, "ec_strvec_from_array(%d)", n);
	for (i = 0; i < (int)(sizeof(lexs) / sizeof(*lexs)); i++)
		for (f = 0; f < 4; f++) {
			if (i == 7 && (f & 2)) continue;    /* refused */
			ONE(o_lex, i * 4 + f, "ec_strvec_sh_lex_str(\"%s\", %d)", lexs[i], lexf[f]);
		}
	for (i = 0; i < 7; i++) ONE(o_cnew, i, "configuration value of kind %d", i);
	for (i = 0; i < 8; i++) ONE(o_cset, i, "ec_config_dict_set() %d", i);
	for (i = 0; i < 4; i++) ONE(o_cadd, 8 | i, "ec_config_list_add() %d", i);
	for (i = 0; i < 2; i++) ONE(o_cdup, i, "ec_config_dup() %d", i);
	ONE(o_asp, 0, "ec_asprintf()");
	for (i = 0; i < 3; i++) ONE(o_sd, i, "ec_strdup/strndup/calloc %d", i);
	ONE(o_re, 0, "ec_realloc()");
}

/* ---- nodes --------------------------------------------------------------------- */
static const char *const pr_std[] = { "0", "a", "a|b", "b|a", "", "c|d|a", NULL };
static const char *const pr_lex[] = { "a b", "a ", "'a' b", "", "b a", NULL };
static const char *const pr_expr[] = { "0", "a", "a|+|a", "(|a|)", "!|a", "a|x", "a|+|", NULL };
static void s_child(struct ctx *x, long a)
{
	x->c1 = ec_node_str("c1", "a");
	x->c2 = ec_node_str("c2", "b");
	x->c3 = ec_node_many("c3", ec_node_str("c3s", "c"), 0, 0);
	x->probe = pr_std;
}
#define C1 ec_node_clone(x->c1)
#define C2 ec_node_clone(x->c2)
#define C3 ec_node_clone(x->c3)
static struct ec_node *dyn_build(struct ec_pnode *p, void *o) { return ec_node_str("dyn", "a"); }
static struct ec_node *dyn_seq(struct ec_pnode *p, void *o) { return EC_NODE_SEQ("dyn", ec_node_str("d1", "a"), ec_node_option("d2", ec_node_str("d3", "b"))); }
static struct ec_node *mk_expr(int fresh, struct ctx *x)
{
	struct ec_node *n = ec_node("expr", "x");
	if (n == NULL) return NULL;
	if (ec_node_expr_set_val_node(n, fresh ? ec_node_str("v", "a") : C1) < 0) goto fail;
	if (ec_node_expr_add_bin_op(n, fresh ? ec_node_str("+", "+") : C2) < 0) goto fail;
	if (ec_node_expr_add_pre_op(n, ec_node_str("!", "!")) < 0) goto fail;
	if (ec_node_expr_add_post_op(n, ec_node_str("x", "x")) < 0) goto fail;
	if (ec_node_expr_add_parenthesis(n, ec_node_str("(", "("), ec_node_str(")", ")")) < 0) goto fail;
	return n;
fail:
	ec_node_free(n);
	return NULL;
}
static struct ec_node *mk_re_lex(struct ec_node *child)
{
	struct ec_node *n = ec_node_re_lex("x", child);
	if (n == NULL) return NULL;
	if (ec_node_re_lex_add(n, "[a-z]+", 1, "word") < 0 || ec_node_re_lex_add(n, "[ ]+", 0, NULL) < 0 || ec_node_re_lex_add(n, "[0-9]+", 1, NULL) < 0) {
		ec_node_free(n);
		return NULL;
	}
	return n;
}
static struct ec_node *mk_node(struct ctx *x, int a)
{
	switch (a) {
	case 0: return ec_node("seq", "x");
	case 1: return ec_node("empty", "x");
	case 2: return ec_node_str("x", "a");
	case 3: return ec_node_any("x", NULL);
	case 4: return ec_node_any("x", "attr");
	case 5: return ec_node_int("x", 0, 10, 10);
	case 6: return ec_node_uint("x", 0, 10, 10);
	case 7: return ec_node_re("x", "a|b");
	case 8: return ec_node_option("x", C1);
	case 9: return ec_node_once("x", C1);
	case 10: return ec_node_bypass("x", C1);
	case 11: return ec_node_many("x", C1, 0, 2);
	case 12: return EC_NODE_SEQ("x", C1, C2, C3);
	case 13: return EC_NODE_OR("x", C1, C2, C3);
	case 14: return EC_NODE_SUBSET("x", C1, C2, C3);
	case 15: return ec_node_sh_lex("x", C3);
	case 16: return ec_node_re_lex("x", C3);
	case 17: return ec_node_cond("x", "cmp(eq, count(find(root(), c1)), 1)", C1);
	case 18: return EC_NODE_CMD("x", "c1 [c2] (foo|bar) c3", C1, C2, C3);
	case 19: return ec_node_dynamic("x", dyn_build, NULL);
	case 20: return ec_node("file", "x");
	case 21: return mk_expr(0, x);
	case 22: return mk_re_lex(C3);
	case 23: return EC_NODE_SEQ("x", C1, C1, C1);
	case 24: return EC_NODE_CMD("x", "a,b,c* (a|b|c)+ [a [b]]");
	case 25: return ec_node("cond", "x");
	case 26: return ec_node("cmd", "x");
	case 27: return ec_node("expr", "x");
	case 28: return ec_node("space", "x");
	case 29: return EC_NODE_SEQ("x");
	case 30: return EC_NODE_OR("x");
	case 31: return EC_NODE_SUBSET("x");
	case 32: return EC_NODE_CMD("x", "c1, c2, (c1 | c3)", C1, C2, C3);
	/* everything at once, as an application writes it */
	case 40: return EC_NODE_SEQ("x", ec_node_str("s", "a"), ec_node_str("t", "b"));
	case 41: return EC_NODE_OR("x", ec_node_str("s", "a"), ec_node_str("t", "b"), ec_node_any("y", NULL));
	case 42: return EC_NODE_SUBSET("x", ec_node_str("s", "a"), ec_node_str("t", "b"), ec_node_str("u", "c"));
	case 43: return ec_node_option("x", ec_node_str("s", "a"));
	case 44: return ec_node_once("x", ec_node_str("s", "a"));
	case 45: return ec_node_bypass("x", ec_node_str("s", "a"));
	case 46: return ec_node_many("x", ec_node_option("y", ec_node_str("s", "a")), 1, 2);
	case 47: return ec_node_sh_lex("x", EC_NODE_SEQ("y", ec_node_str("s", "a"), ec_node_str("t", "b")));
	case 48: return mk_re_lex(EC_NODE_SEQ("y", ec_node_str("s", "a"), ec_node_str("t", "b")));
	case 49: return ec_node_cond("x", "true()", EC_NODE_SEQ("y", ec_node_str("s", "a"), ec_node_str("t", "b")));
	case 50: return EC_NODE_CMD("x", "s t [u]", ec_node_str("s", "a"), ec_node_str("t", "b"), ec_node_str("u", "c"));
	case 51: return mk_expr(1, x);
	case 52: return EC_NODE_SEQ("x", EC_NODE_OR("o", ec_node_str("s", "a"), ec_node_str("t", "b")), EC_NODE_SUBSET("q", ec_node_str("u", "a"), ec_node_str("v", "d")));
	}
	return NULL;
}
static int r_node(struct ctx *x, long a) { x->node = mk_node(x, a); return x->node ? 0 : -1; }

static void s_grow(struct ctx *x, long a)
{
	int n = a / 8, i;
	s_child(x, 0);
	switch (a % 8) {
	case 0: x->node = ec_node("seq", "x"); for (i = 0; i < n; i++) ec_node_seq_add(x->node, C1); break;
	case 1: x->node = ec_node("or", "x"); for (i = 0; i < n; i++) ec_node_or_add(x->node, C1); break;
	case 2: x->node = ec_node("subset", "x"); for (i = 0; i < n; i++) ec_node_subset_add(x->node, C1); break;
	}
}
static int r_grow(struct ctx *x, long a)
{
	switch (a % 8) {
	case 0: return ec_node_seq_add(x->node, C2);
	case 1: return ec_node_or_add(x->node, C2);
	default: return ec_node_subset_add(x->node, C2);
	}
}
static void s_set(struct ctx *x, long a)
{
	int had = a & 1;
	s_child(x, 0);
	switch (a / 2) {
	case 0: x->node = had ? ec_node_option("x", C1) : ec_node("option", "x"); break;
	case 1: x->node = had ? ec_node_once("x", C1) : ec_node("once", "x"); break;
	case 2: x->node = had ? ec_node_bypass("x", C1) : ec_node("bypass", "x"); break;
	case 3: x->node = had ? ec_node_many("x", C1, 0, 1) : ec_node("many", "x"); break;
	case 4: x->node = had ? ec_node_str("x", "a") : ec_node("str", "x"); break;
	case 5: x->node = had ? ec_node_re("x", "a") : ec_node("re", "x"); break;
	case 6: x->node = ec_node_re_lex("x", C3); if (had) ec_node_re_lex_add(x->node, "[a-z]+", 1, "foo"); x->probe = pr_lex; break;
	case 7: x->node = ec_node_re_lex("x", C3); if (had) ec_node_re_lex_add(x->node, "[a-z]+", 1, NULL); x->probe = pr_lex; break;
	}
	if (!had && a / 2 < 6) x->probe = NULL;       /* not usable yet */
}
static int r_set(struct ctx *x, long a)
{
	switch (a / 2) {
	case 0: return ec_node_option_set_child(x->node, C2);
	case 1: return ec_node_once_set_child(x->node, C2);
	case 2: return ec_node_bypass_set_child(x->node, C2);
	case 3: return ec_node_many_set_params(x->node, C2, 1, 3);
	case 4: return ec_node_str_set_str(x->node, "bb");
	case 5: return ec_node_re_set_regexp(x->node, "b+");
	case 6: return ec_node_re_lex_add(x->node, "[0-9]+", 1, "num");
	case 7: return ec_node_re_lex_add(x->node, "[0-9]+", 0, NULL);
	}
	return -1;
}
/* expressions: the first n calls are done, the next one is observed */
static int expr_step(struct ctx *x, int i)
{
	switch (i) {
	case 0: return ec_node_expr_set_val_node(x->node, C1);
	case 1: return ec_node_expr_add_bin_op(x->node, ec_node_str("+", "+"));
	case 2: return ec_node_expr_add_pre_op(x->node, ec_node_str("!", "!"));
	case 3: return ec_node_expr_add_post_op(x->node, ec_node_str("x", "x"));
	case 4: return ec_node_expr_add_parenthesis(x->node, ec_node_str("(", "("), ec_node_str(")", ")"));
	case 5: return ec_node_expr_add_bin_op(x->node, C2);
	case 6: return ec_node_expr_add_pre_op(x->node, C2);
	case 7: return ec_node_expr_add_post_op(x->node, C2);
	case 8: return ec_node_expr_add_parenthesis(x->node, C2, C2);
	case 9: return ec_node_expr_set_val_node(x->node, C2);
	}
	return -1;
}
static void s_expr(struct ctx *x, long a)
{
	int i, n = a / 16;
	s_child(x, 0);
	x->node = ec_node("expr", "x");
	for (i = 0; i < n; i++) if (expr_step(x, i) < 0) mc_bug("expr");
	x->probe = n >= 1 ? pr_expr : NULL;
}
static int r_expr(struct ctx *x, long a) { return expr_step(x, a % 16); }

/* configurations */
static struct ec_config *mk_conf(struct ctx *x, int t, int k, const char **type)
{
	struct ec_config *c = ec_config_dict(), *l;
#define SET(key, v) if (ec_config_dict_set(c, key, v) < 0) goto fail
#define ADD(v) if (ec_config_list_add(l, v) < 0) { ec_config_free(l); goto fail; }
	if (c == NULL) return NULL;
	switch (t) {
	case 0: *type = "str"; SET("string", ec_config_string(k ? "a" : "b")); break;
	case 1: *type = "any"; if (k) SET("attr", ec_config_string("foo")); break;
	case 2: *type = "int"; SET("min", ec_config_i64(k)); SET("max", ec_config_i64(10 + k)); break;
	case 3: *type = "uint"; SET("min", ec_config_u64(k)); if (k) SET("base", ec_config_u64(16)); break;
	case 4: *type = "re"; SET("pattern", ec_config_string(k ? "a+" : "b+")); break;
	case 5: *type = "option"; SET("child", ec_config_node(k ? C1 : C2)); break;
	case 6: *type = "once"; SET("child", ec_config_node(k ? C1 : C2)); break;
	case 7: *type = "bypass"; SET("child", ec_config_node(k ? C1 : C2)); break;
	case 8: *type = "many"; SET("child", ec_config_node(k ? C1 : C2)); SET("min", ec_config_u64(k)); SET("max", ec_config_u64(3)); break;
	case 9: case 10: case 11:
		*type = t == 9 ? "seq" : t == 10 ? "or" : "cmd";
		if ((l = ec_config_list()) == NULL) goto fail;
		ADD(ec_config_node(C1));
		ADD(ec_config_node(C2));
		if (k) ADD(ec_config_node(C3));
		SET("children", l);
		if (t == 11) SET("expr", ec_config_string(k ? "c1 [c3]" : "c2|c1"));
		break;
	case 12: *type = "cond"; SET("expr", ec_config_string(k ? "true()" : "cmp(eq, count(find(root(), c1)), 1)")); SET("child", ec_config_node(C1)); break;
	case 13: {
		struct ec_config *d;
		*type = "re_lex";
		if ((l = ec_config_list()) == NULL) goto fail;
		for (int i = 0; i <= k; i++) {
			if ((d = ec_config_dict()) == NULL) { ec_config_free(l); goto fail; }
			if (ec_config_dict_set(d, "pattern", ec_config_string(i ? "[ ]+" : "[a-z]+")) < 0 || ec_config_dict_set(d, "keep", ec_config_bool(!i)) < 0 ||
			    (!i && ec_config_dict_set(d, "attr", ec_config_string("word")) < 0)) { ec_config_free(d); ec_config_free(l); goto fail; }
			ADD(d);
		}
		SET("patterns", l);
		SET("child", ec_config_node(C3));
		break;
	}
	default: ec_config_free(c); return NULL;
	}
	return c;
fail:
	ec_config_free(c);
	return NULL;
}
#define NCONF 14
static void s_nconf(struct ctx *x, long a)
{
	const char *type = NULL;
	struct ec_config *c;
	s_child(x, 0);
	c = mk_conf(x, a / 4, 0, &type);
	x->node = ec_node(type, "x");
	if (a & 1) { if (ec_node_set_config(x->node, c) < 0) mc_bug("config"); }
	else { ec_config_free(c); x->probe = NULL; }
	if (a / 4 == 13 && x->probe) x->probe = pr_lex;
}
static int r_nconf(struct ctx *x, long a)
{
	const char *type;
	struct ec_config *c = mk_conf(x, a / 4, !!(a & 2), &type);
	if (c == NULL) return -1;
	return ec_node_set_config(x->node, c);     /* the configuration is consumed */
}
static void s_attr(struct ctx *x, long a) { x->node = ec_node_str("x", "a"); x->probe = pr_std; }
static int r_attr(struct ctx *x, long a)
{
	char *v = ec_strdup("help");
	if (v == NULL) return -1;
	return ec_dict_set(ec_node_attrs(x->node), "help", v, ec_free_func);
}
static int r_typed(struct ctx *x, long a)
{
	x->node = ec_node_from_type(ec_node_type_lookup("str"), "x");
	x->probe = NULL;
	return x->node ? 0 : -1;
}
static void nodes(void)
{
	static const struct op o_node = { s_child, r_node }, o_grow = { s_grow, r_grow }, o_set = { s_set, r_set }, o_expr = { s_expr, r_expr },
		o_conf = { s_nconf, r_nconf }, o_attr = { s_attr, r_attr }, o_typed = { s_child, r_typed };
	static const char *const gt[] = { "seq", "or", "subset" }, *const st[] = { "option", "once", "bypass", "many", "str", "re", "re_lex with attribute", "re_lex" };
	int a, n, i;
	for (a = 0; a <= 52; a++) {
		if (a == 33) a = 40;
		ONE(o_node, a, "construction of node %d", a);
	}
	for (n = 0; n <= 12; n++)
		for (i = 0; i < 3; i++) ONE(o_grow, n * 8 + i, "addition of a child to a %s of %d", gt[i], n);
	for (i = 0; i < 16; i++) ONE(o_set, i, "%s of a%s %s node", i / 2 == 4 || i / 2 == 5 || i / 2 >= 6 ? "update" : "child", i & 1 ? " configured" : "n unconfigured", st[i / 2]);
	for (n = 0; n <= 5; n++)
		for (i = 0; i <= 9; i++) {
			if (i == n || i >= 5) ONE(o_expr, n * 16 + i, "expression with the %d first parts, call %d", n, i);
		}
	for (a = 0; a < NCONF * 4; a++) ONE(o_conf, a, "configuration %d of type %d, %s", !!(a & 2), a / 4, a & 1 ? "already configured" : "not configured");
	ONE(o_attr, 0, "node attribute");
	ONE(o_typed, 0, "ec_node_from_type()");
}

/* ---- parsing and completing ------------------------------------------------------- */
static struct gram G_;
static struct ec_node *G_node;
static const char *G_in;
static void s_in(struct ctx *x, long a) { x->sv = words(G_in); }
static int r_parse(struct ctx *x, long a) { x->p = ec_parse_strvec(G_node, x->sv); return x->p ? 0 : -1; }
static int r_complete(struct ctx *x, long a) { x->comp = ec_complete_strvec(G_node, x->sv); return x->comp ? 0 : -1; }
static int r_parse1(struct ctx *x, long a) { x->p = ec_parse(G_node, G_in); return x->p ? 0 : -1; }
static int r_complete1(struct ctx *x, long a) { x->comp = ec_complete(G_node, G_in); return x->comp ? 0 : -1; }
/* copy of a parse tree, at each of its nodes */
static void s_tree(struct ctx *x, long a)
{
	struct ec_pnode *p;
	struct ec_strvec *v = words(G_in);
	x->p = ec_parse_strvec(G_node, v);
	ec_strvec_free(v);
	for (p = x->p; a > 0 && p != NULL; a--) p = EC_PNODE_ITER_NEXT(x->p, p, 1);
	if (p != NULL) x->p = p;
}
static int r_tree(struct ctx *x, long a) { x->p2 = ec_pnode_dup(x->p); return x->p2 ? 0 : -1; }
static const struct op o_parse = { s_in, r_parse }, o_complete = { s_in, r_complete }, o_parse1 = { NULL, r_parse1 }, o_complete1 = { NULL, r_complete1 },
	o_tree = { s_tree, r_tree };

static struct mc_buf gb;
static const char *const in_std[] = { "0", "a", "ab", "", "a|a", "a|ab", "ab|a", "a|", "c|a", "a|a|a", NULL };
static const char *const in_kinds[] = { "0", "a", "", " ", "4", "a b", "4|a", "a|7", " |a", NULL };
static const char *const *G_ins = in_std;
static struct ec_node *fb(const struct ast *a, int variadic);
/* fault tolerant construction, as applications do it: an error of a part is passed on */
static struct ec_node *fb(const struct ast *a, int variadic)
{
	struct ec_node *n, *c;
	switch (a->k) {
	case G_SHARED: case G_STR: return ec_node_str("s", a->k == G_SHARED ? "a" : a->s);
	case G_ANY: return ec_node_any("y", "at");
	case G_EMPTY: return ec_node("empty", "e");
	case G_NONE: return ec_node("none", "n");
	case G_SPACE: return ec_node("space", "p");
	case G_INT: return ec_node_int("i", a->min, a->max, 10);
	case G_OPTION: return ec_node_option("o", fb(a->ch[0], variadic));
	case G_MANY: return ec_node_many("m", fb(a->ch[0], variadic), a->min, a->max);
	case G_ONCE: return ec_node_once("q", fb(a->ch[0], variadic));
	case G_BYPASS: return ec_node_bypass("b", fb(a->ch[0], variadic));
	case G_SEQ: case G_OR: case G_SUBSET:
		if (variadic) {
#define FV(f) (a->n == 0 ? f("x", EC_VA_END) : a->n == 1 ? f("x", fb(a->ch[0], 1), EC_VA_END) : a->n == 2 ? f("x", fb(a->ch[0], 1), fb(a->ch[1], 1), EC_VA_END) : \
		f("x", fb(a->ch[0], 1), fb(a->ch[1], 1), fb(a->ch[2], 1), EC_VA_END))
			return a->k == G_SEQ ? FV(__ec_node_seq) : a->k == G_OR ? FV(__ec_node_or) : FV(__ec_node_subset);
		}
		n = ec_node(a->k == G_SEQ ? "seq" : a->k == G_OR ? "or" : "subset", "x");
		if (n == NULL) return NULL;
		for (int i = 0; i < a->n; i++) {
			c = fb(a->ch[i], 0);
			if ((a->k == G_SEQ ? ec_node_seq_add(n, c) : a->k == G_OR ? ec_node_or_add(n, c) : ec_node_subset_add(n, c)) < 0) {
				ec_node_free(n);
				return NULL;
			}
		}
		return n;
	default: mc_bug("fb");
	}
}
static const struct ast *G_ast;
static int r_fb(struct ctx *x, long a) { x->node = fb(G_ast, a); return x->node ? 0 : -1; }
static const struct op o_fb = { NULL, r_fb };
static int only_rec;
static void one_gram(const struct ast *a)
{
	if (only_rec && !a->has_root) return;
	if (!mc_next()) return;
	mc_buf_reset(&gb);
	ast_text(&gb, a);
	mc_desc("grammar %s", gb.s);
	if (!a->has_root) {
		G_ast = a;
		explore(&o_fb, 0, "construction with _add() of grammar %s", gb.s);
		explore(&o_fb, 1, "variadic construction of grammar %s", gb.s);
	}
	if (gram_build(&G_, a, 0) < 0) mc_fail("build", "cannot build the grammar");
	G_node = G_.node;
	for (int i = 0; G_ins[i]; i++) {
		const char *tok[4];
		struct ec_strvec *v = words(G_ins[i]);
		int n = ec_strvec_len(v), d;
		struct rcomp rc = { 0 };
		for (int j = 0; j < n; j++) tok[j] = ec_strvec_val(v, j);
		d = ref_parse(&G_, tok, n, NULL) == R_DIVERGE;
		if (!d) d = ref_complete(&G_, tok, n, &rc) == R_DIVERGE;
		rcomp_free(&rc);
		ec_strvec_free(v);
		if (d) continue;        /* left recursion */
		G_in = G_ins[i];
		explore(&o_parse, 0, "parse of <%s> by %s", G_in, gb.s);
		explore(&o_complete, 0, "completion of <%s> by %s", G_in, gb.s);
	}
	gram_free(&G_);
	mc_end();
}
static const struct ast lf[] = { { .k = G_STR, .s = "a" }, { .k = G_STR, .s = "ab" }, { .k = G_ANY }, { .k = G_EMPTY }, { .k = G_NONE }, { .k = G_SHARED } };
static const struct ast uf[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_MANY, .min = 1 }, { .k = G_MANY, .min = 1, .max = 2 }, { .k = G_ONCE }, { .k = G_BYPASS } };
static const enum gk nf[] = { G_SEQ, G_OR, G_SUBSET };
static const struct alphabet al_f = { lf, 6, uf, 6, nf, 3, 3 };
static const struct ast ls[] = { { .k = G_STR, .s = "a" }, { .k = G_ANY } };
static const struct ast us[] = { { .k = G_OPTION }, { .k = G_MANY }, { .k = G_ONCE } };
static const struct alphabet al_s = { ls, 2, us, 3, nf, 3, 3 };
static const struct ast lr[] = { { .k = G_STR, .s = "a" }, { .k = G_ROOT } };
static const struct alphabet al_r = { lr, 2, us, 3, nf, 3, 3 };
static const struct ast lk[] = { { .k = G_STR, .s = "" }, { .k = G_STR, .s = "a" }, { .k = G_SPACE }, { .k = G_INT, .min = 3, .max = 12 }, { .k = G_ANY } };
static const struct alphabet al_k = { lk, 5, us, 3, nf, 2, 2 };
static void grams(void)
{
	int i, full = mc_thorough ? 3 : 2, small = mc_thorough ? 4 : 3, rec = mc_thorough ? 4 : 3;
	for (i = 1; i <= full; i++) ast_enum(&al_f, i, one_gram);
	for (; i <= small; i++) ast_enum(&al_s, i, one_gram);
	only_rec = 1;
	for (i = 2; i <= rec; i++) ast_enum(&al_r, i, one_gram);
	only_rec = 0;
	G_ins = in_kinds;
	for (i = 1; i <= (mc_thorough ? 3 : 2); i++) ast_enum(&al_k, i, one_gram);
}

/* grammars of the other node types */
static struct ec_node *other(int i, const char *const **ins)
{
	static const char *const lex1[] = { "a b", "a", "", "a ", "'a", "\"a\" 'b", "a b c", "'a b'", NULL };
	static const char *const ex[] = { "a", "a|+|a", "(|a|)", "!|a|x", "a|+|", "", "a|x|x", "(|a", "(|!|a|)|x", "0", NULL };
	static const char *const cmd[] = { "a", "a|b", "foo", "a|foo|b", "", "a|", "a|b|c", "foo|bar", NULL };
	static const char *const fil[] = { "dir/", "dir/f", "./dir/", "", "x|dir", "nodir/", "/", NULL };
	struct ec_node *n;
	struct ctx X = { 0 }, *x = &X;
	s_child(x, 0);
	switch (i) {
	case 0: n = ec_node_sh_lex("x", EC_NODE_SEQ("y", C1, ec_node_option("o", C2))); *ins = lex1; break;
	case 1: n = mk_re_lex(EC_NODE_SEQ("y", C1, ec_node_option("o", C2))); *ins = lex1; break;
	case 2: n = ec_node_sh_lex("x", EC_NODE_CMD("y", "c1 [c2] foo*", C1, C2)); *ins = lex1; break;
	case 3: n = mk_expr(1, x); *ins = ex; break;
	case 4: n = EC_NODE_CMD("x", "a, b, [foo] (bar|c)*"); *ins = cmd; break;
	case 5: n = EC_NODE_CMD("x", "c1 (c2|foo)+ c3", C1, C2, C3); *ins = cmd; break;
	case 6: n = EC_NODE_SEQ("x", ec_node_option("o", C1), ec_node_cond("cd", "cmp(eq, count(find(root(), c1)), 1)", ec_node_any("y", NULL))); *ins = cmd; break;
	case 7: n = EC_NODE_OR("x", ec_node_cond("cd", "or(cmp(gt, count(first_child(root())), 5), and(bool(current()), cmp(eq, a, a)))", C1), ec_node_any("y", "at")); *ins = cmd; break;
	case 8: n = EC_NODE_SEQ("x", ec_node_dynamic("d1", dyn_seq, NULL), ec_node_dynamic("d2", dyn_build, NULL)); *ins = cmd; break;
	case 9: n = EC_NODE_OR("x", ec_node_re("r", "a+"), ec_node_uint("u", 0, 10, 10), ec_node("space", "sp")); *ins = cmd; break;
	case 10: n = EC_NODE_SEQ("x", ec_node_option("o", ec_node_str("xs", "x")), ec_node("file", "f")); *ins = fil; break;
	case 11: n = ec_node_sh_lex("x", ec_node_many("m", EC_NODE_OR("o", ec_node_str("s1", "a b"), ec_node_once("q", ec_node_str("s2", "b'c")), ec_node("file", "f")), 0, 0)); *ins = lex1; break;
	case 12: n = mk_re_lex(ec_node_many("m", ec_node_any("w", "word"), 0, 0)); *ins = lex1; break;
	case 13: n = ec_node_many("x", EC_NODE_SUBSET("s", ec_node_once("q", C1), C2, C3), 0, 0); *ins = cmd; break;
	case 14: n = EC_NODE_SEQ("x", ec_node_cond("cd", "cmp(eq, first_child(root()), current())", C1), C2); *ins = cmd; break;
	case 15: n = EC_NODE_SEQ("x", ec_node_cond("cd", "cmp(ne, find(root(), cd), root(), 4)", C1), C2); *ins = cmd; break;
	default: n = NULL;
	}
	ec_node_free(x->c1); ec_node_free(x->c2); ec_node_free(x->c3);
	return n;
}
static void others(void)
{
	const char *const *ins;
	static const char *const file[] = { "dir/f1", "dir/f2x", "dir/g h" };
	mkdir("dir", 0700); mkdir("dir/fd", 0700);
	for (int i = 0; i < 3; i++) close(open(file[i], O_CREAT | O_WRONLY, 0600));
	for (int i = 0; i <= 15; i++) {
		struct ec_node *n = G_node = other(i, &ins);
		if (n == NULL) mc_bug("cannot build grammar %d", i);
		for (int k = 0; ins[k]; k++) {
			if (!mc_thorough && strlen(ins[k]) > 9) continue;
			if (!mc_next()) continue;
			G_in = ins[k];
			if (i == 15) {       /* bad condition: always an error */
				struct ec_strvec *v = words(G_in);
				for (long f = 0; f < 60; f++) {
					long live0 = mc_live;
					mc_desc("parse of <%s> by grammar %d, allocation %ld fails", G_in, i, f);
					mc_allocs = 0;
					mc_fail_at = f;
					ec_pnode_free(ec_parse_strvec(n, v));
					mc_fail_at = 0;
					mc_trans(1);
					MC_CHECK(mc_live == live0, "leak", "%ld block(s) lost", mc_live - live0);
				}
				ec_strvec_free(v);
				mc_end();
				continue;
			}
			explore(&o_parse, 0, "parse of <%s> by grammar %d", G_in, i);
			explore(&o_complete, 0, "completion of <%s> by grammar %d", G_in, i);
			if (!strchr(G_in, '|')) {
				explore(&o_parse1, 0, "ec_parse() of <%s> by grammar %d", G_in, i);
				explore(&o_complete1, 0, "ec_complete() of <%s> by grammar %d", G_in, i);
			}
			if (k < 3) for (int a = 0; a < 4; a++)
				explore(&o_tree, a, "copy of the parse tree of <%s> by grammar %d from its node %d", G_in, i, a);
			mc_end();
		}
		ec_node_free(n);
	}
}

/* ---- completion lists, from the callback of a node type -------------------------- */
static int sc_script, sc_retry;
static int sc_parse(const struct ec_node *n, struct ec_pnode *p, const struct ec_strvec *v) { return ec_strvec_len(v) ? 1 : EC_PARSE_NOMATCH; }
static struct ec_node *sc_sub, *sc_dyn;
/* each call that fails is made again, or ends the callback */
#define TRY(e) do { if ((e)) break; if (!sc_retry || (e) == 0) return -1; } while (0)
static int sc_step(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v, int k)
{
	struct ec_comp_item *it = NULL;
	struct ec_comp *c2;
	char *t;
	switch (k) {
	case 0: TRY(ec_comp_add_item(c, n, EC_COMP_FULL, "f", "full")); break;
	case 1: TRY(ec_comp_add_item(c, n, EC_COMP_PARTIAL, "x", "part")); break;
	case 2: TRY(ec_comp_add_item(c, n, EC_COMP_UNKNOWN, NULL, NULL)); break;
	case 3:
		TRY(it = ec_comp_add_item(c, n, EC_COMP_FULL, NULL, "set"));
		TRY(ec_comp_item_set_str(it, "S") == 0);
		TRY(ec_comp_item_set_display(it, "D") == 0);
		TRY(ec_comp_item_set_completion(it, "C") == 0);
		break;
	case 4: if (ec_complete_child(sc_sub, c, v) < 0) return -1; break;      /* may have added a part of its items */
	case 5:      /* the source is consumed in all cases */
		TRY((c2 = ec_complete_strvec(sc_sub, v)) != NULL);
		if (ec_comp_merge(c, c2) < 0) return -1;
		break;
	case 6:
		TRY((c2 = ec_complete_strvec(sc_dyn, v)) != NULL);
		if (ec_comp_merge(c, c2) < 0) return -1;
		break;
	case 7:
		TRY((t = ec_strdup("v")) != NULL);
		if (ec_dict_set(ec_comp_get_attrs(c), "attr", t, ec_free_func) < 0) return -1;
		break;
	}
	return 0;
}
static int sc_complete(const struct ec_node *n, struct ec_comp *c, const struct ec_strvec *v)
{
	for (int s = sc_script; s > 0; s /= 9)
		if (sc_step(n, c, v, s % 9 - 1) < 0) return -1;
	return 0;
}
static struct ec_node_type sc_type = { .name = "scripted", .parse = sc_parse, .complete = sc_complete };
static void lists(void)
{
	int n = mc_thorough ? 9 * 9 * 9 * 9 : 9 * 9 * 9;
	struct ec_node *x = ec_node_from_type(&sc_type, "sc"), *y = EC_NODE_SEQ("sq", ec_node_option("op", ec_node_str("a", "z")), ec_node_clone(x));
	sc_sub = EC_NODE_OR("sub", ec_node_str("s1", "foo"), ec_node_any("s2", NULL));
	sc_dyn = EC_NODE_OR("sub", ec_node_str("s1", "foo"), ec_node_dynamic("dd", dyn_seq, NULL));
	G_in = "";
	for (sc_retry = 0; sc_retry < 2; sc_retry++)
		for (sc_script = 1; sc_script < n; sc_script++) {
			int s = sc_script;
			while (s % 9) s /= 9;
			if (s) continue;         /* 0 is no step */
			if (!mc_next()) continue;
			G_node = x;
			explore(&o_complete, 0, "list of the script %d%s", sc_script, sc_retry ? ", failed calls are made again" : "");
			G_node = y;
			explore(&o_complete, 0, "list of the script %d in a sequence%s", sc_script, sc_retry ? ", failed calls are made again" : "");
			mc_end();
		}
	ec_node_free(x); ec_node_free(y); ec_node_free(sc_sub); ec_node_free(sc_dyn);
}

/* ---- YAML ----------------------------------------------------------------------- */
static const char *const docs[] = {
	"{type: str, string: foo}",
	"{type: any, id: a, help: some help, attr: foo}",
	"type: seq\nid: x\nhelp: h\nchildren:\n- &s {type: str, id: c1, string: a}\n- {type: option, child: *s}\n- {type: int, min: -3, max: 10, base: 10}\n",
	"{type: or, children: [{type: uint, min: 1, max: 7}, {type: re, pattern: 'a+'}, {type: many, child: {type: str, string: a}, min: 0, max: 1}, {type: once, child: {type: any}}]}",
	"{type: option, child: {type: cmd, expr: 'a [b] c1', children: [{type: bypass, id: c1, child: {type: str, string: b}}]}}",
	"{type: cond, expr: 'cmp(eq, count(root()), 1)', child: {type: str, string: a}}",
	"{type: re_lex, patterns: [{pattern: '[a-z]+', keep: true, attr: word}, {pattern: '[ ]+', keep: false}], child: {type: any, attr: word}}",
	"&a {type: option, id: o, child: {type: seq, children: [{type: str, string: a}, {type: str, string: b}]}}",
	"&a {type: seq, children: [{type: str, string: a}, {type: option, child: *a}]}",
	"{type: expr, val_node: {type: int}, bin_ops: [{type: str, string: +}], pre_ops: [], post_ops: [], parentheses: []}",
};
static const char *const bad_docs[] = { "{type: str}", "{type: zz}", "[]", "{type: str, string: foo", "{type: int, min: a}", "{type: seq, children: [{type: str, string: a}, {type: b}]}",
	"{type: str, string: foo, foo: bar}", "{type: option, child: {type: option, child: 3}}", "{a}" };
static char docf[64];
static void doc(const char *t) { FILE *f; snprintf(docf, sizeof(docf), "d%d.yaml", (int)getpid()); f = fopen(docf, "w"); if (!f || fputs(t, f) < 0 || fclose(f)) mc_bug("document"); }
static int r_yaml(struct ctx *x, long a) { x->node = ec_yaml_import(docf); x->probe = a ? pr_std : NULL; return x->node ? 0 : -1; }
static void yaml(void)
{
	static const struct op o_yaml = { NULL, r_yaml };
	long f, live0;
	for (int i = 0; i < (int)(sizeof(docs) / sizeof(*docs)) - 1; i++) {
		if (!mc_next()) continue;
		doc(docs[i]);
		explore(&o_yaml, 1, "import of %s", docs[i]);
		mc_end();
	}
	for (int i = 0; i < (int)(sizeof(bad_docs) / sizeof(*bad_docs)); i++) {
		if (!mc_next()) continue;
		doc(bad_docs[i]);
		for (int mode = 0; mode < 2; mode++)
			for (f = 0; f < 200; f++) {
				struct ec_node *n;
				mc_desc("import of %s, allocation %ld fails%s", bad_docs[i], f, mode ? " and the next ones" : "");
				mc_track_mark();
				live0 = mc_live;
				mc_allocs = 0;
				mc_fail_all = mode;
				mc_fail_at = f;
				errno = 0;
				n = ec_yaml_import(docf);
				mc_fail_at = 0;
				mc_trans(1);
				MC_CHECK(n == NULL, "invalid", "accepted");
				if (mc_live != live0 && mc_verbose) mc_track_dump(stderr);
				MC_CHECK(mc_live == live0, "leak", "%ld block(s) lost", mc_live - live0);
				if (mc_allocs < f) break;
			}
		mc_end();
	}
}

/* ---- line edition ----------------------------------------------------------------- */
static const char *const lines[] = { "", "f", "fo", "foo", "foo ", "foo b", "foo bar", "x", "foo x", "foo foo bar", NULL };
static struct ec_node *ed_node;
static void s_ed(struct ctx *x, long a)
{
	x->in = fopen("in", "r");
	x->out = fopen("/dev/null", "w");
	x->el = ec_editline("mc", x->in, x->out, x->out, 0);
	if (x->el == NULL) mc_bug("editline");
	ec_editline_set_node(x->el, ed_node);
	if (*lines[a] && el_insertstr(ec_editline_get_el(x->el), lines[a]) < 0) mc_bug("insert");
}
static void s_files(struct ctx *x, long a) { x->in = fopen("in", "r"); x->out = fopen("/dev/null", "w"); }
static int r_ed(struct ctx *x, long a) { x->el = ec_editline("mc", x->in, x->out, x->out, a); return x->el ? 0 : -1; }
static int r_prompt(struct ctx *x, long a)
{
	return a == 0 ? ec_editline_set_prompt(x->el, "new> ") : ec_editline_set_prompt_esc(x->el, "new> ", 1);
}
static int r_hist(struct ctx *x, long a) { return ec_editline_set_history(x->el, 5, a ? "hist" : NULL); }
static int r_helps(struct ctx *x, long a) { x->nh = ec_editline_get_helps(x->el, lines[a], lines[a], &x->he); return x->nh < 0 ? -1 : 0; }
static int r_sugg(struct ctx *x, long a)
{
	int pos = 0;
	x->nh = ec_editline_get_suggestions(x->el, &x->he, &x->s, &pos);
	if (x->nh < 0) return -1;
	x->val = pos;
	x->hasval = 1;
	return 0;
}
static int r_cur(struct ctx *x, long a) { x->s = ec_editline_curline(x->el, a & 1); return x->s ? 0 : -1; }
static int r_key(struct ctx *x, long a)
{
	int r = ec_editline_complete(ec_editline_get_el(x->el), a / 100 ? '?' : '\t');
	x->val = r;
	x->hasval = r != CC_ERROR;
	return r == CC_ERROR ? -1 : 0;
}
static int r_append(struct ctx *x, long a)
{
	struct ec_comp *c = ec_complete(ed_node, lines[a]);
	if (c == NULL) return -1;
	x->s = ec_editline_append_chars(c);
	if (x->s == NULL && ec_comp_count(c, EC_COMP_FULL | EC_COMP_PARTIAL)) { ec_comp_free(c); return -1; }
	x->nm = ec_editline_get_completions(c, &x->m);
	ec_comp_free(c);
	return 0;
}
static int consumed;
static int r_gets(struct ctx *x, long a)
{
	if (consumed++) rewind(x->in);         /* the line was read */
	if (a == 0) { x->s = ec_editline_gets(x->el); return x->s ? 0 : -1; }
	x->p = ec_editline_parse(x->el, ed_node);
	return x->p ? 0 : -1;
}
static void s_key(struct ctx *x, long a) { s_ed(x, a % 100); }
static void s_gets(struct ctx *x, long a) { s_ed(x, 0); consumed = 0; }
static void edits(void)
{
	static const struct op o_ed = { s_files, r_ed }, o_prompt = { s_ed, r_prompt }, o_hist = { s_ed, r_hist }, o_helps = { s_ed, r_helps }, o_sugg = { s_ed, r_sugg },
		o_cur = { s_ed, r_cur }, o_append = { NULL, r_append }, o_key = { s_key, r_key }, o_gets = { s_gets, r_gets };
	FILE *f = fopen("in", "w");
	if (!f || fputs("foo bar\nfoo\n", f) < 0 || fclose(f)) mc_bug("input");
	ed_node = ec_node_sh_lex("lex", EC_NODE_SEQ("sq", ec_node_str("f", "foo"), EC_NODE_OR("or", ec_node_str("b", "bar"), ec_node_str("b2", "baz"), ec_node_any("y", "at"), ec_node("empty", "e"))));
	ec_dict_set(ec_node_attrs(ed_node), "help", ec_strdup("the help"), ec_free_func);
	any_errno = 1;
	for (int i = 0; i < 16; i++) ONE(o_ed, i, "ec_editline(%d)", i);
	for (int i = 0; i < 2; i++) ONE(o_prompt, i, "change of prompt %d", i);
	for (int i = 0; i < 2; i++) ONE(o_hist, i, "change of history %d", i);
	for (int i = 0; lines[i]; i++) {
		if (!mc_next()) continue;
		explore(&o_helps, i, "helps of <%s>", lines[i]);
		explore(&o_sugg, i, "suggestions for <%s>", lines[i]);
		explore(&o_cur, i, "line <%s>", lines[i]);
		explore(&o_append, i, "completions of <%s>", lines[i]);
		mc_end();
	}
	for (int i = 0; lines[i]; i++) {
		if (!mc_next()) continue;
		explore(&o_key, i, "completion key on <%s>", lines[i]);
		explore(&o_key, 100 + i, "help key on <%s>", lines[i]);
		mc_end();
	}
	mayalter = 1;            /* the line was read */
	for (int i = 0; i < 2; i++) ONE(o_gets, i, i ? "ec_editline_parse()" : "ec_editline_gets()");
	any_errno = mayalter = 0;
	ec_node_free(ed_node);
}
/* ---- initialisation ------------------------------------------------------------- */
static int probe_lib(void)
{
	struct ec_node *n = EC_NODE_CMD("x", "c1 [b]", ec_node_cond("c1", "cmp(eq, count(root()), 1)", ec_node_str("s", "a")));
	struct ec_pnode *p = n ? ec_parse(n, "a") : NULL;
	int ok = p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == 1;
	ec_pnode_free(p);
	ec_node_free(n);
	return ok;
}
static void inits(void)
{
	long k, n, base;
	int r, e;
	for (int mode = 0; mode < 2; mode++) {
		if (!mc_next()) continue;
		ec_exit();
		base = mc_live;
		mc_allocs = 0;
		MC_CHECK(ec_init() == 0, "init", "ec_init() fails after ec_exit()");
		n = mc_allocs;
		MC_CHECK(probe_lib(), "init", "the library is not usable after ec_exit() and ec_init()");
		for (k = 1; k <= n; k++) {
			ec_exit();
			mc_desc("ec_init() with allocation %ld of %ld failing%s", k, n, mode ? " and the next ones" : "");
			MC_CHECK(mc_live == base, "leak", "%ld block(s) left after ec_exit()", mc_live - base);
			mc_track_mark();
			mc_allocs = 0;
			mc_fail_all = mode;
			mc_fail_at = k;
			errno = 0;
			mc_fail_file = NULL;
			r = ec_init();
			e = errno;
			mc_fail_at = 0;
			mc_trans(1);
			mc_nontrivial();
			mc_state(mc_hu(mc_hs(MC_H0, "init"), k * 2 + mode));
			mc_outcome(mc_hu(mc_hs(mc_hs(MC_H0, "init"), mc_fail_file), mc_hu(mc_fail_line, r)));
			mc_desc_add(" (%s:%u)", mc_fail_file, mc_fail_line);
			if (r < 0) {
				MC_CHECK(e != 0, "errno", "errno is not set after the failure");
				ec_exit();
				if (mc_live != base && mc_verbose) mc_track_dump(stderr);
				MC_CHECK(mc_live == base, "leak", "%ld block(s) lost", mc_live - base);
				MC_CHECK(ec_init() == 0, "retry", "ec_init() still fails once memory is available");
			}
			MC_CHECK(probe_lib(), "usable", "the library is not usable although ec_init() succeeded");
			MC_CHECK(probe_lib(), "usable", "the library is not usable although ec_init() succeeded");
		}
		mc_end();
	}
}
/* ---- dumps ------------------------------------------------------------------------ */
static int logged;
static int my_log(int t, enum ec_log_level l, void *o, const char *s) { logged |= l <= EC_LOG_ERR; return 0; }
static char *dump(const struct ec_node *n)
{
	char *t = NULL;
	size_t l = 0;
	FILE *f = open_memstream(&t, &l);
	logged = 0;
	ec_node_dump(f, n);
	fclose(f);
	return t;
}
static void dumps(void)
{
	const char *const *ins;
	char *ref, *t;
	long k, n, live0;
	ec_log_fct_register(my_log, NULL);
	for (int i = 0; i <= 17; i++) {
		struct ec_node *x;
		if (!mc_next()) continue;
		mc_desc("dump of grammar %d", i);
		if (i <= 15) x = other(i, &ins);
		else {
			x = ec_node("seq", "x");
			ec_node_seq_add(x, ec_node_str("s", "a"));
			ec_node_seq_add(x, ec_node_option("o", i == 16 ? ec_node_clone(x) : EC_NODE_OR("y", ec_node("str", "z"), ec_node_clone(x))));
		}
		mc_allocs = 0;
		ref = dump(x);
		n = mc_allocs;
		mc_state(mc_hu(mc_hs(MC_H0, "dump"), i));
		mc_nontrivial();
		for (int mode = 0; mode < 2; mode++)
			for (k = 1; k <= n; k++) {
				mc_desc("dump of grammar %d, allocation %ld of %ld fails%s", i, k, n, mode ? ", and all the next ones" : "");
				live0 = mc_live;
				mc_allocs = 0;
				mc_fail_all = mode;
				mc_fail_at = k;
				mc_fail_file = NULL;
				t = dump(x);
				mc_fail_at = 0;
				mc_trans(1);
				mc_outcome(mc_hu(mc_hs(MC_H0, "dump"), mc_hu(mc_fail_line, logged)));
				MC_CHECK(logged || !strcmp(t, ref), "silent", "nothing is reported, but the dump is\n%sinstead of\n%s", t, ref);
				MC_CHECK(mc_live == live0, "leak", "%ld block(s) lost", mc_live - live0);
				free(t);
			}
		t = dump(x);
		MC_CHECK(!strcmp(t, ref) && !logged, "retry", "the dump fails once memory is available");
		free(t); free(ref);
		ec_node_free(x);
		mc_end();
	}
}
void mc_run(void)
{
	containers();
	nodes();
	grams();
	others();
	lists();
	yaml();
	edits();
	inits();
	dumps();
}
