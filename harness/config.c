/* C11: configuration trees, schemas, and the configuration of every node type. */
#include <ecoli.h>
#include <limits.h>
#include <inttypes.h>
#include "mc.h"

/* ---- model of a configuration value ------------------------------------ */
enum vt { V_TRUE, V_FALSE, V_IM1, V_IMIN, V_I5, V_U5, V_UMAX, V_SE, V_SA, V_N0, V_N1, NLEAF, V_LIST, V_DICT };
struct cv { enum vt t; int n; const char *key[3]; const struct cv *ch[3]; };
static const char *const keys[] = { "a", "b" };
static struct ec_node *nodes[2];

static enum ec_config_type ctype(enum vt t)
{
	switch (t) {
	case V_TRUE: case V_FALSE: return EC_CONFIG_TYPE_BOOL;
	case V_IM1: case V_IMIN: case V_I5: return EC_CONFIG_TYPE_INT64;
	case V_U5: case V_UMAX: return EC_CONFIG_TYPE_UINT64;
	case V_SE: case V_SA: return EC_CONFIG_TYPE_STRING;
	case V_N0: case V_N1: return EC_CONFIG_TYPE_NODE;
	case V_LIST: return EC_CONFIG_TYPE_LIST;
	default: return EC_CONFIG_TYPE_DICT;
	}
}
static struct ec_config *build(const struct cv *v)
{
	struct ec_config *c, *x;
	int i;
	switch (v->t) {
	case V_TRUE: return ec_config_bool(true);
	case V_FALSE: return ec_config_bool(false);
	case V_IM1: return ec_config_i64(-1);
	case V_IMIN: return ec_config_i64(INT64_MIN);
	case V_I5: return ec_config_i64(5);
	case V_U5: return ec_config_u64(5);
	case V_UMAX: return ec_config_u64(UINT64_MAX);
	case V_SE: return ec_config_string("");
	case V_SA: return ec_config_string("a");
	case V_N0: case V_N1: return ec_config_node(ec_node_clone(nodes[v->t - V_N0]));
	case V_LIST: c = ec_config_list(); break;
	default: c = ec_config_dict(); break;
	}
	for (i = 0; i < v->n; i++) {
		x = build(v->ch[i]);
		if ((v->t == V_LIST ? ec_config_list_add(c, x) : ec_config_dict_set(c, v->key[i], x)) < 0)
			mc_fail("add", "cannot add a value to a %s", v->t == V_LIST ? "list" : "dict");
	}
	return c;
}
/* text of a model value / of a real one; dictionaries in order of insertion */
static const char *const leaf_txt[] = { "true", "false", "i-1", "i-9223372036854775808", "i5", "u5", "u18446744073709551615", "\"\"", "\"a\"", "n0", "n1" };
static void cv_text(struct mc_buf *b, const struct cv *v)
{
	if (v->t < NLEAF) { mc_buf_add(b, "%s", leaf_txt[v->t]); return; }
	mc_buf_add(b, v->t == V_LIST ? "[" : "{");
	for (int i = 0; i < v->n; i++) {
		if (i) mc_buf_add(b, ",");
		if (v->t == V_DICT) mc_buf_add(b, "%s:", v->key[i]);
		cv_text(b, v->ch[i]);
	}
	mc_buf_add(b, v->t == V_LIST ? "]" : "}");
}
static void real_text(struct mc_buf *b, struct ec_config *c)
{
	struct ec_config *x;
	struct ec_dict_elt_ref *it;
	int i = 0;
	if (c == NULL) { mc_buf_add(b, "NULL"); return; }
	switch (ec_config_get_type(c)) {
	case EC_CONFIG_TYPE_BOOL: mc_buf_add(b, "%s", c->boolean ? "true" : "false"); break;
	case EC_CONFIG_TYPE_INT64: mc_buf_add(b, "i%" PRIi64, c->i64); break;
	case EC_CONFIG_TYPE_UINT64: mc_buf_add(b, "u%" PRIu64, c->u64); break;
	case EC_CONFIG_TYPE_STRING: mc_buf_add(b, "\"%s\"", c->string); break;
	case EC_CONFIG_TYPE_NODE: mc_buf_add(b, "%s", c->node == nodes[0] ? "n0" : c->node == nodes[1] ? "n1" : "n?"); break;
	case EC_CONFIG_TYPE_LIST:
		mc_buf_add(b, "[");
		for (x = ec_config_list_first(c); x != NULL; x = ec_config_list_next(c, x)) {
			if (i++) mc_buf_add(b, ",");
			real_text(b, x);
		}
		MC_CHECK(ec_config_count(c) == i, "count", "ec_config_count() is %zd for %d elements", ec_config_count(c), i);
		mc_buf_add(b, "]");
		break;
	case EC_CONFIG_TYPE_DICT:
		mc_buf_add(b, "{");
		for (it = ec_dict_iter(c->dict); it != NULL; it = ec_dict_iter_next(it)) {
			if (i++) mc_buf_add(b, ",");
			mc_buf_add(b, "%s:", ec_dict_iter_get_key(it));
			MC_CHECK(ec_config_dict_get(c, ec_dict_iter_get_key(it)) == ec_dict_iter_get_val(it), "get", "ec_config_dict_get(%s)", ec_dict_iter_get_key(it));
			real_text(b, ec_dict_iter_get_val(it));
		}
		MC_CHECK(ec_config_count(c) == i, "count", "ec_config_count() is %zd for %d keys", ec_config_count(c), i);
		mc_buf_add(b, "}");
		break;
	default: mc_buf_add(b, "?"); break;
	}
}
static int cv_eq(const struct cv *a, const struct cv *b)
{
	int i, j;
	if (a->t != b->t || a->n != b->n) return 0;
	for (i = 0; i < a->n; i++) {
		if (a->t == V_LIST) { if (!cv_eq(a->ch[i], b->ch[i])) return 0; continue; }
		for (j = 0; j < b->n && strcmp(a->key[i], b->key[j]); j++) ;
		if (j == b->n || !cv_eq(a->ch[i], b->ch[j])) return 0;
	}
	return 1;
}
static struct mc_buf b1, b2, b3;
static void expect(struct ec_config *c, const struct cv *v, const char *what)
{
	mc_buf_reset(&b1); mc_buf_reset(&b2);
	cv_text(&b1, v);
	real_text(&b2, c);
	MC_CHECK(!strcmp(b1.s, b2.s), "content", "%s: content is %s instead of %s", what, b2.s, b1.s);
}
static void expect_text(struct ec_config *c, const char *t, const char *sig, const char *what)
{
	mc_buf_reset(&b2);
	real_text(&b2, c);
	MC_CHECK(!strcmp(t, b2.s), sig, "%s: content is %s instead of %s", what, b2.s, t);
}

/* ---- the space of values ------------------------------------------------ */
#define MAXCV 60000
static const struct cv *sp[MAXCV];
static int nsp, spoff[8];
static const enum vt *lf;
static int nlf;
static struct cv *cv_new(enum vt t) { struct cv *v = calloc(1, sizeof(*v)); v->t = t; return v; }
static void sp_add(const struct cv *v) { if (nsp >= MAXCV) mc_bug("too many values"); sp[nsp++] = v; }
static void enum_values(int max)
{
	int s, i, j, k;
	nsp = 0;
	spoff[0] = spoff[1] = 0;
	for (i = 0; i < nlf; i++) sp_add(cv_new(lf[i]));
	sp_add(cv_new(V_LIST));
	sp_add(cv_new(V_DICT));
	spoff[2] = nsp;
	for (s = 2; s <= max; s++) {
		for (i = spoff[s - 1]; i < spoff[s]; i++) {
			struct cv *v = cv_new(V_LIST);
			v->n = 1; v->ch[0] = sp[i];
			sp_add(v);
			for (k = 0; k < 2; k++) {
				v = cv_new(V_DICT);
				v->n = 1; v->ch[0] = sp[i]; v->key[0] = keys[k];
				sp_add(v);
			}
		}
		for (int sl = 1; sl < s - 1; sl++)
			for (i = spoff[sl]; i < spoff[sl + 1]; i++)
				for (j = spoff[s - 1 - sl]; j < spoff[s - sl]; j++) {
					struct cv *v = cv_new(V_LIST);
					v->n = 2; v->ch[0] = sp[i]; v->ch[1] = sp[j];
					sp_add(v);
					for (k = 0; k < 2; k++) {
						v = cv_new(V_DICT);
						v->n = 2; v->ch[0] = sp[i]; v->ch[1] = sp[j];
						v->key[0] = keys[k]; v->key[1] = keys[1 - k];
						sp_add(v);
					}
				}
		spoff[s + 1] = nsp;
	}
}

/* the expected dump */
static void ref_dump(struct mc_buf *b, const char *key, const struct cv *v, int ind)
{
	static const char *tn[] = { "none", "bool", "int64", "uint64", "string", "node", "list", "dict" };
	mc_buf_add(b, "%*s", ind * 4, "");
	if (key) mc_buf_add(b, "key=%s ", key);
	mc_buf_add(b, "type=%s", tn[ctype(v->t)]);
	if (v->t >= NLEAF) {
		mc_buf_add(b, "\n");
		for (int i = 0; i < v->n; i++) ref_dump(b, v->t == V_DICT ? v->key[i] : NULL, v->ch[i], ind + 1);
		return;
	}
	mc_buf_add(b, " val=");
	switch (v->t) {
	case V_TRUE: mc_buf_add(b, "true"); break;
	case V_FALSE: mc_buf_add(b, "false"); break;
	case V_IM1: mc_buf_add(b, "-1"); break;
	case V_IMIN: mc_buf_add(b, "%" PRIi64, INT64_MIN); break;
	case V_I5: case V_U5: mc_buf_add(b, "5"); break;
	case V_UMAX: mc_buf_add(b, "%" PRIu64, UINT64_MAX); break;
	case V_SE: break;
	case V_SA: mc_buf_add(b, "a"); break;
	default: mc_buf_add(b, "%p", (void *)nodes[v->t - V_N0]); break;
	}
	mc_buf_add(b, "\n");
}
static void check_dump(struct ec_config *c, const struct cv *v)
{
	char *s = NULL;
	size_t n = 0;
	FILE *f = open_memstream(&s, &n);
	ec_config_dump(f, c);
	fclose(f);
	mc_buf_reset(&b1);
	mc_buf_add(&b1, "------------------- config dump:\n");
	ref_dump(&b1, NULL, v, 0);
	MC_CHECK(!strcmp(s, b1.s), "dump", "the dump is\n%s\ninstead of\n%s", s, b1.s);
	free(s);
}

/* every change at every container of the original must leave the copy alone */
static int nchange;
static int change(struct ec_config *c, int *k)
{
	struct ec_config *x;
	struct ec_dict_elt_ref *it;
	enum ec_config_type t = ec_config_get_type(c);
	int i;
	if (t == EC_CONFIG_TYPE_LIST) {
		if ((*k)-- == 0) { ec_config_list_add(c, ec_config_i64(77)); return 1; }
		for (x = ec_config_list_first(c); x != NULL; x = ec_config_list_next(c, x)) {
			if ((*k)-- == 0) { ec_config_list_del(c, x); return 1; }
			if (change(x, k)) return 1;
		}
	} else if (t == EC_CONFIG_TYPE_DICT) {
		for (i = 0; i < 3; i++)
			if ((*k)-- == 0) { ec_config_dict_set(c, i < 2 ? keys[i] : "z", ec_config_i64(77)); return 1; }
		for (i = 0; i < 2; i++)
			if (ec_config_dict_get(c, keys[i]) != NULL && (*k)-- == 0) { ec_config_dict_del(c, keys[i]); return 1; }
		for (it = ec_dict_iter(c->dict); it != NULL; it = ec_dict_iter_next(it))
			if (change(ec_dict_iter_get_val(it), k)) return 1;
	} else if (t == EC_CONFIG_TYPE_STRING && c->string[0]) {
		if ((*k)-- == 0) { c->string[0] = 'Z'; return 1; }
	}
	return 0;
}
static void one_value(const struct cv *v)
{
	struct ec_config *c, *d;
	int k, dir;
	mc_buf_reset(&b3);
	cv_text(&b3, v);
	mc_desc("value %s", b3.s);
	mc_state(mc_hs(MC_H0, b3.s));
	c = build(v);
	expect(c, v, "built value");
	MC_CHECK(ec_config_get_type(c) == ctype(v->t), "type", "type %d", ec_config_get_type(c));
	check_dump(c, v);
	if (v->t < NLEAF) {
		errno = 0;
		MC_CHECK(ec_config_count(c) == -1 && errno == EINVAL, "count-scalar", "counting a scalar");
		MC_CHECK(ec_config_dict_get(c, "a") == NULL, "get-scalar", "key of a scalar");
	}
	if (v->t != V_LIST) {
		errno = 0;
		MC_CHECK(ec_config_list_first(c) == NULL && errno == EINVAL, "first", "first element of something that is not a list");
		errno = 0;
		MC_CHECK(ec_config_list_add(c, ec_config_i64(1)) < 0 && errno == EINVAL, "list-add", "element added to something that is not a list");
	}
	if (v->t != V_DICT) {
		errno = 0;
		MC_CHECK(ec_config_dict_set(c, "a", ec_config_i64(1)) < 0 && errno == EINVAL, "dict-set", "key set in something that is not a dict");
		errno = 0;
		MC_CHECK(ec_config_dict_del(c, "a") < 0 && errno == EINVAL, "dict-del", "key removed from something that is not a dict");
	} else {
		errno = 0;
		MC_CHECK(ec_config_dict_get(c, "zz") == NULL && errno == ENOENT, "get-unknown", "unknown key");
		MC_CHECK(ec_config_dict_del(c, "zz") < 0, "del-unknown", "unknown key removed");
		errno = 0;
		MC_CHECK(ec_config_dict_set(c, "a", NULL) < 0 && errno == EINVAL, "set-null", "NULL set");
		MC_CHECK(ec_config_dict_set(c, NULL, ec_config_i64(1)) < 0, "set-nokey", "value set without key");
		MC_CHECK(ec_config_dict_del(c, NULL) < 0, "del-nokey", "removal without key");
	}
	MC_CHECK(ec_config_dict_del(NULL, "a") < 0 && ec_config_dict_set(NULL, "a", ec_config_i64(1)) < 0 && ec_config_list_add(NULL, ec_config_i64(1)) < 0 &&
		ec_config_dict_get(NULL, "a") == NULL && ec_config_dup(NULL) == NULL, "no-config", "an operation on NULL succeeds");
	expect(c, v, "after refused operations");
	ec_config_free(c);
	for (dir = 0; dir < 2; dir++)
		for (k = -1;; k++) {
			int kk = k;
			c = build(v);
			d = ec_config_dup(c);
			MC_CHECK(d != NULL, "dup", "not duplicated");
			mc_trans(3);
			MC_CHECK(ec_config_cmp(c, d) == 0 && ec_config_cmp(d, c) == 0, "dup-cmp", "the duplicate is not equal");
			expect(d, v, "duplicate");
			if (k >= 0 && !change(dir ? d : c, &kk)) {
				ec_config_free(c);
				ec_config_free(d);
				break;
			}
			expect(dir ? c : d, v, dir ? "original after a change of the duplicate" : "duplicate after a change of the original");
			if (k >= 0) {
				MC_CHECK(ec_config_cmp(c, d) != 0 || (v->t == V_DICT || v->t == V_LIST || v->t == V_SA), "cmp-changed", "equal after a change");
			}
			ec_config_free(dir ? d : c);
			expect(dir ? c : d, v, "after the other one was freed");
			ec_config_free(dir ? c : d);
			nchange++;
		}
	mc_nontrivial();
}
static void all_pairs(int n)
{
	static struct ec_config **real;
	real = calloc(n, sizeof(*real));
	for (int i = 0; i < n; i++) {
		if (!mc_next()) continue;
		/* build all of them on first use: kept until the end */
		mc_buf_reset(&b3);
		cv_text(&b3, sp[i]);
		mc_desc("comparing %s with every value", b3.s);
		struct ec_config *c = build(sp[i]);
		for (int j = 0; j < n; j++) {
			struct ec_config *d = build(sp[j]);
			int eq = cv_eq(sp[i], sp[j]), r = ec_config_cmp(c, d);
			mc_trans(1);
			if ((r == 0) != eq) {
				mc_buf_reset(&b1);
				cv_text(&b1, sp[j]);
				MC_CHECK(0, "cmp", "%s and %s: ec_config_cmp() returns %d", b3.s, b1.s, r);
			}
			ec_config_free(d);
		}
		MC_CHECK(ec_config_cmp(c, NULL) != 0 && ec_config_cmp(NULL, c) != 0, "cmp-null", "equal to NULL");
		ec_config_free(c);
		mc_outcome(mc_hu(MC_H0, sp[i]->t));
		mc_end();
	}
	free(real);
}

/* ---- schemas ------------------------------------------------------------- */
struct sv { enum ec_config_type t; int n; const char *key[2]; const struct sv *ch[2]; struct ec_config_schema *real; };
static const struct sv *ss[4000];
static int nss, ssoff[8];
static struct sv *sv_new(enum ec_config_type t) { struct sv *v = calloc(1, sizeof(*v)); v->t = t; return v; }
/* schema array of the children */
static struct ec_config_schema *sv_real(const struct sv *v)
{
	struct ec_config_schema *r;
	if (v->real) return v->real;
	if (v->t != EC_CONFIG_TYPE_LIST && v->t != EC_CONFIG_TYPE_DICT) return NULL;
	r = calloc(v->n + 1, sizeof(*r));
	for (int i = 0; i < v->n; i++) {
		r[i].key = v->key[i];
		r[i].desc = "d";
		r[i].type = v->ch[i]->t;
		r[i].subschema = sv_real(v->ch[i]);
	}
	r[v->n].type = EC_CONFIG_TYPE_NONE;
	((struct sv *)v)->real = r;
	return r;
}
static void enum_schemas(int max)
{
	int s, i, j, k;
	nss = 0;
	ssoff[1] = 0;
	for (i = EC_CONFIG_TYPE_BOOL; i <= EC_CONFIG_TYPE_NODE; i++) ss[nss++] = sv_new(i);
	ssoff[2] = nss;
	for (s = 2; s <= max; s++) {
		for (i = ssoff[s - 1]; i < ssoff[s]; i++) {
			struct sv *v = sv_new(EC_CONFIG_TYPE_LIST);
			v->n = 1; v->ch[0] = ss[i];
			ss[nss++] = v;
			for (k = 0; k < 2; k++) {
				v = sv_new(EC_CONFIG_TYPE_DICT);
				v->n = 1; v->ch[0] = ss[i]; v->key[0] = keys[k];
				ss[nss++] = v;
			}
		}
		for (int sl = 1; sl < s - 1; sl++)
			for (i = ssoff[sl]; i < ssoff[sl + 1]; i++)
				for (j = ssoff[s - 1 - sl]; j < ssoff[s - sl]; j++) {
					struct sv *v = sv_new(EC_CONFIG_TYPE_DICT);
					v->n = 2; v->ch[0] = ss[i]; v->ch[1] = ss[j];
					v->key[0] = keys[0]; v->key[1] = keys[1];
					ss[nss++] = v;
					if (nss >= 3990) mc_bug("too many schemas");
				}
		ssoff[s + 1] = nss;
	}
}
static void sv_text(struct mc_buf *b, const struct sv *v)
{
	static const char *tn[] = { "none", "bool", "int64", "uint64", "string", "node", "list", "dict" };
	mc_buf_add(b, "%s", tn[v->t]);
	if (v->n) mc_buf_add(b, "(");
	for (int i = 0; i < v->n; i++) {
		if (i) mc_buf_add(b, ",");
		if (v->key[i]) mc_buf_add(b, "%s:", v->key[i]);
		sv_text(b, v->ch[i]);
	}
	if (v->n) mc_buf_add(b, ")");
}
static int ref_valid(const struct cv *c, const struct sv *s)
{
	int i, j;
	if (ctype(c->t) != s->t) return 0;
	if (c->t < NLEAF) return 1;
	for (i = 0; i < c->n; i++) {
		if (c->t == V_LIST) { if (!ref_valid(c->ch[i], s->ch[0])) return 0; continue; }
		for (j = 0; j < s->n && strcmp(s->key[j], c->key[i]); j++) ;
		if (j == s->n || !ref_valid(c->ch[i], s->ch[j])) return 0;
	}
	return 1;
}
static void ref_schema_dump(struct mc_buf *b, const struct sv *v, int ind)
{
	static const char *tn[] = { "none", "bool", "int64", "uint64", "string", "node", "list", "dict" };
	for (int i = 0; i < v->n; i++) {
		mc_buf_add(b, "%*s", ind * 4, "");
		if (v->key[i]) mc_buf_add(b, "key=%s ", v->key[i]);
		mc_buf_add(b, "type=%s desc='d'\n", tn[v->ch[i]->t]);
		ref_schema_dump(b, v->ch[i], ind + 1);
	}
}
static void one_schema(const struct sv *s, int nvals)
{
	struct ec_config_schema *r = sv_real(s);
	char *txt = NULL;
	size_t n = 0;
	FILE *f;
	int i, ok = 0;
	mc_buf_reset(&b3);
	sv_text(&b3, s);
	mc_desc("schema %s", b3.s);
	mc_state(mc_hs(MC_H0 + 1, b3.s));
	MC_CHECK(ec_config_schema_validate(r) == 0, "schema-refused", "the schema is refused");
	for (i = 0; i < 2; i++) {
		int has = (s->n > 0 && !strcmp(s->key[0], keys[i])) || (s->n > 1 && !strcmp(s->key[1], keys[i]));
		const struct ec_config_schema *e;
		errno = 0;
		e = ec_config_schema_lookup(r, keys[i]);
		MC_CHECK((e != NULL) == has && (e == NULL ? errno == ENOENT : !strcmp(e->key, keys[i])), "schema-lookup", "lookup of %s", keys[i]);
		if (e) MC_CHECK(ec_config_schema_type(e) == e->type && ec_config_schema_sub(e) == e->subschema, "schema-elt", "type of %s", keys[i]);
	}
	f = open_memstream(&txt, &n);
	ec_config_schema_dump(f, r);
	fclose(f);
	mc_buf_reset(&b1);
	mc_buf_add(&b1, "------------------- schema dump:\n");
	ref_schema_dump(&b1, s, 0);
	MC_CHECK(!strcmp(txt, b1.s), "schema-dump", "schema dump is\n%s\ninstead of\n%s", txt, b1.s);
	free(txt);
	for (i = 0; i < nvals; i++) {
		struct ec_config *c = build(sp[i]);
		int e = ref_valid(sp[i], s), r1;
		errno = 0;
		r1 = ec_config_validate(c, r);
		mc_trans(1);
		if ((r1 == 0) != e || (r1 < 0 && errno == 0)) {
			mc_buf_reset(&b1);
			cv_text(&b1, sp[i]);
			MC_CHECK(0, "validate", "%s: ec_config_validate() returns %d (errno %d), expected %s", b1.s, r1, errno, e ? "valid" : "refused");
		}
		ok += e;
		ec_config_free(c);
	}
	mc_outcome(mc_hu(MC_H0 + 2, ok));
	mc_nontrivial();
}

/* malformed schemas: every element with every key, type and sub-schema */
static const char *const skeys[] = { NULL, "a", "b", "id", "attrs", "help", "type", "ids" };
static const int stypes[] = { EC_CONFIG_TYPE_BOOL, EC_CONFIG_TYPE_INT64, EC_CONFIG_TYPE_UINT64, EC_CONFIG_TYPE_STRING,
	EC_CONFIG_TYPE_NODE, EC_CONFIG_TYPE_LIST, EC_CONFIG_TYPE_DICT, 99 };
static const struct ec_config_schema sub_empty[] = { { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_nokey[] = { { .desc = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_key[] = { { .key = "a", .desc = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_key2[] = { { .key = "a", .desc = "d", .type = EC_CONFIG_TYPE_BOOL },
	{ .key = "b", .desc = "d", .type = EC_CONFIG_TYPE_LIST, .subschema = sub_nokey }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_dupkey[] = { { .key = "a", .desc = "d", .type = EC_CONFIG_TYPE_BOOL },
	{ .key = "a", .desc = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_res[] = { { .key = "help", .desc = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_badlist[] = { { .desc = "d", .type = EC_CONFIG_TYPE_LIST, .subschema = sub_key }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_deep[] = { { .desc = "d", .type = EC_CONFIG_TYPE_LIST, .subschema = sub_nokey }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_deepdict[] = { { .desc = "d", .type = EC_CONFIG_TYPE_DICT, .subschema = sub_key2 }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub_halfkey[] = { { .key = "a", .desc = "d", .type = EC_CONFIG_TYPE_BOOL },
	{ .desc = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema *const subs[] = { NULL, sub_empty, sub_nokey, sub_key, sub_key2, sub_dupkey, sub_res, sub_badlist, sub_deep, sub_deepdict, sub_halfkey };
#define NSUB 11
/* valid as the sub-schema of a list / of a dict */
static const int sub_list_ok[NSUB] = { 0, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0 };
static const int sub_dict_ok[NSUB] = { 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0 };
struct el { int key, type, sub; };
static int el_ok(struct el e)
{
	int t = stypes[e.type];
	if (e.key == 0 || (e.key >= 3 && e.key <= 6)) return 0;
	if (t == EC_CONFIG_TYPE_LIST) return sub_list_ok[e.sub];
	if (t == EC_CONFIG_TYPE_DICT) return sub_dict_ok[e.sub];
	return t != 99 && e.sub == 0;
}
static void bad_schema(int n, const struct el *e)
{
	struct ec_config_schema s[4];
	int ok = 1, r;
	memset(s, 0, sizeof(s));
	mc_desc("schema of %d elements:", n);
	for (int i = 0; i < n; i++) {
		s[i].key = skeys[e[i].key]; s[i].desc = "d"; s[i].type = stypes[e[i].type]; s[i].subschema = subs[e[i].sub];
		ok &= el_ok(e[i]);
		for (int j = 0; j < i; j++) if (e[i].key == e[j].key) ok = 0;
		mc_desc_add(" (%s, type %d, sub-schema %d)", s[i].key ? s[i].key : "no key", stypes[e[i].type], e[i].sub);
	}
	errno = 0;
	r = ec_config_schema_validate(s);
	mc_trans(1);
	MC_CHECK((r == 0) == ok, "schema-validate", "ec_config_schema_validate() returns %d, the schema is %s", r, ok ? "valid" : "malformed");
	if (r < 0) MC_CHECK(errno != 0, "schema-errno", "no errno");
	mc_outcome(mc_hu(MC_H0 + 3, ok));
}

/* ---- histories on a dictionary and a list -------------------------------- */
struct mstate { int n[2]; char k[2][8]; char v[2][8]; };   /* D: keys+values, L: values */
static void m_text(struct mc_buf *b, const struct mstate *m, int w)
{
	static const char *const vt[] = { "i5", "\"a\"", "n0", "[i5]" };
	mc_buf_reset(b);
	mc_buf_add(b, w ? "[" : "{");
	for (int i = 0; i < m->n[w]; i++) {
		if (i) mc_buf_add(b, ",");
		if (!w) mc_buf_add(b, "%s:", keys[(int)m->k[0][i]]);
		mc_buf_add(b, "%s", vt[(int)m->v[w][i]]);
	}
	mc_buf_add(b, w ? "]" : "}");
}
static struct ec_config *mkval(int v)
{
	struct ec_config *c;
	switch (v) {
	case 0: return ec_config_i64(5);
	case 1: return ec_config_string("a");
	case 2: return ec_config_node(ec_node_clone(nodes[0]));
	default: c = ec_config_list(); ec_config_list_add(c, ec_config_i64(5)); return c;
	}
}
#define NOPS (8 + 2 + 4 + 3 + 2)
static void run_history(const int *op, int n)
{
	struct ec_config *c[2];
	struct mstate m;
	int i, j, o, r;
	mc_desc("history");
	memset(&m, 0, sizeof(m));
	c[0] = ec_config_dict(); c[1] = ec_config_list();
	for (i = 0; i < n; i++) {
		o = op[i];
		mc_trans(1);
		if (o < 8) {
			int k = o & 1, v = o >> 1;
			mc_desc_add(" set(%s,%d)", keys[k], v);
			r = ec_config_dict_set(c[0], keys[k], mkval(v));
			MC_CHECK(r == 0, "h-set", "returns %d", r);
			for (j = 0; j < m.n[0] && m.k[0][j] != k; j++) ;
			if (j < m.n[0]) {
				memmove(&m.k[0][j], &m.k[0][j + 1], 7 - j);
				memmove(&m.v[0][j], &m.v[0][j + 1], 7 - j);
				m.n[0]--;
			}
			m.k[0][m.n[0]] = k; m.v[0][m.n[0]++] = v;
		} else if (o < 10) {
			int k = o - 8;
			mc_desc_add(" del(%s)", keys[k]);
			r = ec_config_dict_del(c[0], keys[k]);
			for (j = 0; j < m.n[0] && m.k[0][j] != k; j++) ;
			MC_CHECK((r == 0) == (j < m.n[0]), "h-del", "returns %d", r);
			if (j < m.n[0]) {
				memmove(&m.k[0][j], &m.k[0][j + 1], 7 - j);
				memmove(&m.v[0][j], &m.v[0][j + 1], 7 - j);
				m.n[0]--;
			}
		} else if (o < 14) {
			int v = o - 10;
			mc_desc_add(" add(%d)", v);
			r = ec_config_list_add(c[1], mkval(v));
			MC_CHECK(r == 0, "h-add", "returns %d", r);
			m.v[1][m.n[1]++] = v;
		} else if (o < 17) {
			int k = o - 14;
			struct ec_config *x = ec_config_list_first(c[1]);
			for (j = 0; j < k && x != NULL; j++) x = ec_config_list_next(c[1], x);
			mc_desc_add(" del(%d)", k);
			MC_CHECK((x != NULL) == (k < m.n[1]), "h-elt", "element %d", k);
			if (x == NULL) continue;
			r = ec_config_list_del(c[1], x);
			MC_CHECK(r == 0, "h-ldel", "returns %d", r);
			memmove(&m.v[1][k], &m.v[1][k + 1], 7 - k);
			m.n[1]--;
		} else {       /* continue on a duplicate, the original is freed */
			int w = o - 17;
			struct ec_config *d = ec_config_dup(c[w]);
			mc_desc_add(" dup(%d)", w);
			MC_CHECK(d != NULL && ec_config_cmp(c[w], d) == 0, "h-dup", "duplicate");
			ec_config_free(c[w]);
			c[w] = d;
		}
		for (j = 0; j < 2; j++) {
			m_text(&b1, &m, j);
			expect_text(c[j], b1.s, "h-content", j ? "list" : "dict");
			mc_state(mc_hs(MC_H0 + 5, b1.s));
		}
	}
	ec_config_free(c[0]);
	ec_config_free(c[1]);
	mc_nontrivial();
}

/* ---- configuration of the node types ------------------------------------- */
static struct ec_node *kid[4];     /* str a, str b, option(str c), any with attribute "x" */
struct alt { const char *name; int ok; };   /* ok: acceptable for this key */
static struct ec_config *nlist(int m)
{
	struct ec_config *l = ec_config_list();
	for (int i = 0; i < 4; i++) if (m >> i & 1) ec_config_list_add(l, ec_config_node(ec_node_clone(kid[i])));
	return l;
}
static struct ec_config *pat(const char *p, int keep, const char *attr)
{
	struct ec_config *d = ec_config_dict();
	if (p) ec_config_dict_set(d, "pattern", ec_config_string(p));
	if (keep >= 0) ec_config_dict_set(d, "keep", keep < 2 ? ec_config_bool(keep) : ec_config_u64(1));
	if (attr) ec_config_dict_set(d, "attr", ec_config_string(attr));
	return d;
}
static struct ec_config *plist(int k)
{
	struct ec_config *l = ec_config_list();
	switch (k) {
	case 0: break;
	case 1: ec_config_list_add(l, pat("a", 1, NULL)); ec_config_list_add(l, pat(" ", 0, NULL)); break;
	case 2: ec_config_list_add(l, pat("[a-z]+", 1, "x")); ec_config_list_add(l, pat(" +", 0, NULL)); break;
	case 3: ec_config_list_add(l, pat("a", 1, NULL)); ec_config_list_add(l, pat("b(", 1, NULL)); break;
	case 4: ec_config_list_add(l, pat("a", 1, NULL)); ec_config_list_add(l, pat(NULL, 1, NULL)); break;
	case 5: ec_config_list_add(l, pat("a", 1, "x")); ec_config_list_add(l, pat("b", -1, "y")); break;
	case 6: ec_config_list_add(l, pat("a", 2, NULL)); break;
	case 7: ec_config_list_add(l, ec_config_string("a")); break;
	default: { struct ec_config *d = pat("a", 1, NULL); ec_config_dict_set(d, "zz", ec_config_bool(true)); ec_config_list_add(l, d); break; }
	}
	return l;
}
/* value `k` of a key of kind `kind`; ok: 1 valid, 0 refused; NULL: no more */
static struct ec_config *key_val(char kind, int k, int *ok)
{
	struct ec_config *c;
	*ok = 1;
	switch (kind) {
	case 's':      /* any string */
		if (k == 0) return ec_config_string("a");
		if (k == 1) return ec_config_string("x");
		if (k == 2) return ec_config_string("");
		break;
	case 'r':      /* regular expression */
		if (k == 0) return ec_config_string("a+");
		if (k == 1) return ec_config_string("a|b");
		if (k == 2) { *ok = 0; return ec_config_string("(a"); }
		break;
	case 'e':      /* condition */
		if (k == 0) return ec_config_string("cmp(eq, count(find(root(), ka)), 0)");
		if (k == 1) return ec_config_string("cmp(gt, count(find(root(), ka)), 0)");
		if (k == 2) { *ok = 0; return ec_config_string("cmp("); }
		break;
	case 'f':      /* command format */
		if (k == 0) return ec_config_string("ka kb");
		if (k == 1) return ec_config_string("ka|kb");
		if (k == 2) { *ok = 0; return ec_config_string("(ka"); }
		break;
	case 'n':
		if (k < 3) return ec_config_node(ec_node_clone(kid[k]));
		break;
	case 'N':
		if (k == 0) return nlist(3);
		if (k == 1) return nlist(6);
		if (k == 2) return nlist(0);
		if (k == 3) { *ok = 0; c = nlist(1); ec_config_list_add(c, ec_config_string("a")); return c; }
		break;
	case 'P':
		if (k <= 8) { *ok = k < 3; return plist(k); }
		*ok = 0;
		return k == 9 ? ec_config_i64(4) : NULL;
	case 'u':
		if (k == 0) return ec_config_u64(0);
		if (k == 1) return ec_config_u64(1);
		if (k == 2) return ec_config_u64(2);
		if (k == 3) return ec_config_u64(16);
		break;
	case 'm':
		if (k == 0) return ec_config_u64(0);
		if (k == 1) return ec_config_u64(1);
		if (k == 2) return ec_config_u64(2);
		if (k == 3) { *ok = 0; return ec_config_u64(UINT64_MAX); }
		break;
	case 'i':
		if (k == 0) return ec_config_i64(-1);
		if (k == 1) return ec_config_i64(1);
		if (k == 2) return ec_config_i64(16);
		break;
	}
	*ok = 0;
	if (kind == 's' || kind == 'r' || kind == 'e' || kind == 'f') return k == 3 ? ec_config_u64(1) : NULL;
	if (kind == 'n') return k == 3 ? ec_config_string("a") : NULL;
	if (kind == 'N') return k == 4 ? ec_config_node(ec_node_clone(kid[0])) : NULL;
	if (kind == 'u') return k == 4 ? ec_config_i64(1) : NULL;
	if (kind == 'm') return k == 4 ? ec_config_i64(1) : NULL;
	if (kind == 'i') return k == 3 ? ec_config_u64(1) : NULL;
	return NULL;
}
static const struct ntype { const char *name; struct { const char *key; char kind; int required; } k[4]; } ntypes[] = {
	{ "any", { { "attr", 's', 0 } } },
	{ "bypass", { { "child", 'n', 1 } } },
	{ "option", { { "child", 'n', 1 } } },
	{ "once", { { "child", 'n', 1 } } },
	{ "many", { { "child", 'n', 1 }, { "min", 'm', 0 }, { "max", 'm', 0 } } },
	{ "or", { { "children", 'N', 1 } } },
	{ "seq", { { "children", 'N', 1 } } },
	{ "str", { { "string", 's', 1 } } },
	{ "re", { { "pattern", 'r', 1 } } },
	{ "re_lex", { { "patterns", 'P', 0 }, { "child", 'n', 1 } } },
	{ "int", { { "min", 'i', 0 }, { "max", 'i', 0 }, { "base", 'u', 0 } } },
	{ "uint", { { "min", 'u', 0 }, { "max", 'u', 0 }, { "base", 'u', 0 } } },
	{ "cmd", { { "expr", 'f', 1 }, { "children", 'N', 1 } } },
	{ "cond", { { "expr", 'e', 1 }, { "child", 'n', 1 } } },
	{ "subset", { { NULL } } }, { "sh_lex", { { NULL } } }, { "expr", { { NULL } } }, { "dynamic", { { NULL } } },
	{ "empty", { { NULL } } }, { "none", { { NULL } } }, { "space", { { NULL } } }, { "file", { { NULL } } },
};
#define NTYPES (int)(sizeof(ntypes) / sizeof(ntypes[0]))
static int has_schema(int t) { return ntypes[t].k[0].key != NULL; }

static int nalts(char kind) { int ok, k; for (k = 0;; k++) { struct ec_config *c = key_val(kind, k, &ok); if (c == NULL) return k; ec_config_free(c); } }
/* configuration number `num` of a type: the value of each key (or absent), and
 * optionally an unknown key; last ones: not a dictionary, NULL */
static int nconf(int t)
{
	int n = 1, i;
	for (i = 0; i < 4 && ntypes[t].k[i].key; i++) n *= nalts(ntypes[t].k[i].kind) + 1;
	return n + 4;
}
static struct ec_config *mkconf(int t, int num, int *ok)
{
	struct ec_config *c, *v;
	int i, total = nconf(t) - 4, o;
	int64_t mn = 0, mx = 0;
	uint64_t umn = 0, umx = 0;
	int smn = 0, smx = 0;
	*ok = has_schema(t);
	if (num >= total) *ok = 0;
	if (num == total) return ec_config_list();
	if (num == total + 1) return NULL;
	if (num == total + 2) num = total - 2;  /* with an unknown key */
	if (num == total + 3) num = 0;
	c = ec_config_dict();
	if (!*ok) ec_config_dict_set(c, "zz", ec_config_u64(1));
	for (i = 0; i < 4 && ntypes[t].k[i].key; i++) {
		int na = nalts(ntypes[t].k[i].kind) + 1, a = num % na;
		num /= na;
		if (a == 0) { if (ntypes[t].k[i].required) *ok = 0; continue; }
		v = key_val(ntypes[t].k[i].kind, a - 1, &o);
		if (!o) *ok = 0;
		else if (!strcmp(ntypes[t].k[i].key, "min")) { smn = 1; mn = v->i64; umn = v->u64; }
		else if (!strcmp(ntypes[t].k[i].key, "max")) { smx = 1; mx = v->i64; umx = v->u64; }
		ec_config_dict_set(c, ntypes[t].k[i].key, v);
	}
	if (smn && smx && !strcmp(ntypes[t].name, "int") && mn > mx) *ok = 0;
	if (smn && smx && !strcmp(ntypes[t].name, "uint") && umn > umx) *ok = 0;
	if (!strcmp(ntypes[t].name, "cmd") && *ok) {
		/* nothing else: unknown words are strings */
	}
	return c;
}
static void ptext(struct mc_buf *b, const struct ec_pnode *p)
{
	const struct ec_strvec *v = ec_pnode_get_strvec(p);
	const struct ec_pnode *c;
	mc_buf_add(b, "%s", ec_pnode_get_node(p) ? ec_node_id(ec_pnode_get_node(p)) : "-");
	if (v == NULL) mc_buf_add(b, "!");
	else for (size_t i = 0; i < ec_strvec_len(v); i++) { mc_buf_add(b, " "); mc_buf_str(b, ec_strvec_val(v, i)); }
	mc_buf_add(b, "(");
	for (c = ec_pnode_get_first_child(p); c != NULL; c = ec_pnode_next(c)) ptext(b, c);
	mc_buf_add(b, ")");
}
static struct ec_strvec *inputs[24];
static int ninputs;
static void behaviour(struct mc_buf *b, struct ec_node *n)
{
	mc_buf_reset(b);
	for (int i = 0; i < ninputs; i++) {
		struct ec_pnode *p = ec_parse_strvec(n, inputs[i]);
		struct ec_comp *c;
		struct ec_comp_item *it;
		mc_trans(2);
		mc_buf_add(b, "%d:", i);
		if (p == NULL) mc_buf_add(b, "error");
		else ptext(b, p);
		ec_pnode_free(p);
		c = ec_complete_strvec(n, inputs[i]);
		if (c == NULL) mc_buf_add(b, " error\n");
		else {
			EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
				mc_buf_add(b, " %d", ec_comp_item_get_type(it));
				mc_buf_str(b, ec_comp_item_get_str(it));
			}
			mc_buf_add(b, "\n");
			ec_comp_free(c);
		}
	}
	mc_buf_add(b, "%zu children", ec_node_get_children_count(n));
	for (size_t i = 0; i < ec_node_get_children_count(n); i++) {
		struct ec_node *c;
		unsigned r;
		if (ec_node_get_child(n, i, &c, &r) == 0) mc_buf_add(b, " %s", ec_node_id(c));
	}
}
static void set_and_check(struct ec_node *n, int t, int num, int *eff, const char *what)
{
	int ok, r;
	struct ec_config *c = mkconf(t, num, &ok), *e;
	mc_buf_reset(&b3);
	real_text(&b3, c);
	mc_desc_add(", %s %s", what, b3.s);
	errno = 0;
	r = ec_node_set_config(n, c);
	mc_trans(1);
	MC_CHECK((r == 0) == ok, "set-config", "ec_node_set_config() returns %d (errno %d), the configuration is %s", r, errno, ok ? "valid" : "invalid");
	if (r < 0) MC_CHECK(errno != 0, "set-config-errno", "refused without errno");
	if (ok) *eff = num;
	if (*eff < 0) {
		MC_CHECK(ec_node_get_config(n) == NULL, "get-config", "a refused configuration is stored");
		return;
	}
	e = mkconf(t, *eff, &ok);
	MC_CHECK(ec_node_get_config(n) != NULL && ec_config_cmp(ec_node_get_config(n), e) == 0, "get-config", "the stored configuration is not the last accepted one");
	ec_config_free(e);
}
static void node_case(int t, int c1, int c2)
{
	static struct mc_buf x, y;
	struct ec_node *n = ec_node(ntypes[t].name, "id"), *f;
	int eff = -1, ok;
	mc_desc("node %s", ntypes[t].name);
	MC_CHECK(n != NULL, "node", "cannot create the node");
	if (c1 >= 0) set_and_check(n, t, c1, &eff, "first");
	if (c2 >= 0) set_and_check(n, t, c2, &eff, "then");
	f = ec_node(ntypes[t].name, "id");
	if (eff >= 0 && ec_node_set_config(f, mkconf(t, eff, &ok)) < 0)
		mc_fail("set-config-fresh", "the configuration is refused by a fresh node");
	behaviour(&x, n);
	behaviour(&y, f);
	MC_CHECK(!strcmp(x.s, y.s), "behaviour", "the node does not behave as its last valid configuration:\n%s\n--- a fresh node:\n%s", x.s, y.s);
	mc_state(mc_hs(mc_hu(MC_H0 + 7, t), x.s));
	mc_outcome(mc_hs(mc_hu(MC_H0, t), x.s));
	ec_node_free(n);
	ec_node_free(f);
	if (eff >= 0) mc_nontrivial();
}
/* ---- wide, deep and large values ---------------------------------------- */
struct lv { char t; int64_t i; uint64_t u; const char *s; };	/* b i u s */
static const char *xs(int n, int pos, char c)	/* n letters x, with c at pos */
{
	char *s = malloc(n + 1);
	memset(s, 'x', n);
	s[n] = 0;
	if (pos >= 0) s[pos] = c;
	return s;
}
static struct lv lvs[400];
static int nlvs;
static void lv_init(void)
{
	static const int64_t iv[] = { 0, 1, -1, 5, 5 + (1ll << 32), 5 + (1ll << 31), 5 + (1ll << 16), 5 + (1ll << 8), -5, 5 - (1ll << 32), INT32_MAX, INT32_MIN,
		UINT32_MAX, 1ll + UINT32_MAX, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 1ll << 62, 1ll << 53, (1ll << 53) + 1 };
	static const uint64_t uv[] = { 0, 1, 5, 5 + (1ull << 32), 5 + (1ull << 31), 5 + (1ull << 16), 5 + (1ull << 8), UINT32_MAX, 1ull + UINT32_MAX, INT64_MAX, 1ull << 63,
		UINT64_MAX, UINT64_MAX - 1, (1ull << 53) + 1, 1ull << 53 };
	static const char *const sv[] = { "", "a", "A", "aa", "a ", " a", "a\n", "%s%d%n", "a\tb", "true", "5", "-1", "\x7f", "\x80", "\xff", "\xc3\xa9", "b", "ab", "\"a\"", "{a:1}" };
	static const int len[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 70000 };
	unsigned k;
	if (nlvs) return;
	for (k = 0; k < 2; k++) lvs[nlvs++] = (struct lv){ .t = 'b', .i = k };
	for (k = 0; k < sizeof(iv) / sizeof(*iv); k++) lvs[nlvs++] = (struct lv){ .t = 'i', .i = iv[k] };
	for (k = 0; k < sizeof(uv) / sizeof(*uv); k++) lvs[nlvs++] = (struct lv){ .t = 'u', .u = uv[k] };
	for (k = 0; k < sizeof(sv) / sizeof(*sv); k++) lvs[nlvs++] = (struct lv){ .t = 's', .s = sv[k] };
	for (k = 0; k < sizeof(len) / sizeof(*len); k++) {
		lvs[nlvs++] = (struct lv){ .t = 's', .s = xs(len[k], -1, 0) };
		lvs[nlvs++] = (struct lv){ .t = 's', .s = xs(len[k], 0, 'y') };
		lvs[nlvs++] = (struct lv){ .t = 's', .s = xs(len[k], len[k] / 2, 'X') };
		lvs[nlvs++] = (struct lv){ .t = 's', .s = xs(len[k], len[k] - 1, 'w') };
	}
}
static struct ec_config *lv_build(const struct lv *v)
{
	return v->t == 'b' ? ec_config_bool(v->i) : v->t == 'i' ? ec_config_i64(v->i) : v->t == 'u' ? ec_config_u64(v->u) : ec_config_string(v->s);
}
static void lv_text(struct mc_buf *b, const struct lv *v)
{
	if (v->t == 'b') mc_buf_add(b, "%s", v->i ? "true" : "false");
	else if (v->t == 'i') mc_buf_add(b, "i%" PRIi64, v->i);
	else if (v->t == 'u') mc_buf_add(b, "u%" PRIu64, v->u);
	else mc_buf_add(b, "\"%s\"", v->s);
}
static int lv_eq(const struct lv *a, const struct lv *b)
{
	return a->t == b->t && a->i == b->i && a->u == b->u && (a->t != 's' || !strcmp(a->s, b->s));
}
static char *dump_of(struct ec_config *c)
{
	char *s = NULL;
	size_t n = 0;
	FILE *f = open_memstream(&s, &n);
	ec_config_dump(f, c);
	fclose(f);
	return s;
}
/* wrapped: 0 alone, 1 in a list, 2 in a dictionary, 3 deeper */
static struct ec_config *wrap(struct ec_config *c, int w)
{
	struct ec_config *l;
	if (w == 1 || w == 3) { l = ec_config_list(); ec_config_list_add(l, ec_config_bool(true)); ec_config_list_add(l, c); c = l; }
	if (w >= 2) { l = ec_config_dict(); ec_config_dict_set(l, "k", c); c = l; }
	return c;
}
static void big_scalar(int k, int w)
{
	static const char *const tn[] = { ['b'] = "bool", ['i'] = "int64", ['u'] = "uint64", ['s'] = "string" };
	struct ec_config *c = wrap(lv_build(&lvs[k]), w), *d;
	mc_buf_reset(&b3);
	lv_text(&b3, &lvs[k]);
	mc_desc("scalar %.60s (%zu bytes) wrap %d", b3.s, b3.len, w);
	mc_state(mc_hu(mc_hs(MC_H0 + 5, b3.s), w));
	d = ec_config_dup(c);
	if (w == 0) {
		char *t = dump_of(c);
		expect_text(c, b3.s, "content", "scalar");
		mc_buf_reset(&b1);
		mc_buf_add(&b1, "------------------- config dump:\ntype=%s val=", tn[(int)lvs[k].t]);
		if (lvs[k].t == 's') mc_buf_add(&b1, "%s\n", lvs[k].s);
		else mc_buf_add(&b1, "%s\n", b3.s + (lvs[k].t != 'b'));
		MC_CHECK(!strcmp(t, b1.s), "dump", "the dump is\n%s\ninstead of\n%s", t, b1.s);
		free(t);
		expect_text(d, b3.s, "content", "duplicate of a scalar");
	}
	MC_CHECK(ec_config_cmp(c, d) == 0 && ec_config_cmp(d, c) == 0, "dup-cmp", "the duplicate is not equal");
	ec_config_free(d);
	for (int j = 0; j < nlvs; j++) {
		int r;
		d = wrap(lv_build(&lvs[j]), w);
		r = ec_config_cmp(c, d);
		mc_trans(1);
		if ((r == 0) != lv_eq(&lvs[k], &lvs[j])) {
			mc_buf_reset(&b1);
			lv_text(&b1, &lvs[j]);
			MC_CHECK(0, "cmp", "compared with %.100s: %d", b1.s, r);
		}
		ec_config_free(d);
	}
	ec_config_free(c);
	mc_nontrivial();
	mc_outcome(mc_hu(MC_H0, lvs[k].t));
}
/* containers of n values; alt: which one differs (-1: none), how */
static const char *kname(int i, int style)
{
	static char s[2][400];
	static int x;
	x = !x;
	if (style == 0) snprintf(s[x], sizeof(s[x]), "k%d", i);
	else if (style == 1) { memset(s[x], 'p', 260); snprintf(s[x] + 260, 20, "%d", i); }
	else snprintf(s[x], sizeof(s[x]), "%d k\n%c%d", i * 7919, 'A' + i % 26, i);
	return s[x];
}
static struct ec_config *many(int list, int n, int style, int order, int alt, int how)
{
	struct ec_config *c = list ? ec_config_list() : ec_config_dict(), *v;
	int q, i;
	for (q = 0; q < n + (how == 3); q++) {
		i = list || order == 0 ? q : order == 1 ? n - 1 - q : (q * 7 + 3) % n;
		if (q == n) i = n;
		if (i == alt && how == 1) continue;
		v = i % 3 == 0 ? ec_config_i64(i == alt && how == 0 ? -i - 1 : i) : i % 3 == 1 ? ec_config_string(i == alt && how == 0 ? "other" : kname(i, 0)) :
			ec_config_bool(i == alt && how == 0);
		if (how == 2 && i == alt) { ec_config_free(v); v = ec_config_u64(i); }
		if ((list ? ec_config_list_add(c, v) : ec_config_dict_set(c, kname(i, style), v)) < 0) mc_fail("add", "element %d refused", i);
	}
	return c;
}
static void many_text(struct mc_buf *b, int list, int n, int style, int order)
{
	mc_buf_reset(b);
	mc_buf_add(b, list ? "[" : "{");
	for (int q = 0; q < n; q++) {
		int i = list || order == 0 ? q : order == 1 ? n - 1 - q : (q * 7 + 3) % n;
		if (q) mc_buf_add(b, ",");
		if (!list) mc_buf_add(b, "%s:", kname(i, style));
		if (i % 3 == 0) mc_buf_add(b, "i%d", i);
		else if (i % 3 == 1) mc_buf_add(b, "\"%s\"", kname(i, 0));
		else mc_buf_add(b, "false");
	}
	mc_buf_add(b, list ? "]" : "}");
}
static void wide(int list, int n, int style)
{
	struct ec_config *c, *d;
	int order, alt, how, step = n <= 40 ? 1 : n / 13;
	mc_desc("%s of %d values (keys of style %d)", list ? "list" : "dictionary", n, style);
	mc_state(mc_hu(mc_hu(mc_hu(MC_H0 + 6, n), list), style));
	c = many(list, n, style, 0, -1, 0);
	for (order = 0; order < (list || n % 7 == 0 ? 1 : 3); order++) {
		d = many(list, n, style, order, -1, 0);
		many_text(&b1, list, n, style, order);
		expect_text(d, b1.s, "content", "wide value");
		MC_CHECK(ec_config_cmp(c, d) == 0 && ec_config_cmp(d, c) == 0, "cmp", "order %d: not equal", order);
		ec_config_free(d);
		mc_trans(2);
	}
	d = ec_config_dup(c);
	many_text(&b1, list, n, style, 0);
	expect_text(d, b1.s, "content", "duplicate");
	{
		char *t = dump_of(d), *u = dump_of(c), *s;
		int nl = 0, want = n + 2;
		for (s = t; *s; s++) nl += *s == '\n';
		if (!list && style == 2) want += n;
		MC_CHECK(!strcmp(t, u), "dump", "the dump of the duplicate differs");
		MC_CHECK(nl == want, "dump", "the dump has %d lines", nl);
		free(t);
		free(u);
	}
	ec_config_free(d);
	for (how = 0; how < 4; how++)
		for (alt = 0; alt < n; alt += alt + step < n || alt == n - 1 ? step : n - 1 - alt) {
			if (how == 3) alt = n - 1;
			d = many(list, n, style, 0, alt, how);
			mc_trans(2);
			MC_CHECK(ec_config_cmp(c, d) != 0 && ec_config_cmp(d, c) != 0, "cmp", "equal although value %d differs (%s)", alt,
				how == 0 ? "value" : how == 1 ? "removed" : how == 2 ? "type" : "one more");
			ec_config_free(d);
		}
	/* removal of one element, at each position */
	for (alt = 0; alt < n; alt += step) {
		struct ec_config *x, *e;
		d = ec_config_dup(c);
		if (list) {
			x = ec_config_list_first(d);
			for (int i = 0; i < alt; i++) x = ec_config_list_next(d, x);
			ec_config_list_del(d, x);
		} else
			MC_CHECK(ec_config_dict_del(d, kname(alt, style)) == 0, "del", "key %d not removed", alt);
		e = many(list, n, style, 0, alt, 1);
		MC_CHECK(ec_config_count(d) == n - 1, "count", "%zd values after a removal", ec_config_count(d));
		MC_CHECK(ec_config_cmp(d, e) == 0 && ec_config_cmp(e, d) == 0, "cmp", "value %d removed: differs from a value built without it", alt);
		mc_trans(2);
		ec_config_free(d);
		ec_config_free(e);
	}
	ec_config_free(c);
	mc_nontrivial();
}
static struct ec_config *nest(int depth, int kind, int leaf)
{
	struct ec_config *c = ec_config_i64(leaf), *l;
	for (int i = 0; i < depth; i++) {
		if (kind == 0 || (kind == 2 && i % 2)) { l = ec_config_list(); ec_config_list_add(l, c); }
		else { l = ec_config_dict(); ec_config_dict_set(l, kind == 3 ? "w" : "k", c); }
		c = l;
	}
	return c;
}
static void deep(int depth, int kind)
{
	struct ec_config *c = nest(depth, kind, 1), *d = ec_config_dup(c), *e;
	char *t, *p;
	int nl = 0;
	mc_desc("nesting of %d levels, kind %d", depth, kind);
	mc_state(mc_hu(mc_hu(MC_H0 + 7, depth), kind));
	mc_buf_reset(&b1);
	for (int i = depth - 1; i >= 0; i--) mc_buf_add(&b1, kind == 0 || (kind == 2 && i % 2) ? "[" : "{k:");
	mc_buf_add(&b1, "i1");
	for (int i = 0; i < depth; i++) mc_buf_add(&b1, kind == 0 || (kind == 2 && i % 2) ? "]" : "}");
	expect_text(c, b1.s, "content", "nested value");
	expect_text(d, b1.s, "content", "duplicate");
	MC_CHECK(ec_config_cmp(c, d) == 0, "dup-cmp", "the duplicate is not equal");
	t = dump_of(d);
	for (p = t; *p; p++) nl += *p == '\n';
	MC_CHECK(nl == depth + 2, "dump", "the dump has %d lines:\n%s", nl, t);
	mc_buf_reset(&b1);
	mc_buf_add(&b1, "\n%*s%stype=int64 val=1\n", depth * 4, "", depth == 0 || kind == 0 || (kind == 2 && 0) ? "" : "key=k ");
	MC_CHECK(nl < 2 || strlen(t) < b1.len || !strcmp(t + strlen(t) - b1.len, b1.s), "dump", "the dump ends with %s", t + strlen(t) - b1.len);
	free(t);
	e = nest(depth, kind, 2);
	MC_CHECK(ec_config_cmp(c, e) != 0, "cmp", "equal with another leaf");
	ec_config_free(e);
	e = nest(depth + 1, kind, 1);
	MC_CHECK(ec_config_cmp(c, e) != 0, "cmp", "equal with one more level");
	ec_config_free(e);
	if (kind == 1) {
		e = nest(depth, 3, 1);
		MC_CHECK((ec_config_cmp(c, e) != 0) == (depth > 0), "cmp", "compared with other keys");
		ec_config_free(e);
	}
	ec_config_free(c);
	ec_config_free(d);
	mc_trans(4);
	mc_nontrivial();
}
/* a schema of n keys, type of key i: i % 3 (i64, string, bool) as in many() */
static void wide_schema(int n, int style)
{
	struct ec_config_schema *s = calloc(n + 2, sizeof(*s));
	struct ec_config *c;
	int i, how;
	mc_desc("schema of %d keys (style %d)", n, style);
	mc_state(mc_hu(mc_hu(MC_H0 + 8, n), style));
	for (i = 0; i < n; i++) {
		s[i].key = strdup(kname(i, style));
		s[i].desc = "d";
		s[i].type = i % 3 == 0 ? EC_CONFIG_TYPE_INT64 : i % 3 == 1 ? EC_CONFIG_TYPE_STRING : EC_CONFIG_TYPE_BOOL;
	}
	MC_CHECK(ec_config_schema_validate(s) == 0, "schema-refused", "the schema is refused");
	for (i = 0; i < n; i++) {
		const char *k = s[i].key;
		MC_CHECK(ec_config_schema_lookup(s, k) == &s[i], "schema-lookup", "key %d", i);
		c = many(0, n, style, 0, i, 2);
		MC_CHECK(ec_config_validate(c, s) < 0, "validate", "accepted although key %d has another type", i);
		ec_config_free(c);
		c = many(0, n, style, 0, i, 1);
		MC_CHECK(ec_config_validate(c, s) == 0, "validate", "refused without key %d", i);
		ec_config_dict_set(c, "unknown", ec_config_i64(1));
		MC_CHECK(ec_config_validate(c, s) < 0, "validate", "accepted with an unknown key");
		ec_config_free(c);
		c = ec_config_dict();
		ec_config_dict_set(c, k, i % 3 == 0 ? ec_config_i64(1) : i % 3 == 1 ? ec_config_string("") : ec_config_bool(true));
		MC_CHECK(ec_config_validate(c, s) == 0, "validate", "key %d alone refused", i);
		ec_config_free(c);
		mc_trans(5);
		/* a key twice, the second time as the last element */
		if (i < n - 1) {
			const char *last = s[n - 1].key;
			s[n - 1].key = k;
			MC_CHECK(ec_config_schema_validate(s) < 0, "schema-dup", "accepted with key %d twice", i);
			s[n - 1].key = last;
		}
		/* malformed at element i */
		for (how = 0; how < 3; how++) {
			struct ec_config_schema o = s[i];
			if (how == 0) s[i].key = "help";
			else if (how == 1) s[i].key = NULL;
			else s[i].type = EC_CONFIG_TYPE_LIST;
			if (how != 1 || n > 1)
				MC_CHECK(ec_config_schema_validate(s) < 0, "schema-bad", "accepted although element %d is malformed (%d)", i, how);
			s[i] = o;
		}
	}
	c = many(0, n, style, 1, -1, 0);
	MC_CHECK(ec_config_validate(c, s) == 0, "validate", "refused with all the keys");
	ec_config_free(c);
	MC_CHECK(ec_config_schema_lookup(s, "unknown") == NULL, "schema-lookup", "unknown key found");
	for (i = 0; i < n; i++) free((char *)s[i].key);
	free(s);
	mc_nontrivial();
}
/* a list of n values of a schema: one of them wrong */
static void list_schema(int n)
{
	static const struct ec_config_schema sub[] = { { .desc = "d", .type = EC_CONFIG_TYPE_STRING }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema top[] = { { .key = "l", .desc = "d", .type = EC_CONFIG_TYPE_LIST, .subschema = sub }, { .type = EC_CONFIG_TYPE_NONE } };
	mc_desc("validation of a list of %d values", n);
	mc_state(mc_hu(MC_H0 + 9, n));
	for (int bad = -1; bad < n; bad++) {
		struct ec_config *c = ec_config_dict(), *l = ec_config_list();
		for (int i = 0; i < n; i++) ec_config_list_add(l, i == bad ? ec_config_i64(1) : ec_config_string("x"));
		ec_config_dict_set(c, "l", l);
		MC_CHECK((ec_config_validate(c, top) == 0) == (bad < 0), "validate", "wrong element %d", bad);
		mc_trans(1);
		ec_config_free(c);
	}
	mc_nontrivial();
}
static void reserved(void)
{
	static const char *const res[] = { "id", "attrs", "help", "type" };
	static const char *const no[] = { "", "i", "ids", "ID", "Id", "attr", "attrs2", "hel", "helps", "types", "typ", "foo", "idattrs" };
	unsigned i;
	if (!mc_next()) return;
	mc_desc("reserved keys");
	for (i = 0; i < 4; i++) MC_CHECK(ec_config_key_is_reserved(res[i]), "reserved", "%s is not reserved", res[i]);
	for (i = 0; i < 13; i++) MC_CHECK(!ec_config_key_is_reserved(no[i]), "reserved", "%s is reserved", no[i]);
	mc_trans(17);
	mc_end();
}
static void scale(void)
{
	static const int wn[] = { 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 127, 128, 129, 200, 255, 256, 257, 300, 520 };
	unsigned i, j;
	lv_init();
	for (i = 0; i < (unsigned)nlvs; i++)
		for (j = 0; j < 4; j++)
			if (mc_next()) { big_scalar(i, j); mc_end(); }
	for (i = 0; i < sizeof(wn) / sizeof(*wn); i++)
		for (j = 0; j < 4; j++)
			if (mc_next()) { wide(j == 3, wn[i], j % 3); mc_end(); }
	for (i = 0; i <= 70; i++)
		for (j = 0; j < 3; j++)
			if (mc_next()) { deep(i, j); mc_end(); }
	for (j = 0; j < 3; j++)
		if (mc_next()) { deep(300, j); mc_end(); }
	for (i = 1; i <= 70; i++)
		for (j = 0; j < 3; j++)
			if (mc_next()) { wide_schema(i, j); mc_end(); }
	for (i = 0; i <= 70; i++)
		if (mc_next()) { list_schema(i); mc_end(); }
	if (mc_next()) { list_schema(300); mc_end(); }
}

/* ---- setters: the same as a configuration -------------------------------- */
struct sm { int set; const char *s; int child; int64_t mn, mx; int l[8], nl; };	/* model of the node */
static const char *const st_types[] = { "str", "re", "many", "option", "once", "bypass", "seq", "or" };
#define ST_NT 8
#define ST_OPS 8
static struct ec_config *sm_conf(int t, const struct sm *m)
{
	struct ec_config *c = ec_config_dict(), *l;
	switch (t) {
	case 0: ec_config_dict_set(c, "string", ec_config_string(m->s)); break;
	case 1: ec_config_dict_set(c, "pattern", ec_config_string(m->s)); break;
	case 2:
		ec_config_dict_set(c, "child", ec_config_node(ec_node_clone(kid[m->child])));
		if (m->mn >= 0) ec_config_dict_set(c, "min", ec_config_u64(m->mn));
		if (m->mx >= 0) ec_config_dict_set(c, "max", ec_config_u64(m->mx));
		break;
	case 6: case 7:
		l = ec_config_list();
		for (int i = 0; i < m->nl; i++) ec_config_list_add(l, ec_config_node(ec_node_clone(kid[m->l[i]])));
		ec_config_dict_set(c, "children", l);
		break;
	default: ec_config_dict_set(c, "child", ec_config_node(ec_node_clone(kid[m->child]))); break;
	}
	return c;
}
static int st_set(int t, struct ec_node *n, int k)
{
	struct ec_node *c = k < 0 ? NULL : ec_node_clone(kid[k]);
	switch (t) {
	case 3: return ec_node_option_set_child(n, c);
	case 4: return ec_node_once_set_child(n, c);
	case 5: return ec_node_bypass_set_child(n, c);
	case 6: return ec_node_seq_add(n, c);
	default: return ec_node_or_add(n, c);
	}
}
/* one operation on the node and on the model; NULL: no such operation */
static const char *st_op(int t, int op, struct ec_node *n, struct sm *m)
{
	static const char *const sv[] = { "a", "x", "", NULL }, *const rv[] = { "a+", "a|b", "(a", NULL };
	static const struct { int c; unsigned mn, mx; } mv[] = { { 0, 0, 0 }, { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
	static char nm[64];
	struct sm x = *m;
	int r, ok = 1;

	errno = 0;
	if (op == ST_OPS - 1) {            /* a configuration */
		struct sm y = { 1, t ? "b|c" : "b", 1, -1, -1, { 1, 0 }, 2 };
		x = y;
		r = ec_node_set_config(n, sm_conf(t, &y));
		snprintf(nm, sizeof(nm), "set_config");
	} else if (op == ST_OPS - 2) {     /* a refused one */
		struct ec_config *c = ec_config_dict();
		ec_config_dict_set(c, "zz", ec_config_u64(1));
		r = ec_node_set_config(n, c);
		ok = 0;
		snprintf(nm, sizeof(nm), "set_config with an unknown key");
	} else if (op == ST_OPS - 3) {     /* setter of another type */
		struct ec_node *o = ec_node_clone(kid[t == 0]), *z = ec_node("none", "z");
		switch (t) {
		case 0: r = ec_node_str_set_str(z, "q"); ec_node_free(o); break;
		case 1: r = ec_node_re_set_regexp(z, "q"); ec_node_free(o); break;
		case 2: r = ec_node_many_set_params(z, o, 1, 1); break;
		case 3: r = ec_node_option_set_child(z, o); break;
		case 4: r = ec_node_once_set_child(z, o); break;
		case 5: r = ec_node_bypass_set_child(z, o); break;
		case 6: r = ec_node_seq_add(z, o); break;
		default: r = ec_node_or_add(z, o); break;
		}
		MC_CHECK(ec_node_get_config(z) == NULL, "setter-type", "the setter configures a node of another type");
		ec_node_free(z);
		ok = 0;
		snprintf(nm, sizeof(nm), "setter on a none node");
	} else if (t < 2) {
		if (op > 3) return NULL;
		x = (struct sm){ 1, (t ? rv : sv)[op], 0, -1, -1, { 0 }, 0 };
		ok = t ? op < 2 : op < 3;
		if (t == 0) {
			char *cp = x.s ? strdup(x.s) : NULL;
			r = ec_node_str_set_str(n, cp);
			if (cp) memset(cp, '#', strlen(cp));     /* the string is duplicated */
			free(cp);
		} else {
			char *cp = x.s ? strdup(x.s) : NULL;
			r = ec_node_re_set_regexp(n, cp);
			if (cp) memset(cp, '#', strlen(cp));
			free(cp);
		}
		snprintf(nm, sizeof(nm), "set \"%s\"", x.s ? x.s : "(null)");
	} else if (t == 2) {
		if (op > 4) return NULL;
		if (op == 4) { r = ec_node_many_set_params(n, NULL, 1, 1); ok = 0; snprintf(nm, sizeof(nm), "set_params(NULL)"); }
		else {
			x = (struct sm){ 1, NULL, mv[op].c, mv[op].mn, mv[op].mx, { 0 }, 0 };
			r = ec_node_many_set_params(n, ec_node_clone(kid[x.child]), mv[op].mn, mv[op].mx);
			snprintf(nm, sizeof(nm), "set_params(%s, %u, %u)", ec_node_id(kid[x.child]), mv[op].mn, mv[op].mx);
		}
	} else {
		if (op > 3) return NULL;
		r = st_set(t, n, op == 3 ? -1 : op);
		ok = op < 3;
		x.set = 1; x.mn = x.mx = -1; x.child = op;
		x.l[x.nl++] = op;
		snprintf(nm, sizeof(nm), "%s %s", t < 6 ? "set_child" : "add", op == 3 ? "NULL" : ec_node_id(kid[op]));
	}
	mc_trans(1);
	mc_desc_add(", %s", nm);
	MC_CHECK((r == 0) == ok, "setter", "returns %d, %s expected", r, ok ? "success" : "a refusal");
	if (r < 0) MC_CHECK(errno != 0, "setter-errno", "refused without errno");
	if (ok) *m = x;
	return nm;
}
static void st_case(int t, int ctor, const int *op, int nop)
{
	static struct mc_buf x, y;
	struct sm m = { 0, NULL, 0, -1, -1, { 0 }, 0 };
	struct ec_node *n = NULL, *f;
	mc_desc("%s%s", ctor ? "constructed " : "", st_types[t]);
	if (!ctor) n = ec_node(st_types[t], "id");
	else {
		m.set = 1;
		switch (t) {
		case 0: n = ec_node_str("id", m.s = "a"); break;
		case 1: n = ec_node_re("id", m.s = "a"); break;
		case 2: n = ec_node_many("id", ec_node_clone(kid[0]), 1, 2); m.mn = 1; m.mx = 2; break;
		case 3: n = ec_node_option("id", ec_node_clone(kid[0])); break;
		case 4: n = ec_node_once("id", ec_node_clone(kid[0])); break;
		case 5: n = ec_node_bypass("id", ec_node_clone(kid[0])); break;
		case 6: n = EC_NODE_SEQ("id", ec_node_clone(kid[0]), ec_node_clone(kid[1])); break;
		default: n = EC_NODE_OR("id", ec_node_clone(kid[0]), ec_node_clone(kid[1])); break;
		}
		m.l[0] = 0; m.l[1] = 1; m.nl = 2;
	}
	MC_CHECK(n != NULL, "node", "cannot create the node");
	for (int i = 0; i < nop; i++)
		if (st_op(t, op[i], n, &m) == NULL) { ec_node_free(n); return; }
	f = ec_node(st_types[t], "id");
	if (!m.set) MC_CHECK(ec_node_get_config(n) == NULL, "setter-config", "a refused value is stored");
	else {
		struct ec_config *e = sm_conf(t, &m);
		MC_CHECK(ec_node_get_config(n) != NULL && ec_config_cmp(ec_node_get_config(n), e) == 0, "setter-config",
			"the configuration of the node is not the one its setters describe");
		if (ec_node_set_config(f, e) < 0) mc_fail("set-config-fresh", "the configuration is refused by a fresh node");
	}
	behaviour(&x, n);
	behaviour(&y, f);
	MC_CHECK(!strcmp(x.s, y.s), "setter-behaviour", "the node does not behave as configured:\n%s\n--- a fresh node:\n%s", x.s, y.s);
	mc_state(mc_hs(mc_hu(MC_H0 + 9, t), x.s));
	mc_outcome(mc_hs(mc_hu(MC_H0 + 1, t), x.s));
	ec_node_free(n);
	ec_node_free(f);
	mc_nontrivial();
}
static void setters(int max)
{
	int op[6], t, n, i, ctor;
	for (t = 0; t < ST_NT; t++)
		for (ctor = 0; ctor < 2; ctor++)
			for (n = 0; n <= max; n++) {
				memset(op, 0, sizeof(op));
				for (;;) {
					if (mc_next()) { st_case(t, ctor, op, n); mc_end(); }
					for (i = n - 1; i >= 0 && ++op[i] == ST_OPS; i--) op[i] = 0;
					if (i < 0) break;
				}
			}
}

static struct ec_strvec *mkin(int n, const char *a, const char *b, const char *c)
{
	const char *v[] = { a, b, c };
	return ec_strvec_from_array(v, n);
}

void mc_run(void)
{
	static const enum vt all[] = { V_TRUE, V_FALSE, V_IM1, V_IMIN, V_I5, V_U5, V_UMAX, V_SE, V_SA, V_N0, V_N1 };
	static const enum vt few[] = { V_TRUE, V_I5, V_U5, V_SA };
	int i, j, t, n3, n4;

	ec_log_level_set(EC_LOG_EMERG);
	nodes[0] = ec_node_str("n0", "p");
	nodes[1] = ec_node_str("n1", "q");
	kid[0] = ec_node_str("ka", "a");
	kid[1] = ec_node_str("kb", "b");
	kid[2] = ec_node_option("kc", ec_node_str("kcc", "c"));
	kid[3] = ec_node_any("kx", "x");
	inputs[ninputs++] = mkin(0, 0, 0, 0);
	inputs[ninputs++] = mkin(1, "a", 0, 0);
	inputs[ninputs++] = mkin(1, "b", 0, 0);
	inputs[ninputs++] = mkin(1, "", 0, 0);
	inputs[ninputs++] = mkin(1, "a a", 0, 0);
	inputs[ninputs++] = mkin(1, "10", 0, 0);
	inputs[ninputs++] = mkin(1, "1", 0, 0);
	inputs[ninputs++] = mkin(1, "-5", 0, 0);
	inputs[ninputs++] = mkin(1, "c", 0, 0);
	inputs[ninputs++] = mkin(2, "a", "b", 0);
	inputs[ninputs++] = mkin(2, "a", "", 0);
	inputs[ninputs++] = mkin(2, "b", "a", 0);
	inputs[ninputs++] = mkin(2, "a", "a", 0);
	inputs[ninputs++] = mkin(2, "b", "c", 0);
	inputs[ninputs++] = mkin(3, "a", "a", "a");
	inputs[ninputs] = mkin(1, "a", 0, 0);
	{
		struct ec_dict *d = ec_dict();
		ec_dict_set(d, "x", NULL, NULL);
		ec_strvec_set_attrs(inputs[ninputs++], 0, d);
	}

	/* A: values, copies, comparison */
	lf = all; nlf = 11;
	enum_values(mc_thorough ? 4 : 3);
	for (i = 0; i < nsp; i++)
		if (mc_next()) { one_value(sp[i]); mc_end(); }
	all_pairs(spoff[4]);
	/* B: schemas x values */
	lf = all; nlf = 11;
	enum_schemas(4);
	for (i = 0; i < nss; i++)
		if (ss[i]->t == EC_CONFIG_TYPE_DICT && mc_next()) { one_schema(ss[i], spoff[4]); mc_end(); }
	lf = few; nlf = 4;
	enum_values(mc_thorough ? 5 : 4);
	n4 = nsp;
	for (i = 0; i < nsp; i++)
		if (mc_next()) { one_value(sp[i]); mc_end(); }
	n3 = mc_thorough ? spoff[5] : spoff[4];
	all_pairs(n3);
	for (i = 0; i < (mc_thorough ? nss : ssoff[4]); i++)
		if (ss[i]->t == EC_CONFIG_TYPE_DICT && mc_next()) { one_schema(ss[i], n4 < 8000 ? n4 : spoff[5]); mc_end(); }
	{
		struct el e[3];
		int k, s, k2, t2, s2;
		if (mc_next()) { bad_schema(0, e); mc_end(); }
		for (k = 0; k < 8; k++) for (t = 0; t < 8; t++) for (s = 0; s < NSUB; s++) {
			e[0] = (struct el){ k, t, s };
			if (mc_next()) { bad_schema(1, e); mc_end(); }
			for (k2 = 0; k2 < 8; k2++) for (t2 = 0; t2 < 8; t2++) for (s2 = 0; s2 < NSUB; s2++) {
				e[1] = (struct el){ k2, t2, s2 };
				if (mc_next()) { bad_schema(2, e); mc_end(); }
			}
		}
	}
	scale();
	reserved();
	setters(mc_thorough ? 4 : 3);
	/* C: histories */
	{
		int op[8], n, max = mc_thorough ? 5 : 4;
		for (n = 1; n <= max; n++) {
			memset(op, 0, sizeof(op));
			for (;;) {
				if (mc_next()) { run_history(op, n); mc_end(); }
				for (i = n - 1; i >= 0 && ++op[i] == NOPS; i--) op[i] = 0;
				if (i < 0) break;
			}
		}
	}
	/* D: node types */
	for (t = 0; t < NTYPES; t++) {
		int n = nconf(t);
		if (mc_next()) { node_case(t, -1, -1); mc_end(); }
		for (i = 0; i < n; i++) {
			if (mc_next()) { node_case(t, i, -1); mc_end(); }
			for (j = 0; j < n; j++)
				if (mc_next()) { node_case(t, i, j); mc_end(); }
		}
	}
	for (i = 0; i < ninputs; i++) ec_strvec_free(inputs[i]);
	for (i = 0; i < 2; i++) ec_node_free(nodes[i]);
	for (i = 0; i < 4; i++) ec_node_free(kid[i]);
}
