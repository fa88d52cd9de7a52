/* C18: import of YAML documents, compared with the same grammar built through the API: every document over a set of
 * types, keys and values, every small graph of nodes with anchors and aliases, malformed texts. */
#include <ecoli.h>
#include <fcntl.h>
#include <limits.h>
#include <unistd.h>
#include <sys/stat.h>
#include "mc.h"

size_t __sanitizer_get_current_allocated_bytes(void);

/* ---- documents ------------------------------------------------------------- */
enum yk { YS, YQ, YM, YA };        /* scalar, sequence, mapping, alias */
struct Y { enum yk k; const char *t; int n; int cap; struct Y **e, *e0[16]; int anchor; struct Y *to; struct ec_node *ref; int open; };
#define NARENA 9000
static struct Y arena[NARENA];
static int na;
static struct Y *ynew(enum yk k) { struct Y *y = &arena[na++]; if (na >= NARENA) mc_bug("arena"); if (y->cap > 16) free(y->e); memset(y, 0, sizeof(*y)); y->k = k; y->e = y->e0; y->cap = 16; return y; }
static struct Y *S(const char *t) { struct Y *y = ynew(YS); y->t = t; return y; }
static struct Y *add(struct Y *y, struct Y *v)
{
	if (y->n == y->cap) {
		struct Y **e = malloc(y->cap * 2 * sizeof(*e));
		memcpy(e, y->e, y->n * sizeof(*e));
		if (y->cap > 16) free(y->e);
		y->e = e; y->cap *= 2;
	}
	y->e[y->n++] = v;
	return y;
}
static struct Y *kv(struct Y *y, const char *k, struct Y *v) { add(y, S(k)); return add(y, v); }
static struct Y *Q(void) { return ynew(YQ); }
static struct Y *M(void) { return ynew(YM); }
static struct Y *alias(struct Y *to) { struct Y *y = ynew(YA); y->to = to; if (!to->anchor) to->anchor = to - arena + 1; return y; }
static struct Y *strnode(const char *s) { return kv(kv(M(), "type", S("str")), "string", S(s)); }

static struct mc_buf txt;
static int plain_ok(const char *s)
{
	const char *p;
	if (*s == 0 || !strcmp(s, "-")) return 0;
	for (p = s; *p; p++) if (!strchr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+", *p) && !(*p == '-' && p == s)) return 0;
	return 1;
}
static void scalar(const char *s, int plain)
{
	if (plain && plain_ok(s)) { mc_buf_add(&txt, "%s", s); return; }
	if (plain && !strchr(s, '\'') && !strchr(s, '\n')) { mc_buf_add(&txt, "'%s'", s); return; }
	mc_buf_add(&txt, "\"");
	for (; *s; s++) {
		if (*s == '"' || *s == '\\') mc_buf_add(&txt, "\\%c", *s);
		else if (*s == '\n') mc_buf_add(&txt, "\\n");
		else mc_buf_add(&txt, "%c", *s);
	}
	mc_buf_add(&txt, "\"");
}
static void flow(struct Y *y, int plain)
{
	int i;
	if (y->k == YA) { mc_buf_add(&txt, "*n%d ", y->to->anchor); return; }
	if (y->anchor) mc_buf_add(&txt, "&n%d ", y->anchor);
	if (y->k == YS) { scalar(y->t, plain); return; }
	mc_buf_add(&txt, y->k == YQ ? "[" : "{");
	for (i = 0; i < y->n; i++) {
		if (i && (y->k == YQ || i % 2 == 0)) mc_buf_add(&txt, ", ");
		if (y->k == YM && i % 2 == 0 && y->e[i]->k != YS) mc_buf_add(&txt, "? ");
		flow(y->e[i], plain);
		if (y->k == YM && i % 2 == 0) mc_buf_add(&txt, " : ");
	}
	mc_buf_add(&txt, y->k == YQ ? "]" : "}");
}
/* `y` starts on a new line with that indentation, or is inline */
static void block(struct Y *y, int ind)
{
	int i;
	if (y->k == YS || y->k == YA || y->n == 0) { mc_buf_add(&txt, " "); flow(y, 1); mc_buf_add(&txt, "\n"); return; }
	if (y->anchor) mc_buf_add(&txt, " &n%d", y->anchor);
	mc_buf_add(&txt, "\n");
	for (i = 0; i < y->n; i++) {
		mc_buf_add(&txt, "%*s", ind, "");
		if (y->k == YQ) { mc_buf_add(&txt, "-"); block(y->e[i], ind + 2); continue; }
		if (y->e[i]->k != YS) { mc_buf_add(&txt, "? "); flow(y->e[i], 1); mc_buf_add(&txt, "\n%*s:", ind, ""); }
		else { flow(y->e[i], 1); mc_buf_add(&txt, ":"); }
		block(y->e[++i], ind + 2);
	}
}
static void render(struct Y *y, int style)
{
	mc_buf_reset(&txt);
	if (style == 0) flow(y, 0);
	else if (style == 1) { mc_buf_add(&txt, "# comment\n---"); block(y, 0); }
	else { mc_buf_add(&txt, "%%YAML 1.1\n--- "); flow(y, 1); mc_buf_add(&txt, "\n...\n"); }
	mc_buf_add(&txt, "\n");
}

/* ---- reference: the same grammar through the API ---------------------------- */
/* s string, i/u integers, n node, L list of nodes, P list of patterns */
static const struct { const char *name, *keys[4]; } types[] = {
	{ "any", { "s:attr" } }, { "bypass", { "n:child" } }, { "cmd", { "s:expr", "L:children" } }, { "cond", { "s:expr", "n:child" } },
	{ "int", { "i:min", "i:max", "u:base" } }, { "uint", { "u:min", "u:max", "u:base" } }, { "many", { "n:child", "u:min", "u:max" } },
	{ "once", { "n:child" } }, { "option", { "n:child" } }, { "or", { "L:children" } }, { "re", { "s:pattern" } },
	{ "re_lex", { "P:patterns", "n:child" } }, { "seq", { "L:children" } }, { "str", { "s:string" } },
	{ "nosuch" },
};
#define NT 15
static const char *pkeys[] = { "s:pattern", "b:keep", "s:attr" };
enum { OK, REFUSED };
static int unspecified;
static struct ec_node *memo[4096];
static int nmemo;
static struct ec_node *ref_node(struct Y *y);
static struct Y *deref(struct Y *y) { while (y->k == YA) y = y->to; return y; }
static int reserved(const char *k) { return !strcmp(k, "type") || !strcmp(k, "id") || !strcmp(k, "help") || !strcmp(k, "attrs"); }
static int num(const char *s, int *neg, unsigned long long *v)
{
	int base = 10, d;
	unsigned __int128 a = 0;
	*neg = 0;
	s += strspn(s, " \t\n");
	if (*s == '+' || *s == '-') *neg = *s++ == '-';
	if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s += 2; }
	else if (s[0] == '0' && s[1]) { base = 8; s++; }
	if (*s == 0) return -1;
	for (; *s; s++) {
		d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : 99;
		if (d >= base) return -1;
		a = a * base + d;
		if (a > ((unsigned __int128)1 << 64)) a = (unsigned __int128)1 << 64;
	}
	if (a >> 64) return -1;
	*v = a;
	return 0;
}
static struct ec_config *ref_dict(struct Y *y, const char *const *keys, int nk);
static struct ec_config *ref_val(struct Y *y, char kind)
{
	struct ec_config *c, *sub;
	struct ec_node *n;
	unsigned long long v;
	int neg, i;
	y = deref(y);
	switch (kind) {
	case 's': return y->k == YS ? ec_config_string(y->t) : NULL;
	case 'b':
		if (y->k != YS) return NULL;
		if (!strcasecmp(y->t, "true")) return ec_config_bool(true);
		return !strcasecmp(y->t, "false") ? ec_config_bool(false) : NULL;
	case 'i':
		if (y->k != YS || num(y->t, &neg, &v) < 0) return NULL;
		if (v > (unsigned long long)INT64_MAX + neg) return NULL;
		return ec_config_i64(neg ? (int64_t)-v : (int64_t)v);
	case 'u':
		if (y->k != YS || num(y->t, &neg, &v) < 0 || neg) return NULL;
		return ec_config_u64(v);
	case 'n':
		n = ref_node(y);
		return n ? ec_config_node(ec_node_clone(n)) : NULL;
	default:
		if (y->k != YQ) return NULL;
		c = ec_config_list();
		for (i = 0; i < y->n; i++) {
			sub = kind == 'L' ? ref_val(y->e[i], 'n') : ref_dict(deref(y->e[i]), pkeys, 3);
			if (sub == NULL) { ec_config_free(c); return NULL; }
			if (ec_config_list_add(c, sub) < 0) mc_bug("list");
		}
		return c;
	}
}
static struct ec_config *ref_dict(struct Y *y, const char *const *keys, int nk)
{
	struct ec_config *c, *sub;
	int i, j;
	if (y->k != YM) return NULL;
	c = ec_config_dict();
	for (i = 0; i < y->n; i += 2) {
		struct Y *k = deref(y->e[i]);
		if (k->k != YS) goto refused;
		if (reserved(k->t)) { if (keys == pkeys) unspecified = 1; continue; }
		if (ec_dict_has_key(c->dict, k->t)) unspecified = 1;        /* duplicate key */
		for (j = 0; j < nk && keys[j] && strcmp(keys[j] + 2, k->t); j++);
		if (j == nk || !keys[j]) goto refused;
		sub = ref_val(y->e[i + 1], keys[j][0]);
		if (sub == NULL) goto refused;
		if (ec_config_dict_set(c, k->t, sub) < 0) mc_bug("dict");
	}
	return c;
refused:
	ec_config_free(c);
	return NULL;
}
/* the returned reference belongs to the memo table */
static struct ec_node *ref_node(struct Y *y)
{
	struct Y *ty = NULL, *id = NULL, *help = NULL, *attrs = NULL, **w, *k, *v;
	struct ec_config *c;
	int i, t;
	y = deref(y);
	if (y->k != YM) return NULL;
	if (y->ref) return y->ref;
	for (i = 0; i < y->n; i += 2) {
		k = deref(y->e[i]);
		if (k->k != YS) return NULL;
		w = !strcmp(k->t, "type") ? &ty : !strcmp(k->t, "id") ? &id : !strcmp(k->t, "help") ? &help : !strcmp(k->t, "attrs") ? &attrs : NULL;
		if (w == NULL) continue;
		if (*w) return NULL;
		*w = deref(y->e[i + 1]);
	}
	if (ty == NULL || ty->k != YS || (id && id->k != YS) || (help && help->k != YS) || (attrs && attrs->k != YM)) return NULL;
	for (t = 0; t < NT && strcmp(types[t].name, ty->t); t++);
	if (t == NT || !strcmp(ty->t, "nosuch")) {
		if (ec_node_type_lookup(ty->t)) unspecified = 1;       /* a type without configuration */
		return NULL;
	}
	y->ref = ec_node(ty->t, id ? id->t : EC_NO_ID);
	if (y->ref == NULL) mc_bug("ec_node(%s)", ty->t);
	memo[nmemo++] = y->ref;
	c = ref_dict(y, types[t].keys, 4);
	if (c == NULL || ec_node_set_config(y->ref, c) < 0) return NULL;
	if (help) ec_dict_set(ec_node_attrs(y->ref), "help", ec_strdup(help->t), ec_free_func);
	for (i = 0; attrs && i < attrs->n; i += 2) {
		k = deref(attrs->e[i]); v = deref(attrs->e[i + 1]);
		if (k->k != YS || v->k != YS) return NULL;
		if (ec_dict_has_key(ec_node_attrs(y->ref), k->t)) unspecified = 1;
		if (ec_dict_set(ec_node_attrs(y->ref), k->t, ec_strdup(v->t), ec_free_func) < 0) mc_bug("attrs");
	}
	return y->ref;
}

/* ---- comparison ------------------------------------------------------------- */
static struct { struct ec_node *a, *r; } pairs[1100];
static int npairs;
static void cmp_node(struct ec_node *a, struct ec_node *r);
static void cmp_config(const struct ec_config *a, const struct ec_config *r)
{
	struct ec_config *x, *y;
	struct ec_dict_elt_ref *it;
	MC_CHECK((a == NULL) == (r == NULL), "config", "configuration %s", a ? "added" : "missing");
	if (a == NULL) return;
	MC_CHECK(a->type == r->type, "config-type", "value of type %d instead of %d", a->type, r->type);
	switch (a->type) {
	case EC_CONFIG_TYPE_BOOL: MC_CHECK(a->boolean == r->boolean, "config-bool", "%d instead of %d", a->boolean, r->boolean); break;
	case EC_CONFIG_TYPE_INT64: MC_CHECK(a->i64 == r->i64, "config-int", "%lld instead of %lld", (long long)a->i64, (long long)r->i64); break;
	case EC_CONFIG_TYPE_UINT64: MC_CHECK(a->u64 == r->u64, "config-uint", "%llu instead of %llu", (unsigned long long)a->u64, (unsigned long long)r->u64); break;
	case EC_CONFIG_TYPE_STRING: MC_CHECK(!strcmp(a->string, r->string), "config-string", "\"%s\" instead of \"%s\"", a->string, r->string); break;
	case EC_CONFIG_TYPE_NODE: cmp_node(a->node, r->node); break;
	case EC_CONFIG_TYPE_LIST:
		for (x = TAILQ_FIRST(&a->list), y = TAILQ_FIRST(&r->list); x && y; x = TAILQ_NEXT(x, next), y = TAILQ_NEXT(y, next)) cmp_config(x, y);
		MC_CHECK(x == NULL && y == NULL, "config-list", "list %s", x ? "too long" : "too short");
		break;
	case EC_CONFIG_TYPE_DICT:
		MC_CHECK(ec_dict_len(a->dict) == ec_dict_len(r->dict), "config-dict", "%zu keys instead of %zu", ec_dict_len(a->dict), ec_dict_len(r->dict));
		for (it = ec_dict_iter(r->dict); it; it = ec_dict_iter_next(it))
			cmp_config(ec_dict_get(a->dict, ec_dict_iter_get_key(it)), ec_dict_iter_get_val(it));
		break;
	default: mc_bug("config type %d", r->type);
	}
}
static void cmp_node(struct ec_node *a, struct ec_node *r)
{
	struct ec_dict_elt_ref *it;
	int i;
	for (i = 0; i < npairs; i++)
		if (pairs[i].a == a || pairs[i].r == r) {
			MC_CHECK(pairs[i].a == a && pairs[i].r == r, "sharing", "%s", pairs[i].a == a ? "distinct nodes became the same one" : "an alias is not the node of its anchor");
			return;
		}
	if (npairs == 1100) mc_bug("pairs");
	pairs[npairs].a = a; pairs[npairs++].r = r;
	MC_CHECK(!strcmp(ec_node_type_name(ec_node_type(a)), ec_node_type_name(ec_node_type(r))), "type", "type %s instead of %s", ec_node_type_name(ec_node_type(a)), ec_node_type_name(ec_node_type(r)));
	MC_CHECK(!strcmp(ec_node_id(a), ec_node_id(r)), "id", "identifier %s instead of %s", ec_node_id(a), ec_node_id(r));
	MC_CHECK(ec_dict_len(ec_node_attrs(a)) == ec_dict_len(ec_node_attrs(r)), "attrs", "%zu attributes instead of %zu", ec_dict_len(ec_node_attrs(a)), ec_dict_len(ec_node_attrs(r)));
	for (it = ec_dict_iter(ec_node_attrs(r)); it; it = ec_dict_iter_next(it)) {
		const char *k = ec_dict_iter_get_key(it), *v = ec_dict_get(ec_node_attrs(a), k);
		MC_CHECK(v != NULL && !strcmp(v, ec_dict_iter_get_val(it)), "attr", "attribute %s is %s instead of %s", k, v ? v : "missing", (char *)ec_dict_iter_get_val(it));
	}
	cmp_config(ec_node_get_config(a), ec_node_get_config(r));
}

/* ---- one document ------------------------------------------------------------ */
static char path[PATH_MAX];
static FILE *devnull, *real_err;
static int lowest_fd(void) { int fd = open("/dev/null", O_RDONLY); if (fd >= 0) close(fd); return fd; }
static void write_doc(const char *s, size_t n)
{
	static int fd = -1;
	if (fd < 0) {
		const char *sc = getenv("MC_SCRATCH");
		if (sc == NULL || sc[0] != '/') mc_bug("no scratch directory");
		snprintf(path, sizeof(path), "%s/doc-%d.yaml", sc, (int)getpid());
		fd = open(path, O_CREAT | O_RDWR | O_TRUNC | O_CLOEXEC, 0644);
		if (fd < 0) mc_bug("open %s", path);
	}
	if (pwrite(fd, s, n, 0) != (ssize_t)n || ftruncate(fd, n) < 0) mc_bug("write");
}
static struct ec_node *import(const char *p)
{
	struct ec_node *n;
	if (devnull == NULL) { static char vb[65536]; devnull = fopen("/dev/null", "w"); setvbuf(devnull, vb, _IOFBF, sizeof(vb)); real_err = stderr; }
	stderr = devnull;
	errno = 0;
	n = ec_yaml_import(p);
	stderr = real_err;
	mc_trans(1);
	if (n == NULL) MC_CHECK(errno != 0, "errno", "refused without errno");
	return n;
}
/* only clean behaviour is expected: no crash, no leak */
static int raw(const char *s, size_t n)
{
	struct ec_node *a;
	static int warm;
	size_t before;
	int fd, r, again = 0;
	write_doc(s, n);
	if (!warm) { ec_node_free(import(path)); warm = 1; }
retry:
	before = __sanitizer_get_current_allocated_bytes();
	fd = lowest_fd();
	a = import(path);
	r = a != NULL;
	if (a) {
		MC_CHECK(ec_node_id(a) != NULL && ec_node_type(a) != NULL, "node", "broken node");
		ec_node_free(a);
	}
	MC_CHECK(lowest_fd() == fd, "fd-leak", "a file descriptor is left open");
	/* buffers that are allocated once do not count */
	if (__sanitizer_get_current_allocated_bytes() != before && !again++) goto retry;
	MC_CHECK(__sanitizer_get_current_allocated_bytes() == before, "memory", "%zd bytes are not released",
		(ssize_t)(__sanitizer_get_current_allocated_bytes() - before));
	mc_outcome(mc_hu(MC_H0, r));
	return r;
}
static void doc(struct Y *y, int style)
{
	struct ec_node *a, *r;
	int i;
	render(y, style);
	mc_desc("document:\n%s", txt.s);
	raw(txt.s, txt.len);
	for (i = 0; i < na; i++) arena[i].ref = NULL;
	nmemo = 0; unspecified = 0; npairs = 0;
	r = ref_node(y);
	a = import(path);
	if (!unspecified) {
		MC_CHECK((a == NULL) == (r == NULL), a ? "accepted" : "refused", "the document is %s", a ? "accepted" : "refused");
		if (a) { cmp_node(a, r); mc_nontrivial(); }
		mc_outcome(mc_hu(mc_hu(MC_H0, a != NULL), npairs));
	}
	/* referenced nodes survive the import and each other */
	ec_node_free(a);
	for (i = 0; i < nmemo; i++) ec_node_free(memo[i]);
	mc_state(mc_hs(MC_H0, txt.s));
}

/* ---- values -------------------------------------------------------------------- */
static const char *scalars[] = { "a", "5", "-5", "", "true", "FALSE", "(", "x, y", "+7", "0x10", "010", "0", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
	"-9223372036854775809", "18446744073709551615", "18446744073709551616", "no", "5x", "1.5", "-", "x", "a%s", "q\"q'", "a\nb", "0x", "08", "TrUe", "-1", "str", "tru",
	" 5", " -2", "5 ", "- 5", "+-5", " true", "0x1G", "yes", "on", "off", "1", "t", "y", "none", "null", "~" };
#define NSC ((int)(sizeof(scalars) / sizeof(*scalars)))
static struct Y *pat(const char *p, const char *k, const char *a)
{
	struct Y *y = M();
	if (p) kv(y, "pattern", S(p));
	if (k) kv(y, "keep", S(k));
	if (a) kv(y, "attr", S(a));
	return y;
}
#define NSTRUCT 32
static struct Y *structured(int i)
{
	struct Y *y;
	switch (i) {
	case 0: return strnode("a");
	case 1: return add(Q(), strnode("a"));
	case 2: return Q();
	case 3: return M();
	case 4: return add(Q(), S("a"));
	case 5: return add(add(Q(), strnode("a")), strnode("b"));
	case 6: return add(Q(), pat("a", "true", NULL));
	case 7: return add(add(Q(), pat("a+", "false", "x")), pat("b", "TRUE", NULL));
	case 8: return kv(M(), "a", S("b"));
	case 9: return add(Q(), add(Q(), strnode("a")));
	case 10: return add(Q(), M());
	case 11: return add(Q(), pat(NULL, "true", NULL));
	case 12: return add(Q(), pat("a", "1", NULL));
	case 13: return add(Q(), kv(pat("a", "true", NULL), "bogus", S("1")));
	case 14: return kv(M(), "type", S("str"));
	case 15: return kv(kv(M(), "type", S("nosuch")), "string", S("a"));
	case 16: return kv(M(), "string", S("a"));
	case 17: return kv(kv(M(), "a", S("b")), "c", S(""));
	case 18: return kv(M(), "a", add(Q(), S("x")));
	case 19: return add(add(M(), add(Q(), S("x"))), S("a"));
	case 20: return add(add(M(), M()), S("a"));
	case 21: return kv(M(), "", S("y"));
	case 22: y = strnode("a"); return add(add(Q(), y), alias(y));
	case 23: y = S("a"); return kv(kv(kv(M(), "type", S("str")), "id", y), "string", alias(y));
	case 24: return add(Q(), pat("(", "true", NULL));
	case 25: return add(Q(), kv(M(), "type", S("str")));
	case 26: return add(add(Q(), strnode("a")), S("b"));
	case 27: return kv(kv(kv(kv(strnode("z"), "id", S("i")), "help", S("h")), "attrs", kv(M(), "k", S("v"))), "bogus", S("1"));
	case 28: return kv(kv(strnode("z"), "help", S("h h")), "attrs", kv(kv(M(), "k", S("v")), "k2", S("")));
	case 29: return add(Q(), pat("a", NULL, NULL));
	case 30: return kv(M(), "a", kv(M(), "b", S("c")));
	default: y = S("b"); return kv(kv(M(), "a", y), "c", alias(y));
	}
}
static struct Y *value(int i) { struct Y *y = i < NSC ? S(scalars[i]) : structured(i - NSC); return y; }
#define NV (NSC + NSTRUCT)
static const int small_v[] = { 0, 1, 2, 3, 6, 16, NSC + 0, NSC + 1, NSC + 2, NSC + 3, NSC + 5, NSC + 7, NSC + 17, NSC + 14, NSC + 22, NSC + 25 };
#define NSV 16
static const char *keys[] = { "id", "help", "attrs", "type", "string", "children", "child", "min", "max", "base", "pattern", "patterns", "expr", "attr", "bogus", "", "Type", "@seq", "@map" };
#define NK 19
static void entry(struct Y *m, int k, int v)
{
	if (!strcmp(keys[k], "@seq")) add(m, add(Q(), S("x")));
	else if (!strcmp(keys[k], "@map")) add(m, M());
	else add(m, S(keys[k]));
	add(m, value(v));
}
static int key_of(int t, int k)
{
	int j;
	if (k < 4) return 1;
	for (j = 0; j < 4 && types[t].keys[j]; j++) if (!strcmp(types[t].keys[j] + 2, keys[k])) return 1;
	return 0;
}
/* ---- every choice sequence ---------------------------------------------------- */
static int path_c[64], path_n[64], plen, ppos;
static int choose(int n)
{
	if (ppos == plen) { path_c[plen] = 0; path_n[plen++] = n; }
	return path_c[ppos++];
}
static int next_path(void)
{
	while (plen && ++path_c[plen - 1] == path_n[plen - 1]) plen--;
	ppos = 0;
	return plen > 0;
}
static struct Y *opened[16];
static int nopened, budget, maxch;
static const char *tset;        /* 0 str, 1 seq, 2 or, 3 option, 4 many */
static struct Y *tree(int depth)
{
	static const char *ids[] = { "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7" };
	static const char *tx[] = { "a", "b", "c", "d", "e", "f", "g", "h" };
	int c, i, n;
	struct Y *m, *l;
	if (budget == 0 || nopened == 8) return nopened ? alias(opened[choose(nopened)]) : strnode("a");
	c = choose(strlen(tset) + nopened);
	if (c >= (int)strlen(tset)) return alias(opened[c - strlen(tset)]);
	c = tset[c] - '0';
	budget--;
	n = nopened;
	m = M();
	if (n & 1) kv(m, "id", S(ids[n]));
	kv(m, "type", S(c == 0 ? "str" : c == 1 ? "seq" : c == 2 ? "or" : c == 3 ? "option" : "many"));
	opened[nopened++] = m;
	if (c == 0) kv(m, "string", S(tx[n]));
	else if (c == 1 || c == 2) {
		l = Q();
		i = choose(maxch + 1);
		while (i--) add(l, tree(depth + 1));
		kv(m, "children", l);
	} else {
		kv(m, "child", tree(depth + 1));
		if (c == 4) kv(kv(m, "min", S("1")), "max", S("3"));
	}
	if (n & 2) kv(m, "help", S(ids[n]));
	if (!(n & 1)) kv(m, "attrs", kv(M(), tx[n], S(ids[n])));
	return m;
}
static const char *docs[] = {
	"type: sh_lex\n", "type: or\nid: top\nhelp: \"the top\"\nchildren:\n- &x\n  type: str\n  string: foo\n  attrs: {k: v}\n- type: many\n  min: 1\n  max: 0x10\n  child: *x\n",
	"{type: seq, children: [&a {type: int, min: -5, max: 10, base: 10}, *a, {type: option, child: *a}]}\n",
	"type: re_lex\npatterns:\n- {pattern: '[a-z]+', keep: true, attr: w}\n- pattern: \" +\"\n  keep: false\nchild: {type: cmd, expr: \"a [b]\", children: [{type: uint, id: b, max: 3}]}\n",
	"# c\n---\n&r\ntype: option\nchild:\n  type: seq\n  children:\n  - type: str\n    string: |\n      a\n  - *r\n...\n",
	"&r {type: or, children: [{type: cond, expr: \"cmp(eq, 1, 1)\", child: {type: any, attr: z}}, {type: re, pattern: a*}, {type: once, child: {type: bypass, child: *r}}]}",
};
#define ND 6
void mc_run(void)
{
	static const char punct[] = "-:[]{}&*a\" \n!|,?'#%";
	int t, k, v, k2, v2, pos, i, j, n;
	/* one more entry */
	for (t = 0; t < NT + 1; t++)
		for (k = 0; k < NK; k++)
			for (v = 0; v < NV; v++) {
				if (!mc_next()) continue;
				for (pos = 0; pos < 6; pos++) {
					struct Y *m;
					na = 0;
					m = M();
					if (pos & 1) entry(m, k, v);
					if (t < NT) kv(m, "type", S(types[t].name));
					if (!(pos & 1)) entry(m, k, v);
					doc(m, pos / 2);
				}
				mc_end();
			}
	/* two more entries */
	for (t = 0; t < NT; t++)
		for (k = 0; k < NK; k++)
			for (k2 = 0; k2 < NK; k2++) {
				if ((!key_of(t, k) || !key_of(t, k2)) && !mc_thorough) continue;
				for (v = 0; v < NSV; v++) {
					if (!mc_next()) continue;
					for (v2 = 0; v2 < (mc_thorough ? NV : NSV); v2++) {
						struct Y *m;
						na = 0;
						m = kv(M(), "type", S(types[t].name));
						entry(m, k, small_v[v]);
						entry(m, k2, mc_thorough ? v2 : small_v[v2]);
						doc(m, (v + v2) % 3);
					}
					mc_end();
				}
			}
	/* int and uint: all triples of bounds and base; re_lex, cmd, cond, many: valid combinations */
	for (i = 0; i < NSC; i++)
		for (j = 0; j < NSC; j++) {
			if (!mc_next()) continue;
			for (n = 0; n < 4; n++) {
				struct Y *m;
				na = 0;
				m = kv(M(), "type", S(n & 1 ? "uint" : "int"));
				kv(kv(m, "min", S(scalars[i])), "max", S(scalars[j]));
				if (n & 2) kv(m, "base", S("0x10"));
				doc(m, n % 3);
				na = 0;
				m = kv(kv(M(), "type", S("many")), "child", structured(0));
				kv(kv(m, "min", S(scalars[i])), "max", S(scalars[j]));
				doc(m, n % 3);
			}
			mc_end();
		}
	for (i = 0; i < NV; i++)
		for (j = 0; j < NV; j++) {
			static const char *tk[][3] = { { "re_lex", "patterns", "child" }, { "cond", "expr", "child" }, { "cmd", "expr", "children" } };
			if (!mc_next()) continue;
			for (n = 0; n < 3; n++) {
				struct Y *m;
				na = 0;
				m = kv(kv(kv(M(), "type", S(tk[n][0])), tk[n][1], value(i)), tk[n][2], value(j));
				doc(m, (i + j) % 3);
			}
			mc_end();
		}
	/* patterns of a lexer: every value of each key */
	for (v = 0; v < NV; v++) {
		if (!mc_next()) continue;
		for (n = 0; n < 9; n++) {
			static const char *pk[] = { "keep", "attr", "pattern" };
			struct Y *m, *p1;
			na = 0;
			p1 = n % 3 == 2 ? M() : pat("a+", n % 3 ? "true" : NULL, NULL);
			kv(p1, pk[n % 3], value(v));
			m = add(Q(), n / 3 == 1 ? pat("b", "false", "y") : p1);
			if (n / 3) add(m, n / 3 == 1 ? p1 : pat("b", "true", NULL));
			doc(kv(kv(kv(M(), "type", S("re_lex")), "patterns", m), "child", structured(0)), v % 3);
		}
		mc_end();
	}
	/* the root */
	for (v = 0; v < NV; v++) {
		if (!mc_next()) continue;
		for (i = 0; i < 3; i++) { na = 0; doc(value(v), i); }
		mc_end();
	}
	/* graphs */
	for (k = 0; k < 4; k++) {
		static const struct { const char *ts; int b, mc; } sp[] = { { "01234", 3, 3 }, { "013", 4, 2 }, { "01234", 4, 2 }, { "013", 5, 2 } };
		if (k >= 2 && !mc_thorough) break;
		plen = ppos = 0;
		do {
			struct Y *m;
			na = 0; nopened = 0; budget = sp[k].b; tset = sp[k].ts; maxch = sp[k].mc;
			ppos = 0;
			m = tree(0);
			if (!mc_next()) continue;
			doc(m, plen % 3);
			mc_end();
		} while (next_path());
	}
	/* many aliases, deep nesting */
	for (n = 1; n <= 14; n++) {
		struct Y *m, *l;
		if (!mc_next()) continue;
		na = 0;
		m = kv(M(), "type", S("seq"));
		l = Q();
		add(l, strnode("a"));
		for (i = 0; i < n; i++) add(l, alias(i & 1 ? m : l->e[0]));
		kv(m, "children", l);
		doc(m, n % 3);
		na = 0;
		m = strnode("a");
		for (i = 0; i < n * 8; i++) m = kv(kv(M(), "type", S(i & 1 ? "option" : "many")), "child", m);
		doc(m, n % 3);
		mc_end();
	}
	/* long lists, long texts */
	for (n = 1; n <= 600; n = n < 36 ? n + 1 : n < 70 ? n + 5 : n + 93) {
		static char nm[600][8];
		for (k = 0; k < 6; k++) {
			struct Y *m, *l;
			if (!mc_next()) continue;
			na = 0;
			for (i = 0; i < n; i++) snprintf(nm[i], sizeof(nm[i]), "s%d", i);
			if (k == 0 || k == 3) {
				l = Q();
				for (i = 0; i < n; i++) add(l, k == 3 && i % 3 == 2 ? alias(l->e[i / 2 - (l->e[i / 2]->k == YA)]) : kv(strnode(nm[i]), "id", S(nm[n - 1 - i])));
				m = kv(kv(M(), "type", S(k ? "or" : "seq")), "children", l);
			} else if (k == 1) {
				l = M();
				for (i = 0; i < n; i++) kv(l, nm[i], S(nm[n - 1 - i]));
				m = kv(strnode("a"), "attrs", l);
			} else if (k == 2) {
				l = Q();
				for (i = 0; i < n; i++) add(l, pat(nm[i], i & 1 ? "true" : "false", i % 3 ? nm[n - 1 - i] : NULL));
				m = kv(kv(kv(M(), "type", S("re_lex")), "patterns", l), "child", strnode("a"));
			} else if (k == 4) {
				if (n > 300) { mc_end(); continue; }
				m = strnode("a");
				for (i = 0; i < n; i++) m = kv(kv(M(), "type", S(i & 1 ? "option" : "once")), "child", m);
			} else {
				static char t[4][20010];
				int len = n < 36 ? n : n * 30;
				for (j = 0; j < 4; j++) { for (i = 0; i < len; i++) t[j][i] = 'a' + (i + j) % 23; t[j][len] = 0; }
				if (len > 900) t[3][900] = 0;      /* libyaml limits keys to 1024 characters */
				m = kv(kv(kv(strnode(t[0]), "id", S(t[1])), "help", S(t[2])), "attrs", kv(M(), t[3], S(t[1])));
			}
			doc(m, n % 3);
			mc_end();
		}
	}
	/* malformed texts: every short text, documents cut or changed at every place */
	for (n = 0; n <= (mc_thorough ? 5 : 4); n++) {
		long x, tot = 1, np = sizeof(punct) - 1;
		for (i = 0; i < n; i++) tot *= np;
		for (x = 0; x < tot; x += np) {
			if (!mc_next()) continue;
			for (j = 0; j < (n ? np : 1); j++) {
				char s[8];
				long y = x + j;
				for (i = 0; i < n; i++) { s[i] = punct[y % np]; y /= np; }
				s[n] = 0;
				mc_desc("text \"%s\"", s);
				MC_CHECK(!raw(s, n), "accepted", "the document is accepted");
			}
			mc_end();
		}
	}
	for (k = 0; k < ND; k++) {
		n = strlen(docs[k]);
		for (pos = 0; pos <= n; pos++) {
			if (!mc_next()) continue;
			char b[1024];
			mc_desc("document %d cut at %d", k, pos);
			j = raw(docs[k], pos);
			if (pos == n) MC_CHECK(j == (k != 0), "valid", "document %d is %s", k, j ? "accepted" : "refused");
			for (i = 0; pos < n && i < (int)sizeof(punct); i++) {
				memcpy(b, docs[k], n + 1);
				mc_desc("document %d, position %d, change %d", k, pos, i);
				if (i == (int)sizeof(punct) - 1) memmove(b + pos, b + pos + 1, n - pos);
				else b[pos] = punct[i];
				raw(b, strlen(b));
			}
			for (i = 0; pos < n && i < 8; i++) {
				static const unsigned char by[] = { 0, 1, 0x7f, 0x80, 0xc3, 0xff, 0xfe, '\t' };
				memcpy(b, docs[k], n + 1);
				b[pos] = by[i];
				mc_desc("document %d, position %d, byte %d", k, pos, by[i]);
				raw(b, n);
			}
			mc_end();
		}
	}
	/* files that cannot be read */
	if (mc_next()) {
		static const char *bad[] = { "/nonexistent/file.yaml", "", "/" };
		for (i = 0; i < 3; i++) {
			size_t before;
			int fd;
			mc_desc("file \"%s\"", bad[i]);
			import(bad[i]);
			before = __sanitizer_get_current_allocated_bytes();
			fd = lowest_fd();
			MC_CHECK(import(bad[i]) == NULL, "no-file", "accepted");
			MC_CHECK(lowest_fd() == fd && __sanitizer_get_current_allocated_bytes() == before, "no-file-leak", "something is not released");
		}
		mc_end();
	}
}
