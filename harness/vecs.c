/* C10: string vectors and vectors against value semantics. */
#include <ecoli.h>
#include "mc.h"

static struct mc_buf db;
#define MAXA 64
static int afreed[MAXA], aref[MAXA], na;       /* attribute dictionaries */
static void on_free(void *p) { (*(int *)p)++; }

struct el { const char *s; int a; };           /* a < 0: no attributes */
struct sv { int used, n; struct el e[24]; };
static struct sv M[2];
static struct ec_strvec *V[2];
static const char *strs[3] = { "a", "b", "" };

static void count_refs(void)
{
	memset(aref, 0, sizeof(aref));
	for (int v = 0; v < 2; v++)
		if (M[v].used)
			for (int i = 0; i < M[v].n; i++)
				if (M[v].e[i].a >= 0) aref[M[v].e[i].a]++;
}
static void cmp_one(struct ec_strvec *v, struct el *e, int n, const char *what)
{
	MC_CHECK(ec_strvec_len(v) == (size_t)n, "len", "%s has %zu elements instead of %d", what, ec_strvec_len(v), n);
	for (int i = 0; i < n; i++) {
		const char *s = ec_strvec_val(v, i);
		const struct ec_dict *d = ec_strvec_get_attrs(v, i);
		MC_CHECK(s != NULL && !strcmp(s, e[i].s), "val", "%s: element %d is %s instead of \"%s\"", what, i, s ? s : "NULL", e[i].s);
		if (e[i].a < 0) MC_CHECK(d == NULL, "attrs", "%s: element %d has unexpected attributes", what, i);
		else MC_CHECK(d != NULL && ec_dict_get(d, "k") == &afreed[e[i].a], "attrs", "%s: element %d has lost its attributes", what, i);
	}
	MC_CHECK(ec_strvec_val(v, n) == NULL && ec_strvec_val(v, n + 1) == NULL && ec_strvec_val(v, SIZE_MAX) == NULL, "val-out", "%s: there is an element past the end", what);
	MC_CHECK(ec_strvec_get_attrs(v, n) == NULL && ec_strvec_get_attrs(v, SIZE_MAX) == NULL, "attrs-out", "%s: there are attributes past the end", what);
}
static int el_eq(struct sv *a, struct sv *b)
{
	if (a->n != b->n) return 0;
	for (int i = 0; i < a->n; i++) if (strcmp(a->e[i].s, b->e[i].s)) return 0;
	return 1;
}
static void check(int deep)
{
	uint64_t h = MC_H0;
	for (int v = 0; v < 2; v++) {
		struct sv *m = &M[v];
		if (!m->used) continue;
		cmp_one(V[v], m->e, m->n, v ? "vector 1" : "vector 0");
		h = mc_hu(h, v);
		for (int i = 0; i < m->n; i++) h = mc_hu(mc_hs(h, m->e[i].s), m->e[i].a >= 0);
		if (!deep) continue;
		for (int w = 0; w < 2; w++)
			if (M[w].used)
				MC_CHECK((ec_strvec_cmp(V[v], V[w]) == 0) == el_eq(m, &M[w]), "cmp", "vectors %d and %d are %s", v, w, el_eq(m, &M[w]) ? "equal" : "different");
		/* every range */
		for (int o = 0; o < m->n + 5; o++)
			for (int l = 0; l < m->n + 5; l++) {
				size_t off = o < m->n + 2 ? (size_t)o : SIZE_MAX - (o - m->n - 2), len = l < m->n + 2 ? (size_t)l : SIZE_MAX - (l - m->n - 2);
				int ok = off <= (size_t)m->n && len <= m->n - off;
				struct ec_strvec *d;
				errno = 0;
				d = ec_strvec_ndup(V[v], off, len);
				mc_trans(1);
				MC_CHECK((d != NULL) == ok && (ok || errno != 0), "ndup-range", "ndup(%zu, %zu) of %d elements %s, errno %d", off, len, m->n, d ? "succeeds" : "fails", errno);
				if (d) { cmp_one(d, m->e + off, len, "range"); ec_strvec_free(d); }
			}
		/* bad calls change nothing */
		{
			struct ec_dict *at = ec_dict();
			int f = 0;
			ec_dict_set(at, "k", &f, on_free);
			MC_CHECK(ec_strvec_set_attrs(V[v], m->n, at) < 0 && f == 1, "set-attrs-out", "attributes past the end: accepted or not freed (%d)", f);
			MC_CHECK(ec_strvec_set(V[v], m->n, "x") < 0 && ec_strvec_set(V[v], SIZE_MAX, "x") < 0, "set-out", "an element past the end can be set");
			MC_CHECK(ec_strvec_add(V[v], NULL) < 0, "add-null", "NULL can be added");
			if (m->n) MC_CHECK(ec_strvec_set(V[v], 0, NULL) < 0, "set-null", "NULL can be set");
			cmp_one(V[v], m->e, m->n, "after refused calls");
		}
	}
	count_refs();
	for (int a = 0; a < na; a++)
		MC_CHECK(afreed[a] == (aref[a] == 0), aref[a] ? "freed-early" : "attrs-free", "attributes %d are %s but were freed %d time(s)", a, aref[a] ? "in use" : "not used any more", afreed[a]);
	mc_state(h);
}
enum { O_ADD, O_SET, O_DELLAST, O_DUP, O_NDUP, O_FREE, O_ATTR, O_SORT, O_RSORT };
static struct op { int o, v, x, y; } ops[64], hist[16];
static int nops;
static int rev(const char *a, const char *b) { return -strcmp(a, b); }
static void model_sort(struct sv *m, int r)
{
	for (int i = 1; i < m->n; i++)
		for (int j = i; j > 0; j--) {
			int c = strcmp(m->e[j - 1].s, m->e[j].s);
			if (r ? c < 0 : c > 0) { struct el t = m->e[j]; m->e[j] = m->e[j - 1]; m->e[j - 1] = t; }
		}
}
/* sorting does not order equal strings: give the model the real order */
static void align(struct sv *m, struct ec_strvec *v)
{
	for (int i = 0; i < m->n; i++)
		for (int j = i; j < m->n && !strcmp(m->e[j].s, m->e[i].s); j++) {
			const struct ec_dict *d = ec_strvec_get_attrs(v, i);
			if ((d ? ec_dict_get(d, "k") : NULL) == (m->e[j].a < 0 ? NULL : &afreed[m->e[j].a])) {
				struct el t = m->e[j]; m->e[j] = m->e[i]; m->e[i] = t;
				break;
			}
		}
}
static void model_op(struct op *o)
{
	struct sv *m = &M[o->v];
	switch (o->o) {
	case O_ADD: m->e[m->n].s = strs[o->x]; m->e[m->n++].a = -1; break;
	case O_SET: if (o->x < m->n) { m->e[o->x].s = strs[o->y]; m->e[o->x].a = -1; } break;
	case O_DELLAST: if (m->n) m->n--; break;
	case O_DUP: M[!o->v] = *m; break;
	case O_NDUP: {
		struct sv t = *m;
		if (o->x + o->y > m->n) break;
		t.n = o->y;
		memmove(t.e, t.e + o->x, o->y * sizeof(t.e[0]));
		M[!o->v] = t;
		break;
	}
	case O_FREE: m->used = m->n = 0; break;
	case O_ATTR: if (o->x < m->n) m->e[o->x].a = na++; break;
	case O_SORT: model_sort(m, 0); break;
	case O_RSORT: model_sort(m, 1); break;
	}
}
static void real_op(struct op *o)
{
	int n = M[o->v].n, r, had = M[!o->v].used;
	struct ec_strvec *d;
	int a = na;
	model_op(o);
	mc_trans(1);
	switch (o->o) {
	case O_ADD: {
		char tmp[8];
		strcpy(tmp, strs[o->x]);
		r = ec_strvec_add(V[o->v], tmp);
		memset(tmp, '!', 8);
		MC_CHECK(r == 0, "add", "add fails");
		break;
	}
	case O_SET:
		r = ec_strvec_set(V[o->v], o->x, strs[o->y]);
		MC_CHECK((r == 0) == (o->x < n), "set", "set(%d) of %d elements returns %d", o->x, n, r);
		break;
	case O_DELLAST:
		r = ec_strvec_del_last(V[o->v]);
		MC_CHECK((r == 0) == (n > 0), "del-last", "del_last of %d elements returns %d", n, r);
		break;
	case O_DUP: case O_NDUP:
		d = o->o == O_DUP ? ec_strvec_dup(V[o->v]) : ec_strvec_ndup(V[o->v], o->x, o->y);
		MC_CHECK((d != NULL) == (o->o == O_DUP || o->x + o->y <= n), "dup", "duplicate %s", d ? "succeeds" : "fails");
		if (d) { if (had) ec_strvec_free(V[!o->v]); V[!o->v] = d; }
		break;
	case O_FREE: ec_strvec_free(V[o->v]); V[o->v] = NULL; break;
	case O_ATTR: {
		struct ec_dict *at = ec_dict();
		int dummy = 0;
		ec_dict_set(at, "k", o->x < n ? &afreed[a] : &dummy, on_free);
		r = ec_strvec_set_attrs(V[o->v], o->x, at);
		MC_CHECK((r == 0) == (o->x < n) && dummy == (o->x >= n), "set-attrs", "set_attrs(%d) of %d elements returns %d", o->x, n, r);
		break;
	}
	case O_SORT: ec_strvec_sort(V[o->v], NULL); align(&M[o->v], V[o->v]); break;
	case O_RSORT: ec_strvec_sort(V[o->v], rev); align(&M[o->v], V[o->v]); break;
	}
}
static int hinit, hu[2];
static void hrun(int d)
{
	static const char *on[] = { "add", "set", "del_last", "dup", "ndup", "free", "set_attrs", "sort", "rsort" };
	if (!mc_next()) return;
	mc_buf_reset(&db);
	mc_buf_add(&db, "strvec of %d:", hinit);
	for (int i = 0; i < d; i++) mc_buf_add(&db, " %s(%d,%d,%d)", on[hist[i].o], hist[i].v, hist[i].x, hist[i].y);
	mc_desc("%s", db.s);
	memset(afreed, 0, sizeof(afreed)); na = 0;
	memset(M, 0, sizeof(M)); V[0] = V[1] = NULL;
	if (hinit) {
		V[0] = EC_STRVEC("b", "a");
		M[0].n = 2; M[0].e[0] = (struct el){ "b", -1 }; M[0].e[1] = (struct el){ "a", -1 };
	} else V[0] = ec_strvec();
	M[0].used = 1;
	for (int i = 0; i < d; i++) if (M[hist[i].v].used) real_op(&hist[i]);
	check(1);
	mc_outcome(mc_hu(mc_hu(MC_H0, M[0].n), M[1].used ? M[1].n : -1));
	if (na || M[1].used) mc_nontrivial();
	for (int v = 0; v < 2; v++)
		if (M[v].used) { M[v].used = M[v].n = 0; ec_strvec_free(V[v]); check(0); }
	mc_end();
}
static void hrec(int d, int max)
{
	if (d == max) { hrun(d); return; }
	if (d > 0) hrun(d);
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		int u0 = hu[0], u1 = hu[1];
		if (!hu[o->v]) continue;
		if (o->o == O_DUP || o->o == O_NDUP) hu[!o->v] = 1;
		if (o->o == O_FREE) hu[o->v] = 0;
		hist[d] = *o;
		hrec(d + 1, max);
		hu[0] = u0; hu[1] = u1;
	}
}
static void mkops(int rich)
{
	nops = 0;
	for (int v = 0; v < 2; v++) {
		for (int s = 0; s < 2; s++) ops[nops++] = (struct op){ O_ADD, v, s, 0 };
		ops[nops++] = (struct op){ O_SET, v, 0, 0 };
		ops[nops++] = (struct op){ O_DELLAST, v, 0, 0 };
		ops[nops++] = (struct op){ O_DUP, v, 0, 0 };
		ops[nops++] = (struct op){ O_FREE, v, 0, 0 };
		ops[nops++] = (struct op){ O_ATTR, v, 0, 0 };
		ops[nops++] = (struct op){ O_SORT, v, 0, 0 };
		if (!rich) continue;
		ops[nops++] = (struct op){ O_ADD, v, 2, 0 };
		ops[nops++] = (struct op){ O_SET, v, 1, 1 };
		ops[nops++] = (struct op){ O_NDUP, v, 1, 1 };
		ops[nops++] = (struct op){ O_NDUP, v, 0, 1 };
		ops[nops++] = (struct op){ O_NDUP, v, 1, 0 };
		ops[nops++] = (struct op){ O_ATTR, v, 1, 0 };
		ops[nops++] = (struct op){ O_RSORT, v, 0, 0 };
	}
	hu[0] = 1; hu[1] = 0;
}
/* permutations: sort */
static void perms(int n)
{
	static const char *w[] = { "a", "aa", "b", "ab", "", "B", "z" };
	int idx[8] = { 0 };
	for (;;) {
		if (mc_next()) {
			struct ec_strvec *v = ec_strvec();
			mc_buf_reset(&db);
			for (int i = 0; i < n; i++) { mc_buf_add(&db, " \"%s\"", w[idx[i]]); }
			mc_desc("sort%s", db.s);
			for (int i = 0; i < n; i++) MC_CHECK(ec_strvec_add(v, w[idx[i]]) == 0, "add", "add fails");
			ec_strvec_sort(v, NULL);
			mc_trans(1);
			for (int k = 0; k < 7; k++) {
				int c = 0, r = 0;
				for (int i = 0; i < n; i++) { c += idx[i] == k; r += !strcmp(ec_strvec_val(v, i), w[k]); }
				MC_CHECK(c == r, "sort", "\"%s\" appears %d times instead of %d", w[k], r, c);
			}
			for (int i = 0; i + 1 < n; i++) MC_CHECK(strcmp(ec_strvec_val(v, i), ec_strvec_val(v, i + 1)) <= 0, "sort", "not sorted");
			mc_state(mc_hs(MC_H0, db.s)); mc_outcome(mc_hs(MC_H0, n ? ec_strvec_val(v, 0) : ""));
			mc_nontrivial();
			ec_strvec_free(v);
			mc_end();
		}
		int i = 0;
		while (i < n && ++idx[i] == 7) idx[i++] = 0;
		if (i == n) break;
	}
}
/* long vectors */
static void longs(void)
{
	for (int n = 0; n <= 300; n = n < 40 ? n + 1 : n + 37) {
		struct ec_strvec *v, *d;
		char b[16];
		if (!mc_next()) continue;
		mc_desc("strvec of %d elements", n);
		v = ec_strvec();
		for (int i = 0; i < n; i++) { sprintf(b, "%d", i); ec_strvec_add(v, b); }
		d = ec_strvec_dup(v);
		for (int i = 0; i < n; i += 2) ec_strvec_set(d, i, "x");
		for (int i = 0; i < n; i++) {
			sprintf(b, "%d", i);
			MC_CHECK(!strcmp(ec_strvec_val(v, i), b), "val", "element %d changed", i);
			MC_CHECK(!strcmp(ec_strvec_val(d, i), i % 2 ? b : "x"), "val", "element %d of the duplicate is wrong", i);
		}
		MC_CHECK((ec_strvec_cmp(v, d) == 0) == (n == 0), "cmp", "bad comparison");
		for (int i = n; i-- > 0;) { ec_strvec_del_last(v); MC_CHECK(ec_strvec_len(v) == (size_t)i, "del-last", "bad length"); }
		mc_trans(3 * n); mc_state(mc_hu(MC_H0, n)); mc_outcome(n);
		ec_strvec_free(v); ec_strvec_free(d);
		mc_end();
	}
}

/* ---- ec_vec ------------------------------------------------------------------ */
/* element of `es` bytes; with callbacks the first 2 bytes identify an instance */
static int es, cbs, ninst, live[256];	/* cbs: 1 copy callback, 2 free callback */
static long ncopy, nfree, ecopy, efree;
struct vm { int used, n, val[24], inst[24]; };
static struct vm W[2];
static struct ec_vec *X[2];
static void v_copy(void *dst, void *src)
{
	memcpy(dst, src, es);
	ncopy++;
	((unsigned char *)dst)[0] = ninst;
	live[ninst++] = 1;
}
static void v_free(void *p) { nfree++; if (cbs == 3) live[*(unsigned char *)p]--; }
static int v_add(struct ec_vec *v, int val)
{
	unsigned char b[16];
	memset(b, val, sizeof(b));
	if (cbs) { b[0] = ninst; live[ninst++] = 1; }
	switch (es) {
	case 1: return ec_vec_add_u8(v, b[0]);
	case 2: { uint16_t x; memcpy(&x, b, 2); return ec_vec_add_u16(v, x); }
	case 4: { uint32_t x; memcpy(&x, b, 4); return ec_vec_add_u32(v, x); }
	case 8: { uint64_t x; memcpy(&x, b, 8); return val & 1 ? ec_vec_add_u64(v, x) : ec_vec_add_ptr(v, (void *)(uintptr_t)x); }
	default: return ec_vec_add_by_ref(v, b);
	}
}
static void w_cmp(struct ec_vec *v, int *val, int n)
{
	unsigned char b[17];
	MC_CHECK(ec_vec_len(v) == (size_t)n, "vec-len", "%zu elements instead of %d", ec_vec_len(v), n);
	for (int i = 0; i < n; i++) {
		memset(b, 0xee, sizeof(b));
		MC_CHECK(ec_vec_get(b, v, i) == 0, "vec-get", "cannot get element %d", i);
		for (int k = !!cbs; k < es; k++) MC_CHECK(b[k] == val[i], "vec-get", "element %d is wrong", i);
		MC_CHECK(b[es] == 0xee, "vec-get", "too many bytes are copied");
		if (cbs == 3) MC_CHECK(live[b[0]] == 1, "vec-elt", "element %d was freed", i);
	}
	errno = 0;
	MC_CHECK(ec_vec_get(b, v, n) < 0 && errno == EINVAL && ec_vec_get(b, v, SIZE_MAX) < 0, "vec-get-out", "there is an element past the end");
}
static void w_live(void)
{
	int c = 0, e = 0;
	for (int i = 0; i < ninst; i++) {
		MC_CHECK(live[i] == 0 || live[i] == 1, "vec-free", "instance %d freed %d times", i, 1 - live[i]);
		c += live[i];
	}
	for (int v = 0; v < 2; v++) if (W[v].used) e += W[v].n;
	MC_CHECK(ncopy == (cbs & 1 ? ecopy : 0), "vec-copied", "the copy callback ran %ld times instead of %ld", ncopy, cbs & 1 ? ecopy : 0);
	MC_CHECK(nfree == (cbs & 2 ? efree : 0), "vec-freed", "the free callback ran %ld times instead of %ld", nfree, cbs & 2 ? efree : 0);
	if (cbs == 3) MC_CHECK(c == e, "vec-free", "%d live elements instead of %d", c, e);
}
/* ops: 0..1 add(v), 2..3 dup(v -> other), 4..5 ndup, 6..7 free */
static int vh[8], vinit;
static void vrun(int d)
{
	if (!mc_next()) return;
	mc_buf_reset(&db);
	for (int i = 0; i < d; i++) mc_buf_add(&db, " %s(%d)", (const char *[]){ "add", "dup", "ndup1", "ndup2", "free" }[vh[i] / 2], vh[i] & 1);
	mc_desc("vec of %d-byte elements, initial size %d, %s callbacks:%s", es, vinit, (const char *[]){ "no", "copy", "free", "both" }[cbs], db.s);
	memset(W, 0, sizeof(W)); memset(live, 0, sizeof(live)); ninst = 0;
	X[0] = ec_vec(es, vinit, cbs & 1 ? v_copy : NULL, cbs & 2 ? v_free : NULL); X[1] = NULL;
	ncopy = nfree = ecopy = efree = 0;
	MC_CHECK(X[0] != NULL, "vec-create", "cannot create a vector");
	W[0].used = 1;
	for (int i = 0; i < d; i++) {
		int v = vh[i] & 1, o = vh[i] / 2;
		struct ec_vec *n;
		if (!W[v].used) continue;
		mc_trans(1);
		if (o == 0) {
			int val = 7 * i + 3;
			W[v].val[W[v].n++] = val;
			MC_CHECK(v_add(X[v], val) == 0, "vec-add", "add fails");
		} else if (o == 4) {
			efree += W[v].n;
			ec_vec_free(X[v]); W[v].used = W[v].n = 0;
		} else {
			int off = o == 1 ? 0 : o == 2 ? 1 : 0, len = o == 1 ? W[v].n : o == 2 ? 1 : 2;
			int ok = off + len <= W[v].n;
			n = o == 1 ? ec_vec_dup(X[v]) : ec_vec_ndup(X[v], off, len);
			MC_CHECK((n != NULL) == ok, "vec-dup", "duplicate %s", n ? "succeeds" : "fails");
			if (n) {
				ecopy += len;
				if (W[!v].used) efree += W[!v].n;
				if (W[!v].used) ec_vec_free(X[!v]);
				X[!v] = n; W[!v] = W[v]; W[!v].n = len;
				memmove(W[!v].val, W[!v].val + off, len * sizeof(int));
			}
		}
	}
	for (int v = 0; v < 2; v++) {
		if (!W[v].used) continue;
		w_cmp(X[v], W[v].val, W[v].n);
		/* a value of another size is refused */
		if (es != 1) MC_CHECK(ec_vec_add_u8(X[v], 1) < 0, "vec-size", "a value of another size is accepted");
		if (es != 2) MC_CHECK(ec_vec_add_u16(X[v], 1) < 0, "vec-size", "a value of another size is accepted");
		if (es != 4) MC_CHECK(ec_vec_add_u32(X[v], 1) < 0, "vec-size", "a value of another size is accepted");
		if (es != 8) MC_CHECK(ec_vec_add_u64(X[v], 1) < 0 && ec_vec_add_ptr(X[v], NULL) < 0, "vec-size", "a value of another size is accepted");
		for (size_t o = 0; o < (size_t)W[v].n + 4; o++)
			for (size_t l = 0; l < (size_t)W[v].n + 4; l++) {
				size_t off = o < (size_t)W[v].n + 2 ? o : SIZE_MAX - (o & 1), len = l < (size_t)W[v].n + 2 ? l : SIZE_MAX - (l & 1);
				int ok = off <= (size_t)W[v].n && len <= W[v].n - off;
				struct ec_vec *n;
				if (ninst > 200) continue;
				errno = 0;
				n = ec_vec_ndup(X[v], off, len);
				mc_trans(1);
				MC_CHECK((n != NULL) == ok && (ok || errno), "vec-ndup", "ndup(%zu, %zu) of %d elements %s, errno %d", off, len, W[v].n, n ? "succeeds" : "fails", errno);
				if (n) { ecopy += len; efree += len; w_cmp(n, W[v].val + off, len); ec_vec_free(n); }
			}
		w_cmp(X[v], W[v].val, W[v].n);
	}
	w_live();
	mc_state(mc_hu(mc_hu(mc_hu(MC_H0, es * 4 + cbs), W[0].n), W[1].n));
	mc_outcome(mc_hu(mc_hu(MC_H0, W[0].n), W[1].used));
	if (W[1].used) mc_nontrivial();
	for (int v = 0; v < 2; v++) if (W[v].used) { efree += W[v].n; ec_vec_free(X[v]); W[v].used = W[v].n = 0; w_live(); }
	mc_end();
}
static void vrec(int d, int max, int used)
{
	vrun(d);
	if (d == max) return;
	for (int o = 0; o < 10; o++) {
		int v = o & 1, u = used;
		if (!(used & (1 << v))) continue;
		if (o / 2 == 4) u &= ~(1 << v);
		else if (o / 2 > 0) u |= 1 << !v;
		vh[d] = o;
		vrec(d + 1, max, u);
	}
}
static void count_free(int *p) { (*p)++; }
/* ---- scale ----------------------------------------------------------------------- */
static const int bigs[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097,
	32767, 32768, 32769, 65535, 65536, 65537, 70000 };
#define NBIGS (int)(sizeof(bigs) / sizeof(bigs[0]))
static const char *bw(int i, int n, int order)
{
	static char b[16];
	switch (order) {
	case 0: break;
	case 1: i = n - 1 - i; break;
	case 2: i = (int)((long)i * 7919 % n); break;
	case 3: i = i % 3; break;
	default: i = i & 1 ? n - i : i; break;
	}
	snprintf(b, sizeof(b), "%06d", i);
	return b;
}
static void big_strvec(int n)
{
	struct ec_strvec *v, *d;
	int at[] = { 0, 1, n / 2, n - 1, n };
	if (!mc_next()) return;
	mc_desc("strvec of %d elements: ranges and comparison", n);
	v = ec_strvec();
	for (int i = 0; i < n; i++) MC_CHECK(ec_strvec_add(v, bw(i, n, 0)) == 0, "add", "add fails");
	MC_CHECK(ec_strvec_len(v) == (size_t)n, "len", "%zu elements", ec_strvec_len(v));
	for (int i = 0; i < n; i++) MC_CHECK(!strcmp(ec_strvec_val(v, i), bw(i, n, 0)), "val", "element %d is wrong", i);
	for (int a = 0; a < 5; a++)
		for (int b = 0; b < 5; b++) {
			int off = at[a], len = at[b] - at[a];
			if (off < 0 || len < 0 || off + len > n) continue;
			d = ec_strvec_ndup(v, off, len);
			MC_CHECK(d != NULL && ec_strvec_len(d) == (size_t)len, "ndup", "ndup(%d, %d): wrong length", off, len);
			for (int i = 0; i < len; i++) MC_CHECK(!strcmp(ec_strvec_val(d, i), bw(off + i, n, 0)), "ndup", "ndup(%d, %d): element %d is wrong", off, len, i);
			MC_CHECK((ec_strvec_cmp(v, d) == 0) == (len == n), "cmp", "comparison with ndup(%d, %d)", off, len);
			ec_strvec_free(d);
			mc_trans(2);
		}
	for (int a = 0; a < 4; a++) {
		int k = at[a];
		if (k < 0 || k >= n) continue;
		d = ec_strvec_dup(v);
		MC_CHECK(ec_strvec_cmp(v, d) == 0 && ec_strvec_cmp(d, v) == 0, "cmp", "a duplicate is different");
		MC_CHECK(ec_strvec_set(d, k, "00000") == 0, "set", "set fails");
		MC_CHECK(ec_strvec_cmp(v, d) != 0 && ec_strvec_cmp(d, v) != 0, "cmp", "vectors that differ at element %d are equal", k);
		MC_CHECK(!strcmp(ec_strvec_val(v, k), bw(k, n, 0)), "cow", "a change of the duplicate changes the original");
		MC_CHECK(ec_strvec_set(d, k, bw(k, n, 0)) == 0 && ec_strvec_cmp(v, d) == 0, "cmp", "equal vectors are different");
		ec_strvec_free(d);
		mc_trans(6);
	}
	ec_strvec_free(v);
	mc_state(mc_hu(MC_H0 + 11, n)); mc_outcome(n); mc_nontrivial();
	mc_end();
}
static void big_sort(int n, int order, int shared)
{
	struct ec_strvec *v, *d = NULL;
	int *cnt, nd = 0;
	if (!mc_next()) return;
	mc_desc("sort of %d elements, order %d%s", n, order, shared ? ", shared" : "");
	v = ec_strvec();
	cnt = calloc(n + 2, sizeof(int));
	for (int i = 0; i < n; i++) {
		const char *w = bw(i, n, order);
		cnt[atoi(w)]++;
		ec_strvec_add(v, w);
		if (i % 5 == 2) {
			struct ec_dict *a = ec_dict();
			ec_dict_set(a, w, NULL, NULL);
			MC_CHECK(ec_strvec_set_attrs(v, i, a) == 0, "attrs", "set_attrs fails");
			nd++;
		}
	}
	if (shared) d = ec_strvec_dup(v);
	ec_strvec_sort(v, NULL);
	mc_trans(n);
	MC_CHECK(ec_strvec_len(v) == (size_t)n, "sort", "%zu elements", ec_strvec_len(v));
	for (int i = 0; i < n; i++) {
		const struct ec_dict *a = ec_strvec_get_attrs(v, i);
		const char *w = ec_strvec_val(v, i);
		MC_CHECK(atoi(w) >= 0 && atoi(w) <= n && cnt[atoi(w)]-- > 0, "sort", "element \"%s\" was not in the vector", w);
		if (i) MC_CHECK(strcmp(ec_strvec_val(v, i - 1), w) <= 0, "sort", "elements %d and %d are not ordered", i - 1, i);
		if (a) { nd--; MC_CHECK(ec_dict_has_key(a, w), "sort-attrs", "element \"%s\" has the attributes of another one", w); }
	}
	MC_CHECK(nd == 0, "sort-attrs", "%d attributes lost", nd);
	if (d) for (int i = 0; i < n; i++) {
		const struct ec_dict *a = ec_strvec_get_attrs(d, i);
		MC_CHECK(!strcmp(ec_strvec_val(d, i), bw(i, n, order)), "sort-shared", "sorting changes a duplicate");
		MC_CHECK((a != NULL) == (i % 5 == 2), "sort-shared", "sorting changes the attributes of a duplicate");
	}
	ec_strvec_free(v); ec_strvec_free(d);
	free(cnt);
	mc_state(mc_hu(mc_hu(MC_H0 + 12, n), order)); mc_nontrivial();
	mc_end();
}
static void big_text(int n)
{
	struct ec_strvec *v, *d;
	char *w;
	if (!mc_next()) return;
	mc_desc("elements of %d bytes", n);
	w = malloc(n + 2);
	for (int i = 0; i < n; i++) w[i] = 1 + i % 255;
	w[n] = w[n + 1] = 0;
	for (int c = 0; c < 4; c++) {
		char *x = strdup(w);
		const char *arr[2] = { w, x };
		if (c == 1) { if (n == 0) { free(x); continue; } x[n - 1] ^= 0x80; if (!x[n - 1]) x[n - 1] = 1; }
		if (c == 2) { if (n == 0) { free(x); continue; } x[n - 1] = 0; }
		if (c == 3) { if (n == 0) { free(x); continue; } x[n / 2] ^= 1; if (!x[n / 2]) x[n / 2] = 2; }
		v = ec_strvec_from_array(arr, 1);
		d = ec_strvec_from_array(arr + 1, 1);
		MC_CHECK(v && d && !strcmp(ec_strvec_val(v, 0), w) && !strcmp(ec_strvec_val(d, 0), x), "text", "an element is not the text that was added");
		MC_CHECK((ec_strvec_cmp(v, d) == 0) == !strcmp(w, x), "text-cmp", "comparison %d is wrong", c);
		MC_CHECK(ec_strvec_add(v, x) == 0 && ec_strvec_add(d, w) == 0, "add", "add fails");
		ec_strvec_sort(v, NULL); ec_strvec_sort(d, NULL);
		MC_CHECK(ec_strvec_cmp(v, d) == 0 && strcmp(ec_strvec_val(v, 0), ec_strvec_val(v, 1)) <= 0, "text-sort", "sort %d is wrong", c);
		MC_CHECK(ec_strvec_set(v, 0, w) == 0 && !strcmp(ec_strvec_val(v, 0), w), "text-set", "set is wrong");
		ec_strvec_free(v); ec_strvec_free(d);
		free(x);
		mc_trans(8);
	}
	free(w);
	mc_state(mc_hu(MC_H0 + 13, n)); mc_nontrivial();
	mc_end();
}
static void every_byte(void)
{
	for (int a = 1; a < 256; a++) {
		if (!mc_next()) continue;
		mc_desc("elements made of byte %d and another", a);
		for (int b = 1; b < 256; b++) {
			char x[] = { 'k', a, 0 }, y[] = { 'k', b, 0 };
			const char *ax[] = { x }, *ay[] = { y };
			struct ec_strvec *v = ec_strvec_from_array(ax, 1), *d = ec_strvec_from_array(ay, 1);
			MC_CHECK((ec_strvec_cmp(v, d) == 0) == (a == b), "byte-cmp", "comparison with byte %d", b);
			ec_strvec_add(v, y);
			ec_strvec_sort(v, NULL);
			MC_CHECK((unsigned char)ec_strvec_val(v, 0)[1] == (a < b ? a : b) && (unsigned char)ec_strvec_val(v, 1)[1] == (a < b ? b : a), "byte-sort", "sort with byte %d", b);
			ec_strvec_free(v); ec_strvec_free(d);
			mc_trans(2);
		}
		mc_nontrivial();
		mc_end();
	}
}
/* an element and its attributes shared by n vectors */
static void many_sharers(int n, int order)
{
	struct ec_strvec **v;
	struct ec_dict *a;
	int freed = 0;
	if (!mc_next()) return;
	mc_desc("%d vectors sharing their elements, freed in order %d", n, order);
	v = calloc(n + 1, sizeof(*v));
	v[0] = ec_strvec();
	a = ec_dict();
	ec_strvec_add(v[0], "p"); ec_strvec_add(v[0], "q");
	ec_dict_set(a, "k", &freed, (void (*)(void *))count_free);
	MC_CHECK(ec_strvec_set_attrs(v[0], 1, a) == 0, "attrs", "set_attrs fails");
	for (int i = 1; i < n; i++) v[i] = ec_strvec_ndup(v[i - 1], 0, 2);
	ec_strvec_set(v[n / 2], 0, "r");
	for (int k = 0; k < n; k++) {
		int i = order == 0 ? k : order == 1 ? n - 1 - k : k & 1 ? n - 1 - k / 2 : k / 2;
		const struct ec_dict *d;
		MC_CHECK(v[i] && !strcmp(ec_strvec_val(v[i], 0), i == n / 2 ? "r" : "p") && !strcmp(ec_strvec_val(v[i], 1), "q"), "share", "vector %d changed", i);
		d = ec_strvec_get_attrs(v[i], 1);
		MC_CHECK(d && ec_dict_has_key(d, "k") && !freed, "share-attrs", "the attributes of vector %d are lost", i);
		ec_strvec_free(v[i]);
	}
	MC_CHECK(freed == 1, "share-free", "the attributes are released %d time(s)", freed);
	free(v);
	mc_trans(2 * n); mc_state(mc_hu(mc_hu(MC_H0 + 14, n), order)); mc_nontrivial();
	mc_end();
}
static int bes;
static void big_vec(int size, int n, int init)
{
	struct ec_vec *v, *d;
	unsigned char *e, *g;
	int at[] = { 0, 1, n / 2, n - 1, n };
	if (!mc_next()) return;
	bes = size;
	mc_desc("vec of %d elements of %d bytes, initial size %d", n, size, init);
	e = malloc(size); g = malloc(size + 1);
#define FILL(i) for (int j = 0; j < size; j++) e[j] = j < 4 ? (i) >> 8 * j : j + (i)
	v = ec_vec(size, init, NULL, NULL);
	MC_CHECK(v != NULL, "vec-create", "cannot create");
	for (int i = 0; i < n; i++) { FILL(i); MC_CHECK(ec_vec_add_by_ref(v, e) == 0, "vec-add", "add fails"); }
	for (int a = 0; a < 5; a++)
		for (int b = 0; b < 5; b++) {
			int off = at[a], len = at[b] - at[a];
			if (off < 0 || len < 0 || off + len > n) continue;
			d = ec_vec_ndup(v, off, len);
			MC_CHECK(d != NULL && ec_vec_len(d) == (size_t)len, "vec-ndup", "ndup(%d, %d): wrong length", off, len);
			FILL(n);
			MC_CHECK(ec_vec_add_by_ref(d, e) == 0, "vec-add", "add to a duplicate fails");
			for (int i = 0; i <= len; i++) {
				g[size] = 0x5a;
				MC_CHECK(ec_vec_get(g, d, i) == 0, "vec-get", "cannot get element %d", i);
				FILL(i < len ? off + i : n);
				MC_CHECK(!memcmp(g, e, size) && g[size] == 0x5a, "vec-get", "ndup(%d, %d): element %d is wrong", off, len, i);
			}
			MC_CHECK(ec_vec_get(g, d, len + 1) < 0, "vec-get-out", "there is an element past the end");
			ec_vec_free(d);
			mc_trans(len + 2);
		}
	MC_CHECK(ec_vec_len(v) == (size_t)n && ec_vec_get(g, v, n) < 0, "vec-len", "the original changed");
	for (int i = 0; i < n; i++) { FILL(i); MC_CHECK(ec_vec_get(g, v, i) == 0 && !memcmp(g, e, size), "vec-get", "element %d of the original is wrong", i); }
	ec_vec_free(v);
	free(e); free(g);
	mc_state(mc_hu(mc_hu(MC_H0 + 15, n), size)); mc_nontrivial();
	mc_end();
}
static void scale(void)
{
	static const int es_[] = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 63, 64, 65, 255, 256, 257, 1000, 4096, 65536, 65537 };
	for (int i = 0; i < NBIGS; i++) {
		if (bigs[i] < 9000) big_strvec(bigs[i]);
		for (int o = 0; o < 5; o++) for (int s = 0; s < 2; s++) if (bigs[i] && bigs[i] < 9000) big_sort(bigs[i], o, s);
		big_text(bigs[i]);
		if (bigs[i] > 1) for (int o = 0; o < 3; o++) many_sharers(bigs[i], o);
		for (int k = 0; k < 21; k++)
			if (bigs[i] < 1100 && bigs[i] * es_[k] < 300000)
				for (int in = 0; in <= 16; in += 8) big_vec(es_[k], bigs[i], in);
	}
	every_byte();
}
void mc_run(void)
{
	int th = mc_thorough;
	static const int sizes[] = { 1, 2, 4, 8, 12 };

	mkops(1); hinit = 0; hrec(0, th ? 5 : 4);
	mkops(1); hinit = 1; hrec(0, 5);
	mkops(0); hinit = 1; hrec(0, th ? 7 : 6);
	for (int n = 0; n <= (th ? 6 : 5); n++) perms(n);
	longs();
	scale();
	for (int s = 0; s < 5; s++)
		for (cbs = 0; cbs < 4; cbs++)
			for (vinit = 0; vinit <= 3; vinit += 3) {
				es = sizes[s];
				if (es == 1 && cbs) continue;
				vrec(0, th ? 7 : 6, 1);
			}
	if (mc_next()) {
		mc_desc("vec of 0-byte elements");
		MC_CHECK(ec_vec(0, 1, NULL, NULL) == NULL, "vec-create", "accepted");
		MC_CHECK(ec_vec_len(NULL) == 0, "vec-null", "bad length of NULL");
		ec_vec_free(NULL); ec_strvec_free(NULL);
		mc_end();
	}
}
