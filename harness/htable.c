/* C09: hash tables and dictionaries against an ordered map. */
#include <ecoli.h>
#include "mc.h"

static struct mc_buf db;
/* ---- values: counted instances ------------------------------------------- */
#define MAXV 4096
static int vfreed[MAXV], vref[MAXV], vplain[MAXV], nv;   /* vref: references of the model */
static void on_free(void *p) { (*(int *)p)++; }

/* ---- model: list of (key, value), oldest set first ------------------------ */
struct ent { int k, v; };                   /* v < 0: NULL value */
struct map { int used, n; struct ent e[MAXV]; };
static struct map M[2];
static void m_unref(int v) { if (v >= 0) vref[v]--; }
static int m_find(struct map *m, int k)
{
	for (int i = 0; i < m->n; i++) if (m->e[i].k == k) return i;
	return -1;
}
static int m_del(struct map *m, int k)
{
	int i = m_find(m, k);
	if (i < 0) return -1;
	m_unref(m->e[i].v);
	memmove(&m->e[i], &m->e[i + 1], (m->n - i - 1) * sizeof(m->e[0]));
	m->n--;
	return 0;
}
static void m_set(struct map *m, int k, int v)
{
	m_del(m, k);
	m->e[m->n].k = k; m->e[m->n++].v = v;
	if (v >= 0) vref[v]++;
}
static void m_free(struct map *m)
{
	while (m->n) m_del(m, m->e[0].k);
	m->used = 0;
}
/* ---- the real tables, through one of the two API --------------------------- */
static int use_dict;
static struct { const void *p; size_t len; } key[MAXV];
static int nkeys;
static void *T[2];

static void *t_new(void) { return use_dict ? (void *)ec_dict() : (void *)ec_htable(); }
static void *t_dup(void *t) { return use_dict ? (void *)ec_dict_dup(t) : (void *)ec_htable_dup(t); }
static void t_free(void *t) { if (use_dict) ec_dict_free(t); else ec_htable_free(t); }
static size_t t_len(void *t) { return use_dict ? ec_dict_len(t) : ec_htable_len(t); }
static void *t_get(void *t, int k) { return use_dict ? ec_dict_get(t, key[k].p) : ec_htable_get(t, key[k].p, key[k].len); }
static bool t_has(void *t, int k) { return use_dict ? ec_dict_has_key(t, key[k].p) : ec_htable_has_key(t, key[k].p, key[k].len); }
static int t_del(void *t, int k) { return use_dict ? ec_dict_del(t, key[k].p) : ec_htable_del(t, key[k].p, key[k].len); }
static int t_set(void *t, int k, int v)
{
	/* the table must keep its own copy of the key */
	size_t len = key[k].len + use_dict;
	char *tmp = malloc(len);
	int ret;
	memcpy(tmp, key[k].p, len);
	ret = use_dict ? ec_dict_set(t, tmp, v < 0 ? NULL : &vfreed[v], v < 0 || vplain[v] ? NULL : on_free)
		: ec_htable_set(t, tmp, key[k].len, v < 0 ? NULL : &vfreed[v], v < 0 || vplain[v] ? NULL : on_free);
	memset(tmp, 0x55, len);
	free(tmp);
	return ret;
}
static void check(int upto)
{
	uint64_t h = MC_H0;
	for (int t = 0; t < 2; t++) {
		struct map *m = &M[t];
		int i = 0;
		if (!m->used) continue;
		MC_CHECK(t_len(T[t]) == (size_t)m->n, "len", "table %d: %zu entries instead of %d", t, t_len(T[t]), m->n);
		for (int k = 0; k < upto; k++) {
			int e = m_find(m, k);
			void *v;
			errno = 12345;
			v = t_get(T[t], k);
			if (e < 0) MC_CHECK(v == NULL && errno == ENOENT, "get", "table %d: key %d is absent, get returns %p, errno %d", t, k, v, errno);
			else if (m->e[e].v < 0) MC_CHECK(v == NULL && errno == 0, "get-null", "table %d: key %d has a NULL value, get returns %p, errno %d", t, k, v, errno);
			else MC_CHECK(v == &vfreed[m->e[e].v], "get", "table %d: bad value of key %d", t, k);
			MC_CHECK(t_has(T[t], k) == (e >= 0), "has-key", "table %d: key %d is %s", t, k, e >= 0 ? "not found" : "found");
		}
		if (use_dict) {
			struct ec_dict_elt_ref *it;
			for (it = ec_dict_iter(T[t]); it != NULL; it = ec_dict_iter_next(it), i++) {
				MC_CHECK(i < m->n, "iter", "table %d: too many entries", t);
				MC_CHECK(!strcmp(ec_dict_iter_get_key(it), key[m->e[i].k].p), "iter", "table %d: entry %d is not key %d", t, i, m->e[i].k);
				MC_CHECK(ec_dict_iter_get_val(it) == (m->e[i].v < 0 ? NULL : &vfreed[m->e[i].v]), "iter", "table %d: bad value of entry %d", t, i);
			}
		} else {
			struct ec_htable_elt_ref *it;
			for (it = ec_htable_iter(T[t]); it != NULL; it = ec_htable_iter_next(it), i++) {
				MC_CHECK(i < m->n, "iter", "table %d: too many entries", t);
				MC_CHECK(ec_htable_iter_get_key_len(it) == key[m->e[i].k].len &&
					!memcmp(ec_htable_iter_get_key(it), key[m->e[i].k].p, key[m->e[i].k].len), "iter", "table %d: entry %d is not key %d", t, i, m->e[i].k);
				MC_CHECK(ec_htable_iter_get_val(it) == (m->e[i].v < 0 ? NULL : &vfreed[m->e[i].v]), "iter", "table %d: bad value of entry %d", t, i);
			}
		}
		MC_CHECK(i == m->n, "iter", "table %d: iteration visits %d entries instead of %d", t, i, m->n);
		h = mc_hu(h, t);
		for (i = 0; i < m->n; i++) h = mc_hu(mc_hu(h, m->e[i].k), m->e[i].v < 0);
	}
	for (int v = 0; v < nv; v++)
		MC_CHECK(vfreed[v] == (vref[v] == 0 && !vplain[v]), vref[v] ? "freed-early" : "destructor", "value %d is %s but its destructor ran %d time(s)",
			v, vref[v] ? "still in a table" : "in no table", vfreed[v]);
	mc_state(h);
	mc_trans(1);
}
static void start(void)
{
	memset(vfreed, 0, nv * sizeof(vfreed[0])); memset(vref, 0, nv * sizeof(vref[0]));
	nv = 0;
	for (int t = 0; t < 2; t++) { M[t].n = M[t].used = 0; T[t] = NULL; }
	T[0] = t_new();
	MC_CHECK(T[0] != NULL, "create", "cannot create a table");
	M[0].used = 1;
}
static void finish(void)
{
	for (int t = 0; t < 2; t++) if (M[t].used) { m_free(&M[t]); t_free(T[t]); T[t] = NULL; check(0); }
	mc_end();
}
static int newv(void) { vfreed[nv] = vref[nv] = vplain[nv] = 0; return nv++; }
static void do_set(int t, int k, int null)
{
	int v = null == 1 ? -1 : newv();
	if (null == 2) vplain[v] = 1;       /* a value without destructor */
	m_set(&M[t], k, v);
	mc_trans(1);
	MC_CHECK(t_set(T[t], k, v) == 0, "set", "set fails");
}
static void do_del(int t, int k)
{
	int r, e = m_del(&M[t], k);
	mc_trans(1);
	errno = 0;
	r = t_del(T[t], k);
	MC_CHECK(r == e && (e == 0 || errno == ENOENT), "del", "deleting a key that is %s returns %d, errno %d", e ? "absent" : "present", r, errno);
}
static void do_dup(int s, int d)
{
	mc_trans(1);
	T[d] = t_dup(T[s]);
	MC_CHECK(T[d] != NULL && T[d] != T[s], "dup", "cannot duplicate");
	M[d] = M[s];
	for (int i = 0; i < M[s].n; i++) if (M[s].e[i].v >= 0) vref[M[s].e[i].v]++;
}

/* ---- A: histories --------------------------------------------------------- */
enum { O_SET, O_SETNULL, O_SETPLAIN, O_DEL, O_DUP, O_FREE };
static struct op { int o, t, k; } ops[64], hist[16];
static int nops;
static int used[2];
static void hrun(int d)
{
	if (!mc_next()) return;
	mc_buf_reset(&db);
	mc_buf_add(&db, "%s:", use_dict ? "dict" : "htable");
	for (int i = 0; i < d; i++)
		mc_buf_add(&db, " %s(%d,%d)", (const char *[]){ "set", "set-null", "set-plain", "del", "dup", "free" }[hist[i].o], hist[i].t, hist[i].k);
	mc_desc("%s", db.s);
	start();
	for (int i = 0; i < d; i++) {
		struct op *o = &hist[i];
		switch (o->o) {
		case O_SET: do_set(o->t, o->k, 0); break;
		case O_SETNULL: do_set(o->t, o->k, 1); break;
		case O_SETPLAIN: do_set(o->t, o->k, 2); break;
		case O_DEL: do_del(o->t, o->k); break;
		case O_DUP: do_dup(o->t, !o->t); break;
		case O_FREE: m_free(&M[o->t]); t_free(T[o->t]); mc_trans(1); break;
		}
	}
	check(nkeys);
	mc_outcome(mc_hu(mc_hu(MC_H0, M[0].n), M[1].used ? M[1].n : -1));
	if (M[0].n + M[1].n > 0) mc_nontrivial();
	finish();
}
static void hrec(int d, int max)
{
	hrun(d);
	if (d == max) return;
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		int s0 = used[0], s1 = used[1];
		if (!used[o->t]) continue;
		if (o->o == O_DUP) { if (used[!o->t]) continue; used[!o->t] = 1; }
		if (o->o == O_FREE) used[o->t] = 0;
		hist[d] = *o;
		hrec(d + 1, max);
		used[0] = s0; used[1] = s1;
	}
}
static void mkops(int nk)
{
	nops = 0; nkeys = nk;
	for (int t = 0; t < 2; t++) {
		for (int k = 0; k < nk; k++) {
			ops[nops++] = (struct op){ O_SET, t, k };
			ops[nops++] = (struct op){ O_DEL, t, k };
		}
		ops[nops++] = (struct op){ O_SETNULL, t, 0 };
		ops[nops++] = (struct op){ O_SETPLAIN, t, 1 };
		ops[nops++] = (struct op){ O_DUP, t, 0 };
		ops[nops++] = (struct op){ O_FREE, t, 0 };
	}
	used[0] = 1; used[1] = 0;
}
/* ---- B: many keys, across resizes ------------------------------------------ */
static char names[MAXV][12];
static void many_keys(int max, int collide)
{
	nkeys = 0;
	for (int i = 0; nkeys < max; i++) {
		snprintf(names[nkeys], sizeof(names[0]), "%x", i);
		/* with the current hash function: the same bucket in small tables */
		if (collide && (ec_murmurhash3(names[nkeys], strlen(names[nkeys]) + use_dict, 0) & 7) != 3 && i < 40 * max) continue;
		key[nkeys].p = names[nkeys]; key[nkeys].len = strlen(names[nkeys]);
		nkeys++;
	}
}
/* two keys of the same length with the same 32-bit hash (birthday search) */
struct hk { uint32_t h; uint32_t i; };
static int hk_cmp(const void *a, const void *b)
{
	const struct hk *x = a, *y = b;
	return x->h < y->h ? -1 : x->h > y->h ? 1 : x->i < y->i ? -1 : 1;
}
static void full_collision(void)
{
	enum { NB = 600000 };
	struct hk *t = malloc(NB * sizeof(*t));
	int n = 0;
	for (uint32_t i = 0; i < NB; i++) {
		char b[12];
		snprintf(b, sizeof(b), "k%06x", i);
		t[i].h = ec_murmurhash3(b, 7 + use_dict, 0); t[i].i = i;
	}
	qsort(t, NB, sizeof(*t), hk_cmp);
	for (int i = 0; i + 1 < NB && n < 4; i++)
		if (t[i].h == t[i + 1].h) {
			snprintf(names[n++], sizeof(names[0]), "k%06x", t[i].i);
			snprintf(names[n++], sizeof(names[0]), "k%06x", t[i + 1].i);
		}
	for (int i = 0; n < 4; i++) snprintf(names[n++], sizeof(names[0]), "z%d", i);
	for (int i = 0; i < 4; i++) { key[i].p = names[i]; key[i].len = 7; if (names[i][0] == 'z') key[i].len = 2; }
	free(t);
}
/* four keys of any length with the same hash, whatever the seed: two 4-byte blocks whose differences cancel out */
static int collide_miss;
static uint32_t unmix(uint32_t m)
{
	static uint32_t i1, i2;
	if (i1 == 0) {      /* inverses modulo 2^32 */
		uint32_t c1 = 0xcc9e2d51, c2 = 0x1b873593;
		i1 = c1; i2 = c2;
		for (int k = 0; k < 5; k++) { i1 *= 2 - c1 * i1; i2 *= 2 - c2 * i2; }
	}
	m *= i2;
	m = m >> 15 | m << 17;
	return m * i1;
}
static int no_zero(uint32_t v) { return (v & 0xff) && (v >> 8 & 0xff) && (v >> 16 & 0xff) && v >> 24; }
static void long_collision(int len)
{
	static char buf[4][5000];
	uint32_t a[4], b[4], m = 12345;
	for (int i = 0; i < 4; i++)
		for (;; m += 77777) {
			a[i] = unmix(m); b[i] = unmix(m ^ (i & 1 ? 0x80000000u : 0x40000u));
			if (no_zero(a[i]) && no_zero(b[i])) { m += 999; break; }
		}
	for (int k = 0; k < 4; k++) {
		for (int i = 0; i < len; i++) buf[k][i] = 'a' + i % 26;
		buf[k][len] = 0;
		for (int i = 0; i < 4; i++) memcpy(buf[k] + (i < 2 ? i * 4 : len / 4 * 4 - 16 + i * 4), (k >> (i / 2) & 1) ? &b[i] : &a[i], 4);
		key[k].p = buf[k]; key[k].len = len;
		if (ec_murmurhash3(buf[k], len, 0x1234) != ec_murmurhash3(buf[0], len, 0x1234)) collide_miss++;
	}
}
static const char *pname[] = { "keep", "delete forward", "delete backward", "delete odd", "replace all, delete even", "dup, change both",
	"delete all, insert again", "dup after deletions, free first" };
#define NPAT 8
static void big(int n, int pat, int collide)
{
	if (!mc_next()) return;
	many_keys(n + 1, collide);
	mc_desc("%s: %d keys%s, %s", use_dict ? "dict" : "htable", n, collide ? " (colliding)" : "", pname[pat]);
	start();
	for (int i = 0; i < n; i++) do_set(0, i, 0);
	check(n + 1);
	switch (pat) {
	case 1: for (int i = 0; i < n; i++) { do_del(0, i); if (n <= 80) check(n + 1); } break;
	case 2: for (int i = n - 1; i >= 0; i--) { do_del(0, i); if (n <= 80) check(n + 1); } break;
	case 3: for (int i = 1; i < n; i += 2) do_del(0, i); break;
	case 4: for (int i = 0; i < n; i++) { do_set(0, i, 0); if (n <= 80) check(n + 1); }
		for (int i = 0; i < n; i += 2) do_del(0, i); break;
	case 5: do_dup(0, 1); check(n + 1);
		for (int i = 0; i < n; i += 3) do_del(0, i);
		for (int i = 0; i < n; i += 2) do_set(1, i, 0);
		do_set(0, n, 0);
		for (int i = 1; i < n; i += 3) do_del(1, i);
		break;
	case 6: for (int i = 0; i < n; i++) do_del(0, i);
		check(n + 1);
		for (int i = n; i >= 0; i--) do_set(0, i, i == 1);
		break;
	case 7: for (int i = 0; i < n; i += 2) do_del(0, i);
		do_dup(0, 1); m_free(&M[0]); t_free(T[0]);
		check(n + 1);
		do_set(1, n, 0);
		break;
	}
	check(n + 1);
	mc_outcome(mc_hu(MC_H0, M[0].n));
	if (n > 8) mc_nontrivial();
	finish();
}
/* ---- large tables -------------------------------------------------------------- */
struct hv { int freed, pos, dead; };	/* pos: order of the last set */
static void hv_free(void *p) { ((struct hv *)p)->freed++; }
static const char *hkey(int i) { static char b[16]; snprintf(b, sizeof(b), "k%d", i); return b; }
static void h_check(void *t, struct hv *v, int n, const char *what)
{
	int live = 0, seen = 0, last = -1;
	for (int i = 0; i < n; i++) {
		void *x;
		live += !v[i].dead;
		errno = 0;
		x = use_dict ? ec_dict_get(t, hkey(i)) : ec_htable_get(t, &i, sizeof(i));
		MC_CHECK(v[i].dead ? x == NULL && errno == ENOENT : x == &v[i], "large-get", "%s: key %d: wrong answer", what, i);
	}
	MC_CHECK(t_len(t) == (size_t)live, "large-len", "%s: %zu entries instead of %d", what, t_len(t), live);
	if (use_dict) {
		struct ec_dict_elt_ref *it;
		for (it = ec_dict_iter(t); it; it = ec_dict_iter_next(it), seen++) {
			struct hv *x = ec_dict_iter_get_val(it);
			MC_CHECK(x >= v && x < v + n && !x->dead && x->pos > last && !strcmp(ec_dict_iter_get_key(it), hkey(x - v)), "large-iter", "%s: wrong entry %d", what, seen);
			last = x->pos;
		}
	} else {
		struct ec_htable_elt_ref *it;
		for (it = ec_htable_iter(t); it; it = ec_htable_iter_next(it), seen++) {
			struct hv *x = ec_htable_iter_get_val(it);
			int k;
			MC_CHECK(x >= v && x < v + n && !x->dead && x->pos > last && ec_htable_iter_get_key_len(it) == sizeof(k), "large-iter", "%s: wrong entry %d", what, seen);
			memcpy(&k, ec_htable_iter_get_key(it), sizeof(k));
			MC_CHECK(k == x - v, "large-iter", "%s: wrong key of entry %d", what, seen);
			last = x->pos;
		}
	}
	MC_CHECK(seen == live, "large-iter", "%s: iteration visits %d entries instead of %d", what, seen, live);
	mc_trans(2 * n);
}
static void huge_table(int n, int step)
{
	struct hv *v;
	void *t, *d;
	int i, pos = 0, r;
	if (!mc_next()) return;
	mc_desc("%s of %d entries, every %d-th deleted", use_dict ? "dict" : "htable", n, step);
	v = calloc(n, sizeof(*v));
	t = t_new();
	for (i = 0; i < n; i++) {
		v[i].pos = pos++;
		r = use_dict ? ec_dict_set(t, hkey(i), &v[i], hv_free) : ec_htable_set(t, &i, sizeof(i), &v[i], hv_free);
		MC_CHECK(r == 0, "set", "set fails");
	}
	h_check(t, v, n, "filled");
	for (i = step / 2; i < n; i += step) {
		r = use_dict ? ec_dict_del(t, hkey(i)) : ec_htable_del(t, &i, sizeof(i));
		MC_CHECK(r == 0 && v[i].freed == 1, "large-del", "deletion of key %d: %d, destructor run %d time(s)", i, r, v[i].freed);
		v[i].dead = 1;
	}
	h_check(t, v, n, "after the deletions");
	d = t_dup(t);
	MC_CHECK(d != NULL, "dup", "cannot duplicate");
	h_check(d, v, n, "duplicate");
	t_free(t);
	for (i = 0; i < n; i++) MC_CHECK(v[i].freed == v[i].dead, "large-destructor", "value %d released %d time(s)", i, v[i].freed);
	h_check(d, v, n, "duplicate of a freed table");
	t_free(d);
	for (i = 0; i < n; i++) MC_CHECK(v[i].freed == 1, "large-destructor", "value %d released %d time(s)", i, v[i].freed);
	free(v);
	mc_state(mc_hu(mc_hu(MC_H0 + 3, n), use_dict));
	mc_nontrivial();
	mc_end();
}
/* ---- C: any bytes, any length ------------------------------------------------ */
static unsigned char kb[4][300];
static void bytes(int maxlen)
{
	use_dict = 0;
	for (int len = 1; len <= maxlen; len++)
		for (int pos = 0; pos < len; pos++) {
			if (!mc_next()) continue;
			mc_desc("htable: keys of %d bytes that differ at byte %d, and their prefix", len, pos);
			nkeys = 4;
			for (int k = 0; k < 4; k++) {
				for (int i = 0; i < len + 1; i++) kb[k][i] = (i * 7) & 1 ? 0 : 0xff - (i & 3);
				key[k].p = kb[k]; key[k].len = len;
			}
			kb[1][pos] ^= 0x80; kb[2][pos] ^= 1;
			key[3].len = len + 1;
			start();
			for (int k = 0; k < 4; k++) { do_set(0, k, 0); check(4); }
			for (int k = 0; k < 4; k++) { do_del(0, (k + pos) & 3); check(4); }
			mc_outcome(mc_hu(MC_H0, len & 3)); mc_nontrivial();
			finish();
		}
}
/* ---- D: bad arguments -------------------------------------------------------- */
static void bad(void)
{
	for (use_dict = 0; use_dict < 2; use_dict++)
		for (int filled = 0; filled < 2; filled++)
			for (int c = 0; c < 12; c++) {
				int r = -1, err, v;
				void *p = NULL;
				if (!mc_next()) continue;
				mc_desc("%s (%s): bad call %d", use_dict ? "dict" : "htable", filled ? "filled" : "empty", c);
				nkeys = 1; key[0].p = "abc"; key[0].len = 3;
				start();
				if (filled) do_set(0, 0, 0);
				v = newv();
				errno = 0;
				switch (c) {
				case 0: r = use_dict ? ec_dict_set(T[0], NULL, &vfreed[v], on_free) : ec_htable_set(T[0], NULL, 3, &vfreed[v], on_free); break;
				case 1: r = use_dict ? ec_dict_set(NULL, "a", &vfreed[v], on_free) : ec_htable_set(NULL, "a", 1, &vfreed[v], on_free); break;
				case 2: r = use_dict ? ec_dict_del(T[0], NULL) : ec_htable_del(T[0], NULL, 1); break;
				case 3: r = use_dict ? ec_dict_del(NULL, "a") : ec_htable_del(NULL, "a", 1); break;
				case 4: p = use_dict ? ec_dict_get(T[0], NULL) : ec_htable_get(T[0], NULL, 1); break;
				case 5: p = use_dict ? ec_dict_get(NULL, "a") : ec_htable_get(NULL, "a", 1); break;
				case 6: r = -!(use_dict ? ec_dict_has_key(T[0], NULL) : ec_htable_has_key(T[0], NULL, 1)); break;
				case 7: r = -!(use_dict ? ec_dict_has_key(NULL, "a") : ec_htable_has_key(NULL, "a", 1)); break;
				case 8: if (use_dict) { errno = EINVAL; vfreed[v] = 1; } else r = ec_htable_set(T[0], "a", 0, &vfreed[v], on_free); break;
				case 9: if (use_dict) ec_dict_free(NULL); else ec_htable_free(NULL); errno = EINVAL; break;
				case 10: p = use_dict ? (void *)ec_dict_iter(NULL) : (void *)ec_htable_iter(NULL); errno = EINVAL; break;
				case 11: p = use_dict ? (void *)ec_dict_iter_next(NULL) : (void *)ec_htable_iter_next(NULL); errno = EINVAL; break;
				}
				err = errno;
				mc_trans(1);
				MC_CHECK(r < 0 && p == NULL && err == EINVAL, "bad-args", "returns %d %p, errno %d", r, p, err);
				if (c > 1 && c != 8) vfreed[v] = 1;
				check(1);
				mc_outcome(mc_hu(MC_H0, c)); mc_nontrivial();
				finish();
			}
}
void mc_run(void)
{
	int th = mc_thorough;
	static const char *k4[4] = { "a", "ab", "b", "" };

	bad();
	for (use_dict = 0; use_dict < 2; use_dict++) {
		for (int i = 0; i < 4; i++) { key[i].p = k4[i]; key[i].len = strlen(k4[i]); }
		if (!use_dict) { key[3].p = "a\0"; key[3].len = 2; }
		mkops(4); hrec(0, 5);
		mkops(2); hrec(0, th ? 7 : 6);
		/* two keys in the same bucket */
		many_keys(3, 1);
		mkops(3); hrec(0, 5);
		/* two pairs of keys with the same hash */
		full_collision();
		mkops(4); hrec(0, th ? 5 : 4);
		for (int i = 0; i < 12; i++) {
			static const int len[] = { 16, 17, 31, 32, 33, 63, 64, 65, 128, 257, 1024, 4096 };
			long_collision(len[i]);
			mkops(4); hrec(0, th ? 4 : 3);
		}
		for (int n = 0; n <= (th ? 700 : 80); n++)
			for (int p = 0; p < NPAT; p++)
				for (int c = 0; c < 2; c++) {
					if (n > 80 && n % 64 > 2 && n != 511 && n != 512 && n != 513) continue;
					big(n, p, c);
				}
		for (int p = 0; p < NPAT; p++) for (int n = 510; n <= 515; n++) big(n, p, 0);
	}
	for (use_dict = 0; use_dict < 2; use_dict++) {
		static const int sz[] = { 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 16384, 32768, 65535, 65536, 65537, 100000 };
		for (int i = 0; i < 17; i++)
			for (int st = 2; st <= 7; st += 5) huge_table(sz[i], st);
	}
	bytes(th ? 130 : 40);
}
