/* C20: initialisation lists, registries, logs and allocators: every list or history within the bounds, each one
 * in its own process when it changes the state of the library for good. */
#include <ecoli.h>
#include <histedit.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include "gram.h"

/* runs what follows in a child process; its failures become the ones of the case */
static int in_child(void)
{
	pid_t p;
	int st;
	fflush(NULL);
	p = fork();
	if (p < 0) mc_bug("fork");
	if (p == 0) return 1;
	if (waitpid(p, &st, 0) != p) mc_bug("waitpid");
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); }
	if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
	return 0;
}
static void leave(void) { fflush(NULL); _exit(0); }

/* ---- the allocator: tells its blocks from the ones of libc ------------------------ */
#define HDR 64
#define NB 65536
struct blk { struct blk *next; char *p; size_t size; };
static struct blk *tab[NB];
static long live, calls, size_limit = 1 << 24;
static size_t last_size;
static int bad_origin;
static struct blk **find_blk(const void *p)
{
	struct blk **b = &tab[((uintptr_t)p >> 4) % NB];
	while (*b && (*b)->p != p) b = &(*b)->next;
	return b;
}
static int mine(const void *p) { return *find_blk(p) != NULL; }
static void *t_malloc(size_t size, const char *file, unsigned int line)
{
	struct blk *b, **h;
	char *base;
	calls++;
	last_size = size;
	if (file == NULL || *file == 0 || line == 0) bad_origin = 1;
	if (size > (size_t)size_limit) { errno = ENOMEM; return NULL; }
	base = malloc(size + HDR);
	if (base == NULL) mc_bug("malloc");
	memset(base, 0xa5, size + HDR);
	__asan_poison_memory_region(base, HDR);
	b = malloc(sizeof(*b));
	b->p = base + HDR;
	b->size = size;
	h = &tab[((uintptr_t)b->p >> 4) % NB];
	b->next = *h;
	*h = b;
	live++;
	return b->p;
}
static void t_free(void *p, const char *file, unsigned int line)
{
	struct blk **b, *n;
	if (file == NULL || *file == 0 || line == 0) bad_origin = 1;
	if (p == NULL) return;
	b = find_blk(p);
	if (*b == NULL) mc_fail("foreign-free", "a block that does not come from the registered allocator is released with it (%s:%u)", file, line);
	n = *b;
	*b = n->next;
	__asan_unpoison_memory_region((char *)p - HDR, HDR);
	free((char *)p - HDR);
	free(n);
	live--;
}
static void *t_realloc(void *p, size_t size, const char *file, unsigned int line)
{
	struct blk **b;
	void *q;
	if (p == NULL) return t_malloc(size, file, line);
	b = find_blk(p);
	if (*b == NULL) mc_fail("foreign-realloc", "a block that does not come from the registered allocator is resized with it (%s:%u)", file, line);
	q = t_malloc(size, file, line);
	if (q == NULL) return NULL;
	memcpy(q, p, (*find_blk(p))->size < size ? (*find_blk(p))->size : size);
	t_free(p, file, line);
	return q;
}
static int tag_on(void) { return ec_malloc_register(t_malloc, t_free, t_realloc); }

/* ---- the library works --------------------------------------------------------------- */
static int usable(void)
{
	struct ec_node *n = EC_NODE_CMD("x", "c1 [b]", ec_node_cond("c1", "cmp(eq, count(root()), 1)", ec_node_str("s", "a")));
	struct ec_pnode *p = n ? ec_parse(n, "a") : NULL;
	struct ec_comp *c = n ? ec_complete(n, "") : NULL;
	int ok = p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == 1 && c != NULL;
	ec_comp_free(c);
	ec_pnode_free(p);
	ec_node_free(n);
	return ok;
}

/* ---- initialisation -------------------------------------------------------------------- */
#define NI 4
static const unsigned prios[] = { 0, 40, 50, 76, 99 };
static const unsigned few_prios[] = { 0, 50, 99 };
static struct ec_init ini[NI];
static int ik[NI];          /* 0: no init, 1: succeeds, 2: fails */
static int order[64], norder, eorder[64], neorder;
static int nini, lib_bad;
static int do_init(int i)
{
	if (norder < 64) order[norder++] = i;
	if (ini[i].priority > 75 && !usable()) lib_bad = 1;
	errno = 1000 + i;
	return ik[i] == 2 ? -1 : 0;
}
static void do_exit(int i)
{
	if (neorder < 64) eorder[neorder++] = i;
	if (ini[i].priority > 75 && !usable()) lib_bad = 2;
}
static int i0(void) { return do_init(0); }
static int i1(void) { return do_init(1); }
static int i2(void) { return do_init(2); }
static int i3(void) { return do_init(3); }
static void e0(void) { do_exit(0); }
static void e1(void) { do_exit(1); }
static void e2(void) { do_exit(2); }
static void e3(void) { do_exit(3); }
static int (*const fi[])(void) = { i0, i1, i2, i3 };
static void (*const fe[])(void) = { e0, e1, e2, e3 };

static void one_init(void)
{
	struct mc_buf b = { 0 };
	int cyc, i, j, r, e, first[64], nfirst = 0;
	if (!mc_next()) return;
	mc_buf_reset(&b);
	for (i = 0; i < nini; i++) mc_buf_add(&b, " {priority %u, %s, %s}", ini[i].priority, ik[i] == 0 ? "no init" : ik[i] == 1 ? "init" : "init fails", ini[i].exit ? "exit" : "no exit");
	mc_desc("init list%s", b.s);
	mc_state(mc_hs(MC_H0, b.s));
	if (nini) mc_nontrivial();
	mc_trans(4);
	if (in_child()) {
		if (tag_on() < 0) mc_fail("register", "ec_malloc_register() refused before ec_init()");
		for (i = 0; i < nini; i++) ec_init_register(&ini[i]);
		for (cyc = 0; cyc < 2; cyc++) {
			int fail = -1;
			norder = neorder = lib_bad = 0;
			r = ec_init();
			e = errno;
			/* the lowest priority first, each one once, none after the one that failed */
			for (i = 0; i < norder; i++) {
				if (i) MC_CHECK(ini[order[i - 1]].priority <= ini[order[i]].priority, "order", "the function of priority %u runs after the one of priority %u", ini[order[i]].priority, ini[order[i - 1]].priority);
				for (j = 0; j < i; j++) MC_CHECK(order[i] != order[j], "twice", "function %d runs twice", order[i]);
				if (fail >= 0) mc_fail("after-failure", "function %d runs after function %d has failed", order[i], fail);
				if (ik[order[i]] == 2) fail = order[i];
			}
			for (i = 0; i < nini; i++) {
				int ran = 0;
				for (j = 0; j < norder; j++) ran |= order[j] == i;
				if (ik[i] == 0) { MC_CHECK(!ran, "internal", "?"); continue; }
				if (fail < 0) MC_CHECK(ran, "missing", "function %d did not run", i);
				else if (!ran) MC_CHECK(ini[i].priority >= ini[fail].priority, "missing", "function %d of priority %u did not run before function %d of priority %u that failed", i, ini[i].priority, fail, ini[fail].priority);
			}
			MC_CHECK(r == (fail < 0 ? 0 : -1), "status", "ec_init() returns %d %s", r, fail < 0 ? "although nothing failed" : "although a function failed");
			if (fail >= 0) MC_CHECK(e == 1000 + fail, "errno", "errno set by the function that failed is lost (%d)", e);
			MC_CHECK(!lib_bad, "usable", "the library cannot be used by an init function of priority 76 or more");
			if (fail < 0) MC_CHECK(usable(), "usable", "the library does not work after ec_init()");
			if (cyc == 0) { memcpy(first, order, sizeof(order)); nfirst = norder; }
			else MC_CHECK(nfirst == norder && !memcmp(first, order, norder * sizeof(*order)), "second", "the second initialisation does not run the same functions");
			lib_bad = 0;
			if (fail >= 0) {
				/* what is undone after a failure is not specified: memory is released, in order */
				int f = lib_bad;
				ec_exit();
				lib_bad = f;
			} else {
				ec_exit();
				MC_CHECK(!lib_bad, "usable-exit", "the library cannot be used by an exit function of priority 76 or more");
			}
			for (i = 1; i < neorder; i++) MC_CHECK(ini[eorder[i - 1]].priority >= ini[eorder[i]].priority, "exit-order", "the exit function of priority %u runs after the one of priority %u", ini[eorder[i]].priority, ini[eorder[i - 1]].priority);
			if (fail < 0) {
				int k = 0;
				for (i = 0; i < nini; i++) k += ini[i].exit != NULL;
				MC_CHECK(k == neorder, "exit-count", "%d exit functions called instead of %d", neorder, k);
				/* functions of the same priority: reverse order of their init functions */
				for (i = 0; i < neorder; i++)
					for (j = i + 1; j < neorder; j++) {
						int pi = -1, pj = -1, q;
						MC_CHECK(eorder[i] != eorder[j], "exit-twice", "exit function %d runs twice", eorder[i]);
						for (q = 0; q < norder; q++) { if (order[q] == eorder[i]) pi = q; if (order[q] == eorder[j]) pj = q; }
						if (pi >= 0 && pj >= 0) MC_CHECK(pi > pj, "exit-reverse", "exit functions %d and %d do not run in the reverse order of their init functions", eorder[i], eorder[j]);
					}
			}
			mc_outcome(mc_hu(mc_hu(mc_h(MC_H0, order, norder * sizeof(*order)), norder), mc_h(r, eorder, neorder * sizeof(*eorder))));
			MC_CHECK(live == 0, "leak", "%ld block(s) allocated after ec_exit()", live);
		}
		leave();
	}
	mc_buf_free(&b);
	mc_end();
}
static void enum_init(int i, const unsigned *pr, int np)
{
	if (i == nini) { one_init(); return; }
	for (int p = 0; p < np; p++)
		for (int k = 0; k < 3; k++)
			for (int e = 0; e < 2; e++) {
				ini[i].priority = pr[p];
				ik[i] = k;
				ini[i].init = k ? fi[i] : NULL;
				ini[i].exit = e ? fe[i] : NULL;
				enum_init(i + 1, pr, np);
			}
}
static void inits(void)
{
	for (nini = 0; nini <= 2; nini++) enum_init(0, prios, 5);
	nini = 3;
	if (mc_thorough) enum_init(0, prios, 5); else enum_init(0, few_prios, 3);
}

static int vap(char **p, const char *fmt, ...)
{
	va_list ap;
	int r;
	va_start(ap, fmt);
	r = ec_vasprintf(p, fmt, ap);
	va_end(ap);
	return r;
}
/* ---- node types and tests ------------------------------------------------------------------ */
static int np0(const struct ec_node *n, struct ec_pnode *p, const struct ec_strvec *v) { return 0; }
static int np1(const struct ec_node *n, struct ec_pnode *p, const struct ec_strvec *v) { return ec_strvec_len(v) ? 1 : EC_PARSE_NOMATCH; }
static const struct ec_config_schema t_schema[] = { { .key = "k", .desc = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static struct ec_node_type T[] = {
	{ .name = "aa", .parse = np0 }, { .name = "aa", .parse = np1, .schema = t_schema }, { .name = "bb", .parse = np1 }, { .name = "seq", .parse = np0 }, { .name = "a", .parse = np0 },
};
#define NT 5
static const char *const tn[] = { "aa", "bb", "seq", "a", "str", "", "aaa", "option" };
#define NTN 8
static void type_history(const int *op, int n)
{
	const struct ec_node_type *cur[NTN];
	struct ec_node *nodes[64];
	const struct ec_node_type *nt[64];
	struct mc_buf b = { 0 };
	int i, j, r, k = 0, nn = 0;
	if (!mc_next()) return;
	mc_buf_reset(&b);
	for (i = 0; i < n; i++) mc_buf_add(&b, " register(%s#%d%s)", T[op[i] / 2].name, op[i] / 2, op[i] & 1 ? ", override" : "");
	mc_desc("node types:%s", b.s);
	mc_state(mc_hs(MC_H0, b.s));
	mc_nontrivial();
	if (in_child()) {
		if (ec_init() < 0) mc_fail("init", "ec_init() fails");
		for (j = 0; j < NTN; j++) cur[j] = ec_node_type_lookup(tn[j]);
		MC_CHECK(!cur[0] && !cur[1] && cur[2] && !cur[3] && cur[4] && !cur[5] && !cur[6] && cur[7], "builtin", "wrong set of types at start");
		for (i = 0; i <= n; i++) {
			if (i) {
				struct ec_node_type *t = &T[op[i - 1] / 2];
				int ov = op[i - 1] & 1;
				for (j = 0; strcmp(tn[j], t->name); j++);
				errno = 0;
				r = ec_node_type_register(t, ov);
				mc_trans(1);
				if (cur[j] != NULL && !ov) MC_CHECK(r < 0 && errno == EEXIST, "duplicate", "registration %d is not refused with EEXIST (%d, %d)", i, r, errno);
				else { MC_CHECK(r == 0, "register", "registration %d is refused", i); cur[j] = t; }
			}
			for (j = 0; j < NTN; j++) {
				const struct ec_node_type *t;
				errno = 0;
				t = ec_node_type_lookup(tn[j]);
				k++;
				MC_CHECK(t == cur[j], "lookup", "lookup of <%s> after %d registrations is wrong", tn[j], i);
				if (t == NULL) MC_CHECK(errno == ENOENT, "lookup-errno", "lookup of an unknown type sets errno %d", errno);
				else {
					MC_CHECK(!strcmp(ec_node_type_name(t), tn[j]), "name", "the type found has another name");
					MC_CHECK(ec_node_type_schema(t) == t->schema, "schema", "the schema of the type is wrong");
				}
				if (nn < 60) {
					errno = 0;
					nodes[nn] = ec_node(tn[j], "x");
					MC_CHECK((nodes[nn] != NULL) == (cur[j] != NULL), "node", "ec_node(%s) %s", tn[j], cur[j] ? "fails" : "succeeds");
					if (nodes[nn]) nt[nn++] = cur[j]; else MC_CHECK(errno == ENOENT, "node-errno", "ec_node() of an unknown type sets errno %d", errno);
				}
			}
		}
		/* the dump names every type that can be found */
		{
			char *t = NULL, *l;
			size_t len = 0;
			FILE *f = open_memstream(&t, &len);
			ec_node_type_dump(f);
			fclose(f);
			for (j = 0; j < NTN; j++) {
				int seen = 0;
				for (l = t; *l; l = strchr(l, '\n') + 1) { size_t m = strcspn(l, "\n"); seen |= m == strlen(tn[j]) && !strncmp(l, tn[j], m); if (l[m] == 0) break; }
				MC_CHECK(seen == (cur[j] != NULL), "dump", "<%s> is %s in the dump", tn[j], seen ? "" : "not");
			}
			free(t);
		}
		/* the nodes keep the type they were built with */
		for (j = 0; j < nn; j++) {
			struct ec_pnode *p;
			MC_CHECK(ec_node_type(nodes[j]) == nt[j], "kept", "a node of type <%s> changed type", nt[j]->name);
			MC_CHECK(ec_node_check_type(nodes[j], nt[j]) == 0 && (ec_node_check_type(nodes[j], ec_node_type_lookup("many")) < 0 && errno == EINVAL), "check-type", "ec_node_check_type() is wrong");
			if (nt[j] >= T && nt[j] < T + NT) {
				p = ec_parse(nodes[j], "w");
				MC_CHECK(p != NULL && ec_pnode_matches(p) && (ec_pnode_get_strvec(p) ? (int)ec_strvec_len(ec_pnode_get_strvec(p)) : 0) == (nt[j]->parse == np1), "parse", "a node of type <%s> does not use the parser of its type", nt[j]->name);
				ec_pnode_free(p);
			}
			ec_node_free(nodes[j]);
		}
		mc_trans(k);
		mc_outcome(mc_h(MC_H0, cur, sizeof(cur)));
		ec_exit();
		leave();
	}
	mc_buf_free(&b);
	mc_end();
}
static int trun[3];
static int t0(void) { trun[0]++; return 0; }
static int t1(void) { trun[1]++; return -1; }
static int t2(void) { trun[2]++; return 0; }
static struct ec_test TT[] = { { .name = "tt", .test = t0 }, { .name = "tt", .test = t1 }, { .name = "uu", .test = t2 }, { .name = "tt2", .test = t1 }, { .name = "malloc", .test = t1 } };
static void test_history(const int *op, int n)
{
	int cur[5] = { 0 }, i, j, r;
	static const char *const nm[] = { "tt", "uu", "tt2", "none" };
	if (!mc_next()) return;
	mc_desc("tests:");
	for (i = 0; i < n; i++) mc_desc_add(" register(%s#%d)", TT[op[i]].name, op[i]);
	mc_nontrivial();
	if (in_child()) {
		if (ec_init() < 0) mc_fail("init", "ec_init() fails");
		for (i = 0; i < n; i++) {
			int dup = op[i] == 4;       /* the one of the library */
			for (j = 0; j < 5; j++) dup |= cur[j] && !strcmp(TT[j].name, TT[op[i]].name);
			errno = 0;
			r = ec_test_register(&TT[op[i]]);
			mc_trans(1);
			if (dup) MC_CHECK(r < 0, "test-duplicate", "a test registered twice is not refused (%d)", r);
			else { MC_CHECK(r == 0, "test-register", "registration is refused"); cur[op[i]] = 1; }
		}
		for (i = 0; i < 4; i++) {
			int want[3] = { 0 }, res = -1;
			memset(trun, 0, sizeof(trun));
			for (j = 0; j < 4; j++) if (cur[j] && !strcmp(TT[j].name, nm[i])) { want[TT[j].test == t0 ? 0 : TT[j].test == t1 ? 1 : 2] = 1; res = TT[j].test == t1 ? -1 : 0; }
			r = ec_test_one(nm[i]);
			mc_trans(1);
			MC_CHECK(r == res, "test-result", "test <%s> returns %d instead of %d", nm[i], r, res);
			MC_CHECK(!memcmp(want, trun, sizeof(want)), "test-run", "test <%s> does not run the function registered with this name once", nm[i]);
		}
		leave();
	}
	mc_end();
}
static void seqs(int nops, int max, void (*cb)(const int *, int))
{
	int op[8], n;
	for (n = 0; n <= max; n++) {
		memset(op, 0, sizeof(op));
		for (;;) {
			int i;
			cb(op, n);
			for (i = n - 1; i >= 0; i--) { if (++op[i] < nops) break; op[i] = 0; }
			if (i < 0) break;
		}
	}
}

/* ---- logs --------------------------------------------------------------------------------------- */
static struct { int type; enum ec_log_level level; void *opaque; char str[8000]; int n, handler; } got;
static int hret;
static int h_(int h, int type, enum ec_log_level level, void *opaque, const char *str)
{
	got.n++;
	got.handler = h;
	got.type = type;
	got.level = level;
	got.opaque = opaque;
	snprintf(got.str, sizeof(got.str), "%s", str);
	return hret;
}
static int h1(int t, enum ec_log_level l, void *o, const char *s) { return h_(1, t, l, o, s); }
static int h2(int t, enum ec_log_level l, void *o, const char *s) { return h_(2, t, l, o, s); }
static int vl(int type, enum ec_log_level level, const char *fmt, ...)
{
	va_list ap;
	int r;
	va_start(ap, fmt);
	r = ec_vlog(type, level, fmt, ap);
	va_end(ap);
	return r;
}
static char *er, *big;
static size_t erl;
static FILE *fe_, *real_stderr;
static const char *taken(void)
{
	static char t[16000];
	fflush(fe_);
	snprintf(t, sizeof(t), "%.*s", (int)erl, er ? er : "");
	rewind(fe_);
	fflush(fe_);
	return t;
}
static int my_level;              /* model */
static int my_h;
static void *my_op;
static int type_id[2];
static const char *const lt[] = { "my log", "log" };
static void log_one(int type, const char *tname, int level, int form)
{
	char want[8000];
	const char *out;
	int r, f, i;
	const char *hit;
	for (f = 0; f < 2; f++) {
		if (!f) taken();
		memset(&got, 0, offsetof(__typeof__(got), str));
		got.n = got.handler = 0;
		switch (form) {
		case 0: r = f ? vl(type, level, "msg") : ec_log(type, level, "msg"); strcpy(want, "msg"); break;
		case 1: r = f ? vl(type, level, "%d-%s-%c%%\n", -12, "ab", 'z') : ec_log(type, level, "%d-%s-%c%%\n", -12, "ab", 'z'); strcpy(want, "-12-ab-z%\n"); break;
		case 2: r = f ? vl(type, level, "%s", big) : ec_log(type, level, "%s", big); strcpy(want, big); break;
		case 3: r = f ? vl(type, level, "%s", "") : ec_log(type, level, "%s", ""); strcpy(want, ""); break;
		default: r = f ? vl(type, level, "%s", "%s%d") : ec_log(type, level, "%s", "%s%d"); strcpy(want, "%s%d"); break;
		}
		mc_trans(1);
		out = taken();
		if (my_h) {
			MC_CHECK(got.n == 1 && got.handler == my_h, "handler", "the handler %d is called %d times", my_h, got.handler == my_h ? got.n : 0);
			MC_CHECK(got.type == type && (int)got.level == level, "args", "type %d level %d received as type %d level %d", type, level, got.type, (int)got.level);
			MC_CHECK(got.opaque == my_op, "opaque", "wrong opaque pointer");
			MC_CHECK(!strcmp(got.str, want), "text", "message <%.100s> received as <%.100s>", want, got.str);
			MC_CHECK(r == hret, "ret", "the log function returns %d, the handler %d", r, hret);
			MC_CHECK(*out == 0, "stderr", "printed although a handler is registered: <%.100s>", out);
		} else {
			MC_CHECK(got.n == 0, "handler", "a handler that is not registered any more is called");
			MC_CHECK(r == 0, "ret", "the log function returns %d", r);
			if (level > my_level) { MC_CHECK(*out == 0, "filter", "message of level %d printed although the level is %d: <%.100s>", level, my_level, out); continue; }
			hit = strstr(out, want);
			MC_CHECK(hit != NULL, "printed", "message <%.100s> of level %d not printed although the level is %d: <%.100s>", want, level, my_level, out);
			if (*want) MC_CHECK(strstr(hit + 1, want) == NULL, "once", "message printed twice");
			for (i = 0; tname[i]; i++);
			if (!*want) hit = out + strlen(out);
			MC_CHECK(memmem(out, hit - out, tname, i) != NULL, "type-name", "the name of the type <%s> is not printed: <%.100s>", tname, out);
		}
	}
}
static int dummy[2];
static void log_op(int op)
{
	static const int lv[] = { 0, 3, 4, 7 };
	int r;
	switch (op) {
	case 0: case 1: case 2: case 3:
		r = ec_log_level_set(lv[op]);
		MC_CHECK(r == 0, "level-set", "level %d refused", lv[op]);
		my_level = lv[op];
		break;
	case 4: r = ec_log_level_set(8); MC_CHECK(r < 0, "level-set", "level 8 accepted"); break;
	case 5: r = ec_log_level_set(-1); MC_CHECK(r < 0, "level-set", "level -1 accepted"); break;
	case 6: case 7: case 8: case 9:
		r = ec_log_fct_register(op == 9 ? h2 : h1, op == 7 ? NULL : &dummy[op & 1]);
		MC_CHECK(r == 0, "fct-register", "handler refused");
		my_h = op == 9 ? 2 : 1;
		my_op = op == 7 ? NULL : &dummy[op & 1];
		hret = op == 8 ? -1 : 0;
		break;
	case 10: case 11:
		r = ec_log_fct_register(NULL, op == 10 ? NULL : &dummy[0]);
		MC_CHECK(r == 0, "fct-register", "NULL refused");
		my_h = 0;
		hret = 0;
		break;
	}
	mc_trans(1);
	MC_CHECK((int)ec_log_level_get() == my_level, "level-get", "level %d instead of %d", (int)ec_log_level_get(), my_level);
}
static void log_history(const int *op, int n)
{
	int i, l, t, f;
	static const int ls[] = { 0, 3, 4, 5, 7 };
	if (!mc_next()) return;
	mc_desc("log:");
	for (i = 0; i < n; i++) mc_desc_add(" %d", op[i]);
	mc_state(mc_h(MC_H0, op, n * sizeof(*op)));
	mc_nontrivial();
	fe_ = open_memstream(&er, &erl);
	real_stderr = stderr;
	stderr = fe_;
	ec_log_level_set(EC_LOG_WARNING);
	ec_log_fct_register(NULL, NULL);
	my_level = EC_LOG_WARNING; my_h = 0; hret = 0;
	for (i = 0; i < n; i++) log_op(op[i]);
	for (l = 0; l < 5; l++)
		for (t = 0; t < 4; t++)
			for (f = 0; f < (t == 0 ? 5 : 1); f++)
				log_one(t < 2 ? type_id[t] : t == 2 ? -1 : 12345, t < 2 ? lt[t] : "unknown", ls[l], f);
	mc_outcome(mc_hu(mc_hu(MC_H0, my_level), my_h * 4 + (my_op ? 1 : 0) + (hret ? 2 : 0)));
	stderr = real_stderr;
	fclose(fe_);
	free(er);
	er = NULL;
	mc_end();
}
/* log types: an identifier per name */
static void log_types(const int *op, int n)
{
	static const char *const nm[] = { "n1", "n2", "log", "", "n1 ", "a rather long name of log type, longer than others" };
	int id[6], i, j;
	char dup[100];
	if (!mc_next()) return;
	mc_desc("log types:");
	for (i = 0; i < n; i++) mc_desc_add(" <%s>", nm[op[i]]);
	mc_nontrivial();
	if (in_child()) {
		int reg = op[0] & 1;
		if (reg && tag_on() < 0) mc_fail("register", "ec_malloc_register() refused before ec_init()");
		if (n & 1) if (ec_init() < 0) mc_fail("init", "ec_init() fails");
		memset(id, -1, sizeof(id));
		for (i = 0; i < n; i++) {
			int r;
			snprintf(dup, sizeof(dup), "%s", nm[op[i]]);     /* the name is copied */
			r = ec_log_type_register(dup);
			memset(dup, 'Z', sizeof(dup) - 1);
			mc_trans(1);
			MC_CHECK(r >= 0, "type-register", "log type <%s> refused", nm[op[i]]);
			if (id[op[i]] >= 0) MC_CHECK(r == id[op[i]], "type-same", "log type <%s> has identifier %d, then %d", nm[op[i]], id[op[i]], r);
			id[op[i]] = r;
			for (j = 0; j < 6; j++) if (id[j] >= 0) {
				MC_CHECK(j == op[i] || id[j] != r, "type-distinct", "log types <%s> and <%s> have the same identifier", nm[j], nm[op[i]]);
				MC_CHECK(!strcmp(ec_log_name(id[j]), nm[j]), "type-name", "the name of log type <%s> is <%s>", nm[j], ec_log_name(id[j]));
			}
		}
		MC_CHECK(!strcmp(ec_log_name(-1), "unknown") && !strcmp(ec_log_name(100000), "unknown"), "type-unknown", "unknown identifiers have a name");
		for (j = 0; j < 4000 && strcmp(ec_log_name(j), "unknown"); j++);
		mc_outcome(mc_hu(MC_H0, j));
		leave();
	}
	mc_end();
}

/* ---- allocators ------------------------------------------------------------------------------------ */
static int others_used;
static void *o_malloc(size_t s, const char *f, unsigned l) { others_used++; return malloc(s); }
static void o_free(void *p, const char *f, unsigned l) { others_used++; free(p); }
static void *o_realloc(void *p, size_t s, const char *f, unsigned l) { others_used++; return realloc(p, s); }
static void alloc_history(const int *op, int n)
{
	int i, r, inited = 0, used = 0;     /* used: 0 libc, 1 tagged, 2 other */
	void *p;
	if (!mc_next()) return;
	mc_desc("allocators:");
	for (i = 0; i < n; i++) mc_desc_add(" %d", op[i]);
	mc_nontrivial();
	mc_state(mc_h(MC_H0, op, n * sizeof(*op)));
	if (in_child()) {
		for (i = 0; i < n; i++) {
			errno = 0;
			mc_trans(1);
			if (op[i] < 8) {
				int m = op[i];          /* which arguments are given */
				r = ec_malloc_register(m & 1 ? o_malloc : NULL, m & 2 ? o_free : NULL, m & 4 ? o_realloc : NULL);
				if (m != 7) MC_CHECK(r < 0 && errno == EINVAL, "null", "a NULL function is accepted (%d, errno %d)", r, errno);
				else if (inited) MC_CHECK(r < 0 && errno == EBUSY, "busy", "accepted after ec_init() (%d, errno %d)", r, errno);
				else { MC_CHECK(r == 0, "register", "refused before ec_init()"); used = 2; }
			} else if (op[i] == 8) {
				r = tag_on();
				if (inited) MC_CHECK(r < 0 && errno == EBUSY, "busy", "accepted after ec_init() (%d, errno %d)", r, errno);
				else { MC_CHECK(r == 0, "register", "refused before ec_init()"); used = 1; }
			} else if (op[i] == 9) {
				if (inited) continue;
				MC_CHECK(ec_init() == 0, "init", "ec_init() fails");
				inited = 1;
			}
			others_used = calls = 0;
			p = ec_malloc(10);
			MC_CHECK(p != NULL && (used != 1) == !mine(p) && !others_used == (used != 2), "used", "the allocator in use is not the one registered");
			p = ec_realloc(p, 100);
			ec_free(p);
			MC_CHECK((used == 2 ? 3 : 0) == others_used, "used", "the allocator in use is not the one registered");
			p = ec_strdup("abc");
			MC_CHECK((used != 1) == !mine(p), "used", "the allocator in use is not the one registered");
			ec_free(p);
		}
		mc_outcome(mc_hu(MC_H0, used * 2 + inited));
		leave();
	}
	mc_end();
}
/* the functions that allocate, with and without a registered allocator */
static void alloc_functions(void)
{
	static const size_t sz[] = { 0, 1, 2, 3, 7, 100, 65536, 0x7fffffff, 0x80000000ul, 0xffffffffu, 0x100000000ul, 0x100000001ul, 0x7fffffffffffffff, 0x8000000000000000ul, 0x8000000000000001ul, 0xffffffffffffffff };
	char s[8], *p, *q;
	size_t i, j, k, n;
	static const char al[] = { 'a', 'b', (char)0xe9, ' ' };
	for (int tagged = 0; tagged < 2; tagged++) {
		if (!mc_next()) continue;
		mc_desc("allocation functions%s", tagged ? ", registered allocator" : "");
		mc_nontrivial();
		if (in_child()) {
			if (tagged && tag_on() < 0) mc_fail("register", "refused");
			for (i = 0; tagged && i < 16; i++)
				for (j = 0; j < 16; j++) {
					size_t total;
					int ov = __builtin_mul_overflow(sz[i], sz[j], &total);
					mc_desc("ec_calloc(%zu, %zu)", sz[i], sz[j]);
					errno = 0;
					calls = 0;
					size_limit = 1 << 20;
					p = ec_calloc(sz[i], sz[j]);
					mc_trans(1);
					mc_state(mc_hu(mc_hu(MC_H0, sz[i]), sz[j]));
					if (ov) MC_CHECK(p == NULL && errno == ENOMEM, "calloc-overflow", "returns %s, errno %d", p ? "memory" : "NULL", errno);
					else if (total > (size_t)size_limit) MC_CHECK(p == NULL, "calloc-big", "?");
					else {
						MC_CHECK(p != NULL && calls == 1 && last_size == total && mine(p), "calloc", "%zu bytes requested instead of %zu", last_size, total);
						for (k = 0; k < total; k++) MC_CHECK(p[k] == 0, "calloc-zero", "byte %zu is not zero", k);
					}
					ec_free(p);
				}
			for (n = 0; n <= 5; n++) {
				unsigned c, tot = 1;
				for (i = 0; i < n; i++) tot *= 4;
				for (c = 0; c < tot; c++) {
					unsigned x = c;
					for (i = 0; i < n; i++, x /= 4) s[i] = al[x % 4];
					s[n] = 0;
					q = malloc(n + 1);          /* exact size: nothing can be read after */
					memcpy(q, s, n + 1);
					p = ec_strdup(q);
					mc_trans(1);
					MC_CHECK(p != NULL && !strcmp(p, s) && mine(p) == tagged, "strdup", "ec_strdup(%s) is wrong", s);
					ec_free(p);
					for (k = 0; k <= n + 2; k++) {
						char *e = malloc(k < n ? k : n + 1);
						memcpy(e, s, k < n ? k : n + 1);
						p = ec_strndup(e, k);
						mc_trans(1);
						MC_CHECK(p != NULL && !strncmp(p, s, k) && strlen(p) == (k < n ? k : n) && mine(p) == tagged, "strndup", "ec_strndup(%s, %zu) is wrong", s, k);
						ec_free(p);
						free(e);
					}
					MC_CHECK(ec_asprintf(&p, "<%s|%5d>", q, (int)c) == (int)n + 8 && !strncmp(p + 1, s, n) && mine(p) == tagged, "asprintf", "ec_asprintf(%s) is wrong", s);
					mc_trans(1);
					ec_free(p);
					free(q);
				}
			}
			for (k = 0; k < 612; k++) {
				static const size_t big[] = { 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537 };
				n = k < 600 ? k : big[k - 600];
				q = malloc(n + 1);
				memset(q, 'x', n);
				q[n] = 0;
				MC_CHECK(ec_asprintf(&p, "%s", q) == (int)n && !strcmp(p, q) && strlen(p) == n, "asprintf", "ec_asprintf() of %zu bytes is wrong", n);
				ec_free(p);
				MC_CHECK(vap(&p, "%d:%s%c", -7, q, 'z') == (int)n + 4 && !strncmp(p, "-7:", 3) && !strncmp(p + 3, q, n) && !strcmp(p + 3 + n, "z") && mine(p) == tagged,
					"vasprintf", "ec_vasprintf() of %zu bytes is wrong", n);
				ec_free(p);
				/* growth and shrink keep the content */
				p = ec_malloc_func(n + 1);
				MC_CHECK(p != NULL && mine(p) == tagged, "malloc-func", "ec_malloc_func() is wrong");
				memcpy(p, q, n + 1);
				p = ((void *(*)(void *, size_t))ec_realloc_func)(p, 2 * n + 5);
				MC_CHECK(p != NULL && !strcmp(p, q) && mine(p) == tagged, "realloc-func", "ec_realloc_func() is wrong");
				p = ec_realloc(p, n + 1);
				MC_CHECK(p != NULL && !strcmp(p, q) && mine(p) == tagged, "realloc", "ec_realloc() is wrong");
				ec_free_func(p);
				p = ec_realloc(NULL, n + 1);
				MC_CHECK(p != NULL && mine(p) == tagged, "realloc-null", "ec_realloc(NULL) is wrong");
				ec_free(p);
				free(q);
				mc_trans(6);
			}
			p = (char *)1;
			MC_CHECK(ec_asprintf(&p, "%lc", (wint_t)0x110000 + 5) < 0 && p == NULL, "asprintf-error", "an impossible conversion is not reported");
			ec_free(NULL);
			ec_free_func(NULL);
			MC_CHECK(live == 0, "leak", "%ld block(s) lost", live);
			MC_CHECK(!bad_origin, "origin", "the allocator is called without a file and a line");
			leave();
		}
		mc_end();
	}
	/* string helpers */
	if (mc_next()) {
		static const char a3[] = { 'a', 'b', (char)0xe9, 0 };
		static const char sp[] = { ' ', '\t', '\n', '\v', '\f', '\r', 'a', (char)0x85, (char)0xa0, 1 };
		mc_desc("string helpers");
		mc_nontrivial();
		for (i = 0; i < 256; i++)
			for (j = 0; j < 256; j++) {
				char x[5] = { a3[i & 3], a3[i >> 2 & 3], a3[i >> 4 & 3], a3[i >> 6], 0 }, y[5] = { a3[j & 3], a3[j >> 2 & 3], a3[j >> 4 & 3], a3[j >> 6], 0 };
				size_t c = 0, ly = strlen(y);
				while (x[c] && x[c] == y[c]) c++;
				MC_CHECK(ec_strcmp_count(x, y) == c, "strcmp-count", "ec_strcmp_count(%s, %s) is not %zu", x, y, c);
				MC_CHECK(!!ec_str_startswith(x, y) == !strncmp(x, y, ly), "startswith", "ec_str_startswith(%s, %s) is wrong", x, y);
				mc_trans(2);
			}
		for (i = 0; i < 11 * 11 * 11; i++) {
			char x[4] = { 0 };
			int v[3] = { i % 11, i / 11 % 11, i / 121 }, ok = 1, l = 0;
			for (j = 0; j < 3; j++) if (v[j]) { x[l++] = sp[v[j] - 1]; ok &= v[j] - 1 < 6; }
			MC_CHECK(ec_str_is_space(x) == !!ok, "is-space", "ec_str_is_space(%02x %02x %02x) is not %d", (unsigned char)x[0], (unsigned char)x[1], (unsigned char)x[2], ok);
			mc_trans(1);
		}
		mc_end();
	}
}

/* ---- every block goes through the registered allocator ------------------------------------------------ */
static struct ec_node *dyn_cb(struct ec_pnode *p, void *o) { return EC_NODE_SEQ("dyn", ec_node_str("d1", "a"), ec_node_option("d2", ec_node_str("d3", "b"))); }
static struct ec_node *wl_node(int i)
{
	struct ec_node *n;
	switch (i) {
	case 0: return ec_node_str("x", "a");
	case 1: return ec_node_any("x", "at");
	case 2: return ec_node("empty", "x");
	case 3: return ec_node("none", "x");
	case 4: return ec_node("space", "x");
	case 5: return ec_node_int("x", -5, 5, 0);
	case 6: return ec_node_uint("x", 0, 5, 10);
	case 7: return ec_node_re("x", "a+");
	case 8: return ec_node("file", "x");
	case 9: return ec_node_option("x", ec_node_str("y", "a"));
	case 10: return ec_node_once("x", ec_node_str("y", "a"));
	case 11: return ec_node_bypass("x", ec_node_str("y", "a"));
	case 12: return ec_node_many("x", ec_node_str("y", "a"), 0, 0);
	case 13: return EC_NODE_SEQ("x", ec_node_str("y", "a"), ec_node_any("z", NULL));
	case 14: return EC_NODE_OR("x", ec_node_str("y", "a"), ec_node_any("z", NULL), ec_node_str("t", "ab"));
	case 15: return EC_NODE_SUBSET("x", ec_node_str("y", "a"), ec_node_str("z", "b"), ec_node_str("t", "ab"));
	case 16: return ec_node_sh_lex("x", EC_NODE_SEQ("q", ec_node_str("y", "a"), ec_node_option("o", ec_node_str("z", "b c"))));
	case 17:
		n = ec_node_re_lex("x", ec_node_many("m", ec_node_any("w", "word"), 0, 0));
		if (n == NULL || ec_node_re_lex_add(n, "[a-z]+", 1, "word") < 0 || ec_node_re_lex_add(n, "[ ]+", 0, NULL) < 0) mc_bug("re_lex");
		return n;
	case 18: return EC_NODE_CMD("x", "a [b] (c|foo)*, y+", ec_node_str("foo", "f"), ec_node_any("y", NULL));
	case 19: return ec_node_cond("x", "or(cmp(eq, count(find(root(), y)), 1), and(bool(first_child(current())), cmp(eq, a, b)))", ec_node_str("y", "a"));
	case 20: return ec_node_dynamic("x", dyn_cb, NULL);
	case 21:
		n = ec_node("expr", "x");
		if (ec_node_expr_set_val_node(n, ec_node_str("v", "a")) < 0 || ec_node_expr_add_bin_op(n, ec_node_str("p", "+")) < 0 || ec_node_expr_add_pre_op(n, ec_node_str("n", "!")) < 0 ||
		    ec_node_expr_add_post_op(n, ec_node_str("q", "x")) < 0 || ec_node_expr_add_parenthesis(n, ec_node_str("o", "("), ec_node_str("c", ")")) < 0) mc_bug("expr");
		return n;
	case 22:
		n = ec_node("seq", "x");
		ec_node_seq_add(n, ec_node_str("y", "a"));
		ec_node_seq_add(n, ec_node_option("o", ec_node_clone(n)));
		return n;
	}
	return NULL;
}
#define NWL 23
static void wl_parse(struct ec_node *n)
{
	static const char *const in[] = { "", "a", "b", "a ", "a b", "'a' \"b c", "4", " ", "!a", "dir/", "dir/f", "./" };
	static const char *const words[] = { "a", "b", "+", "", "(", "f" };
	FILE *f = fopen("/dev/null", "w");
	for (size_t i = 0; i < sizeof(in) / sizeof(*in); i++) {
		struct ec_pnode *p = ec_parse(n, in[i]), *q;
		struct ec_comp *c = ec_complete(n, in[i]), *c2;
		if (p) { q = ec_pnode_dup(p); ec_pnode_dump(f, p); if (q) ec_pnode_free(EC_PNODE_GET_ROOT(q)); }
		if (c) { ec_comp_dump(f, c); c2 = ec_complete(n, in[i]); if (c2) ec_comp_merge(c, c2); }
		ec_pnode_free(p);
		ec_comp_free(c);
		mc_trans(4);
	}
	for (int i = 0; i < 6 * 6 * 6; i++) {
		const char *w[3] = { words[i % 6], words[i / 6 % 6], words[i / 36] };
		struct ec_strvec *v = ec_strvec_from_array(w, 3), *v2 = ec_strvec_ndup(v, 1, 2);
		struct ec_pnode *p = ec_parse_strvec(n, v);
		struct ec_comp *c = ec_complete_strvec(n, v2);
		ec_pnode_free(p);
		ec_comp_free(c);
		ec_strvec_free(v);
		ec_strvec_free(v2);
		mc_trans(2);
	}
	fclose(f);
}
static void wl_containers(void)
{
	struct ec_dict *d = ec_dict(), *d2;
	struct ec_htable *h = ec_htable(), *h2;
	struct ec_strvec *v = ec_strvec();
	struct ec_vec *ve = ec_vec(8, 0, NULL, NULL), *ve2;
	char k[16];
	FILE *f = fopen("/dev/null", "w");
	for (int i = 0; i < 200; i++) {
		snprintf(k, sizeof(k), "k%d", i);
		ec_dict_set(d, k, ec_strdup(k), ec_free_func);
		ec_htable_set(h, k, strlen(k), ec_strdup(k), ec_free_func);
		ec_strvec_add(v, k);
		ec_vec_add_u64(ve, i);
		if (i % 3 == 0) { ec_dict_del(d, k); ec_htable_del(h, k, strlen(k)); ec_strvec_del_last(v); }
		if (i % 5 == 0) ec_dict_set(d, k, NULL, NULL);
	}
	d2 = ec_dict_dup(d); h2 = ec_htable_dup(h); ve2 = ec_vec_dup(ve);
	ec_dict_dump(f, d); ec_htable_dump(f, h); ec_strvec_dump(f, v);
	ec_strvec_sort(v, NULL);
	ec_strvec_set(v, 0, "new");
	d2 ? ec_dict_free(d2) : 0; h2 ? ec_htable_free(h2) : 0; ec_vec_free(ve2);
	ec_dict_free(d); ec_htable_free(h); ec_strvec_free(v); ec_vec_free(ve);
	v = ec_strvec_sh_lex_str("a 'b c' \"d\" # e", EC_STRVEC_TRAILSP, NULL);
	ec_strvec_free(v);
	fclose(f);
	mc_trans(1000);
}
static void wl_yaml(void)
{
	static const char *const docs[] = {
		"type: seq\nid: x\nhelp: h\nchildren:\n- &s {type: str, id: c1, string: a}\n- {type: option, child: *s}\n- {type: int, min: -3, max: 10, base: 10}\n",
		"{type: re_lex, patterns: [{pattern: '[a-z]+', keep: true, attr: word}, {pattern: '[ ]+', keep: false}], child: {type: any, attr: word}}",
		"{type: cmd, expr: 'a [b] c1', children: [{type: bypass, id: c1, child: {type: str, string: b}}]}", "{type: zz}", "{type: str", "{type: or, children: [{type: str, string: a}, {}]}" };
	char fn[32];
	snprintf(fn, sizeof(fn), "d%d.yaml", (int)getpid());
	for (size_t i = 0; i < 6; i++) {
		FILE *f = fopen(fn, "w");
		fputs(docs[i], f);
		fclose(f);
		ec_node_free(ec_yaml_import(fn));
		mc_trans(1);
	}
	ec_node_free(ec_yaml_import("missing.yaml"));
	unlink(fn);
}
static void wl_edit(void)
{
	FILE *in = tmpfile(), *out = fopen("/dev/null", "w");
	struct ec_editline *e;
	struct ec_node *n = ec_node_sh_lex("lex", EC_NODE_SEQ("sq", ec_node_str("f", "foo"), EC_NODE_OR("or", ec_node_str("b", "bar"), ec_node_str("b2", "baz"), ec_node_any("y", "at"), ec_node("empty", "e"))));
	struct ec_editline_help *h = NULL;
	struct ec_comp *c;
	char *s, *l, **m;
	ssize_t k;
	char hist[32];
	snprintf(hist, sizeof(hist), "h%d", (int)getpid());
	fputs("foo bar\nfoo\n\nbad\n", in);
	rewind(in);
	ec_dict_set(ec_node_attrs(n), "help", ec_strdup("the help"), ec_free_func);
	e = ec_editline("mc", in, out, out, 0);
	if (e == NULL) mc_fail("editline", "ec_editline() fails");
	ec_editline_set_prompt(e, "p> ");
	ec_editline_set_prompt_esc(e, "q> ", 1);
	ec_editline_set_history(e, 10, hist);
	ec_editline_set_node(e, n);
	el_insertstr(ec_editline_get_el(e), "foo b");
	s = ec_editline_curline(e, true);
	MC_CHECK(s == NULL || mine(s), "curline", "the line does not come from the registered allocator");
	ec_free(s);
	c = ec_complete(n, "foo b");
	s = ec_editline_append_chars(c);
	MC_CHECK(s == NULL || mine(s), "append", "the string does not come from the registered allocator");
	ec_free(s);
	k = ec_editline_get_completions(c, &m);
	if (k >= 0) ec_editline_free_completions(m, k);
	ec_comp_free(c);
	k = ec_editline_get_helps(e, "foo ", "foo ", &h);
	if (k >= 0) { ec_editline_print_helps(e, h, k); ec_editline_free_helps(h, k); }
	k = ec_editline_get_suggestions(e, &h, &l, NULL);
	MC_CHECK(l == NULL || mine(l), "suggestions", "the line does not come from the registered allocator");
	if (k >= 0) ec_editline_free_helps(h, k);
	ec_free(l);
	ec_editline_complete(ec_editline_get_el(e), '?');
	ec_editline_complete(ec_editline_get_el(e), '\t');
	ec_editline_complete(ec_editline_get_el(e), '\t');
	s = ec_editline_gets(e);
	MC_CHECK(s == NULL || mine(s), "gets", "the line does not come from the registered allocator");
	ec_free(s);
	for (int i = 0; i < 4; i++) ec_pnode_free(ec_editline_parse(e, n));
	ec_editline_free(e);
	ec_node_free(n);
	fclose(in);
	fclose(out);
	unlink(hist);
	mc_trans(16);
}
static void wl_conf(void)
{
	struct ec_config *c = ec_config_dict(), *l = ec_config_list(), *d;
	FILE *f = fopen("/dev/null", "w");
	ec_config_list_add(l, ec_config_string("x"));
	ec_config_list_add(l, ec_config_node(ec_node_str("y", "a")));
	ec_config_list_add(l, ec_config_bool(true));
	ec_config_dict_set(c, "l", l);
	ec_config_dict_set(c, "u", ec_config_u64(7));
	ec_config_dict_set(c, "i", ec_config_i64(-7));
	ec_config_dict_set(c, "s", ec_config_string("txt"));
	ec_config_dict_set(c, "s", ec_config_string("other"));
	d = ec_config_dup(c);
	ec_config_list_del(ec_config_dict_get(c, "l"), ec_config_list_first(ec_config_dict_get(c, "l")));
	ec_config_dict_del(c, "u");
	ec_config_dump(f, c);
	ec_config_free(c);
	ec_config_free(d);
	fclose(f);
	mc_trans(15);
}
static void alloc_workloads(void)
{
	mkdir("dir", 0700);
	close(open("dir/f1", O_CREAT | O_WRONLY, 0600));
	for (int w = 0; w < NWL + 5; w++)
		for (int tagged = 0; tagged < 2; tagged++) {
			if (!mc_next()) continue;
			mc_desc("workload %d, %s", w, tagged ? "registered allocator" : "allocator of libc");
			mc_nontrivial();
			mc_state(mc_hu(mc_hu(MC_H0, w), tagged));
			if (in_child()) {
				if (tagged && tag_on() < 0) mc_fail("register", "refused");
				if (ec_init() < 0) mc_fail("init", "ec_init() fails");
				for (int k = 0; k < 2; k++) {
					long l0 = live;
					if (w < NWL) {
						struct ec_node *n = wl_node(w);
						FILE *f = fopen("/dev/null", "w");
						char *s;
						MC_CHECK(n != NULL, "build", "cannot build the node");
						s = ec_node_desc(n);
						MC_CHECK(s != NULL && (!tagged || mine(s)), "desc", "the description does not come from the registered allocator");
						ec_free(s);
						ec_node_dump(f, n);
						wl_parse(n);
						ec_node_free(n);
						fclose(f);
					} else switch (w - NWL) {
					case 0: wl_containers(); break;
					case 1: wl_yaml(); break;
					case 2: if (tagged) wl_edit(); break;
					case 3: wl_conf(); break;
					case 4: MC_CHECK(ec_log_type_register("some new type") >= 0 && ec_log_type_register("another one") >= 0, "log-type", "refused"); break;
					}
					MC_CHECK(live == l0, "leak", "%ld block(s) lost", live - l0);
				}
				ec_exit();
				MC_CHECK(live == 0, "exit-leak", "%ld block(s) of the registered allocator in use after ec_exit()", live);
				MC_CHECK(!bad_origin, "origin", "the allocator is called without a file and a line");
				leave();
			}
			mc_end();
		}
}

static void __attribute__((constructor)) conf(void) { mc_want_ec_init = 0; }
void mc_run(void)
{
	int n;
	big = malloc(5001);
	memset(big, 'x', 5000);
	big[5000] = 0;
	for (n = 0; n < 2; n++) type_id[n] = ec_log_type_register(lt[n]);
	inits();
	seqs(NT * 2, mc_thorough ? 4 : 3, type_history);
	seqs(5, mc_thorough ? 5 : 4, test_history);
	seqs(12, mc_thorough ? 4 : 3, log_history);
	seqs(6, mc_thorough ? 5 : 4, log_types);
	seqs(10, mc_thorough ? 4 : 3, alloc_history);
	alloc_functions();
	alloc_workloads();
}
