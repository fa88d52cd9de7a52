/* C17: completion of paths on real directories: every content out of a pool of entries, every typed path of a set,
 * file systems with and without entry types, system calls that fail. */
#include <ecoli.h>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <unistd.h>
#include <sys/stat.h>
#include "mc.h"

/* ---- the file system as seen by the library ------------------------------ */
static int no_dtype, opened, calls, fired;
static char fault;      /* l: lstat, o: opendir, r: readdir, s: fstatat */
static int fault_n, fault_errno;
static char fired_name[300];
static int hit(char c)
{
	if (fault != c || ++calls != fault_n) return 0;
	fired = 1;
	errno = fault_errno;
	return 1;
}
int __real_lstat(const char *p, struct stat *st);
int __wrap_lstat(const char *p, struct stat *st) { return hit('l') ? -1 : __real_lstat(p, st); }
DIR *__real_opendir(const char *p);
DIR *__wrap_opendir(const char *p)
{
	DIR *d;
	if (hit('o')) return NULL;
	d = __real_opendir(p);
	if (d != NULL) opened++;
	return d;
}
int __real_closedir(DIR *d);
int __wrap_closedir(DIR *d) { opened--; return __real_closedir(d); }
struct dirent *__real_readdir(DIR *d);
struct dirent *__wrap_readdir(DIR *d)
{
	struct dirent *e;
	if (hit('r')) return NULL;
	e = __real_readdir(d);
	if (e != NULL && no_dtype) e->d_type = DT_UNKNOWN;
	return e;
}
int __real_fstatat(int fd, const char *p, struct stat *st, int fl);
int __wrap_fstatat(int fd, const char *p, struct stat *st, int fl)
{
	if (hit('s')) { snprintf(fired_name, sizeof(fired_name), "%s", p); return -1; }
	return __real_fstatat(fd, p, st, fl);
}

/* ---- the model of the directories ---------------------------------------- */
struct ent { const char *name; char kind; const char *target; };  /* f file, d directory, l link, p fifo */
static const struct ent pool[] = {
	{ "a", 'f' }, { "ab", 'f' }, { "ad", 'd' }, { ".h", 'f' }, { ".hd", 'd' }, { "al", 'l', "../T" }, { "af", 'l', "../F" },
	{ "ax", 'l', "../none" }, { "b c", 'f' }, { "%s%n", 'f' }, { "ap", 'p' },
};
#define NPOOL 11
static const struct ent in_ad[] = { { "x", 'f' }, { "xy", 'd' }, { ".z", 'f' } };
static const struct ent in_T[] = { { "t1", 'f' }, { "t2", 'd' }, { "a", 'f' } };
static char base[PATH_MAX];            /* the scratch directory */
static char cwd[PATH_MAX + 8];
static int is_dir(const struct ent *e) { return e->kind == 'd' || (e->kind == 'l' && !strcmp(e->target, "../T")); }

static void cmd_rm(const char *p)
{
	struct stat st;
	if (__real_lstat(p, &st) < 0) return;
	if (S_ISDIR(st.st_mode)) {
		DIR *d = __real_opendir(p);
		struct dirent *e;
		char s[PATH_MAX + 300];
		while (d && (e = __real_readdir(d))) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			snprintf(s, sizeof(s), "%s/%s", p, e->d_name);
			cmd_rm(s);
		}
		if (d) __real_closedir(d);
		rmdir(p);
	} else
		unlink(p);
}
static void mk(const char *dir, const struct ent *e)
{
	char s[PATH_MAX + 300];
	int fd;
	snprintf(s, sizeof(s), "%s/%s", dir, e->name);
	if (e->kind == 'd') { if (mkdir(s, 0755) < 0) mc_bug("mkdir %s", s); }
	else if (e->kind == 'l') { if (symlink(e->target, s) < 0) mc_bug("symlink %s", s); }
	else if (e->kind == 'p') { if (mkfifo(s, 0644) < 0) mc_bug("mkfifo %s", s); }
	else { if ((fd = open(s, O_CREAT | O_WRONLY, 0644)) < 0) mc_bug("create %s", s); close(fd); }
}
static void setup(void)
{
	static int done;
	const char *sc = getenv("MC_SCRATCH");
	char s[PATH_MAX + 8];
	unsigned i;
	if (!done) {
		if (sc == NULL || sc[0] != '/') mc_bug("no scratch directory");
		snprintf(base, sizeof(base), "%s/fs-%d", sc, (int)getpid());
		cmd_rm(base);
		if (mkdir(base, 0755) < 0) mc_bug("mkdir %s", base);
		snprintf(s, sizeof(s), "%s/T", base);
		mk(base, &(struct ent){ "T", 'd' });
		for (i = 0; i < 3; i++) mk(s, &in_T[i]);
		mk(base, &(struct ent){ "F", 'f' });
		snprintf(cwd, sizeof(cwd), "%s/D", base);
		done = 1;
	}
	if (chdir(base) < 0) mc_bug("chdir");
	cmd_rm(cwd);
	if (mkdir(cwd, 0755) < 0 || chdir(cwd) < 0) mc_bug("chdir");
}
static void populate(int mask)
{
	char s[PATH_MAX + 16];
	unsigned i, j;
	setup();
	for (i = 0; i < NPOOL; i++)
		if (mask >> i & 1) {
			mk(cwd, &pool[i]);
			if (!strcmp(pool[i].name, "ad")) {
				snprintf(s, sizeof(s), "%s/ad", cwd);
				for (j = 0; j < 3; j++) mk(s, &in_ad[j]);
			}
		}
}

/* ---- expectations --------------------------------------------------------- */
struct exp { char type; char str[PATH_MAX + 600], disp[300], comp[300]; char name[300]; };
static struct exp ex[32];
static int nex;
static void expect_ent(const char *dir, const char *bn, const struct ent *e, int d)
{
	struct exp *x = &ex[nex];
	if (strncmp(e->name, bn, strlen(bn))) return;
	if (e->name[0] == '.' && bn[0] != '.') return;
	x->type = d ? 'P' : 'F';
	snprintf(x->str, sizeof(x->str), "%s%s%s", dir, e->name, d ? "/" : "");
	snprintf(x->disp, sizeof(x->disp), "%s%s", e->name, d ? "/" : "");
	snprintf(x->comp, sizeof(x->comp), "%s%s", e->name + strlen(bn), d ? "/" : "");
	snprintf(x->name, sizeof(x->name), "%s", e->name);
	nex++;
}
/* which: D the populated one, a: "ad", T: the target of the link, 0: not a directory */
static void expect(const char *dir, const char *bn, char which, int mask)
{
	static const struct ent dot[2] = { { ".", 'd' }, { "..", 'd' } };
	unsigned i;
	nex = 0;
	if (which == 0) return;
	for (i = 0; i < 2; i++) expect_ent(dir, bn, &dot[i], 1);
	if (which == 'D')
		for (i = 0; i < NPOOL; i++) { if (mask >> i & 1) expect_ent(dir, bn, &pool[i], is_dir(&pool[i])); }
	else
		for (i = 0; i < 3; i++) { const struct ent *e = which == 'a' ? &in_ad[i] : &in_T[i]; expect_ent(dir, bn, e, is_dir(e)); }
}
static const char *nz(const char *s) { return s ? s : "(null)"; }
/* every expected item exactly once and nothing else; `extra`: text of the other alternative of the grammar */
static void check_items(struct ec_comp *c, const struct ec_node *fnode, const char *input, int tolerant, const char *extra)
{
	struct ec_comp_item *it;
	int seen[32] = { 0 }, i, xs = 0;
	uint64_t h = MC_H0;
	EC_COMP_FOREACH(it, c, EC_COMP_ALL) {
		enum ec_comp_type t = ec_comp_item_get_type(it);
		const char *s = ec_comp_item_get_str(it), *d = ec_comp_item_get_display(it), *cp = ec_comp_item_get_completion(it);
		char tc = t == EC_COMP_FULL ? 'F' : t == EC_COMP_PARTIAL ? 'P' : 'U';
		if (ec_comp_group_get_node(ec_comp_item_get_grp(it)) != fnode) {
			MC_CHECK(extra != NULL && s != NULL && !strcmp(s, extra), "other", "unexpected item %s", nz(s));
			xs++;
			continue;
		}
		MC_CHECK(tc != 'U', "unknown", "item of unknown text");
		for (i = 0; i < nex; i++)
			if (!seen[i] && !strcmp(nz(s), ex[i].str) && ex[i].type == tc) break;
		if (i == nex && tolerant == 's' && tc == 'F')     /* an entry that cannot be examined */
			for (i = 0; i < nex; i++)
				if (!seen[i] && !strcmp(ex[i].name, fired_name) && !strncmp(nz(s), ex[i].str, strlen(ex[i].str) - 1)) goto next;
		MC_CHECK(i < nex, "wrong", "item %s (%c, shown as %s) is not expected", nz(s), tc, nz(d));
		MC_CHECK(!strcmp(nz(d), ex[i].disp), "display", "item %s is shown as \"%s\" instead of \"%s\"", nz(s), nz(d), ex[i].disp);
		MC_CHECK(!strcmp(nz(cp), ex[i].comp), "comp", "item %s adds \"%s\" instead of \"%s\"", nz(s), nz(cp), ex[i].comp);
		MC_CHECK(!strncmp(s, input, strlen(input)), "extends", "item %s does not extend %s", nz(s), input);
	next:
		seen[i] = 1;
		h += mc_hs(mc_hu(MC_H0, tc), d);
	}
	for (i = 0; i < nex; i++)
		MC_CHECK(seen[i] || tolerant == 'r' || (tolerant == 's' && !strcmp(ex[i].name, fired_name)), "missing", "%s is not proposed", ex[i].str);
	MC_CHECK(xs == (extra != NULL), "other-missing", "the other alternative %s is proposed %d times", extra, xs);
	mc_outcome(h);
}
static int lowest_fd(void) { int fd = open("/dev/null", O_RDONLY); if (fd >= 0) close(fd); return fd; }
static struct ec_node *gfile, *gor, *gorfile, *gseq, *gseqfile;
static void one(const char *dir, const char *bn, char which, int mask, char flt, int fn, int fe)
{
	char *input;
	struct ec_strvec *v = ec_strvec();
	struct ec_comp *c;
	int fd = lowest_fd(), g;
	if (asprintf(&input, "%s%s", dir, bn) < 0) mc_bug("asprintf");
	for (g = 0; g < (flt ? 1 : 3); g++) {
		const struct ec_node *root = g == 0 ? gfile : g == 1 ? gor : gseq;
		const char *extra = g == 1 && !strncmp("ad/q", input, strlen(input)) ? "ad/q" : NULL;
		expect(dir, bn, which, mask);
		fault = flt; fault_n = fn; fault_errno = fe; calls = fired = 0; fired_name[0] = 0;
		mc_desc("content %03x%s, completion of \"%.200s\"%s", mask, no_dtype ? " (no entry types)" : "", input, g == 1 ? " (or)" : g == 2 ? " (seq)" : "");
		if (flt) mc_desc_add(", call %d of %s fails with %s", fn, flt == 'l' ? "lstat" : flt == 'o' ? "opendir" : flt == 'r' ? "readdir" : "fstatat", strerror(fe));
		if (ec_strvec_add(v, g == 2 ? "cmd" : input) < 0 || (g == 2 && ec_strvec_add(v, input) < 0)) mc_bug("strvec");
		c = ec_complete_strvec(root, v);
		mc_trans(1);
		fault = 0;
		if (fired && (flt == 'l' || flt == 'o')) nex = 0;
		if (!(fired && flt == 'r'))
			MC_CHECK(c != NULL, "error", "the completion fails with %s", strerror(errno));
		if (c != NULL)
			check_items(c, g == 0 ? gfile : g == 1 ? gorfile : gseqfile, input, fired ? flt : 0, extra);
		MC_CHECK(opened == 0, "dir-leak", "%d directories are left open", opened);
		MC_CHECK(lowest_fd() == fd, "fd-leak", "a file descriptor is left open");
		ec_comp_free(c);
		while (ec_strvec_len(v)) ec_strvec_del_last(v);
		if (flt && !fired) { ec_strvec_free(v); free(input); calls = -1; return; }
	}
	if (!flt) {
		struct ec_pnode *p;
		ec_strvec_add(v, input);
		p = ec_parse_strvec(gfile, v);
		MC_CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == 1, "parse", "\"%s\" is not matched", input);
		ec_pnode_free(p);
		ec_strvec_add(v, "");
		p = ec_parse_strvec(gfile, v);
		MC_CHECK(p != NULL && ec_pnode_matches(p) && ec_pnode_len(p) == 1, "parse2", "the first of two strings is not matched");
		ec_pnode_free(p);
		c = ec_complete_strvec(gfile, v);
		MC_CHECK(c != NULL && ec_comp_count(c, EC_COMP_ALL) == 0, "complete2", "completion after the path was given");
		ec_comp_free(c);
		mc_trans(3);
	}
	mc_state(mc_hu(mc_hs(MC_H0, input), mask * 4 + no_dtype));
	if (nex) mc_nontrivial();
	ec_strvec_free(v);
	free(input);
}
static const char *bases[] = { "", "a", "ab", "ad", "al", "ax", ".", "..", ".h", ".hd", "...", "b", "b ", "b c", "%", "%s%n", "A", "z", "x", "t", "ap", "af" };
#define NB 22
static const char *dirs[] = { "", "./", ".//", "@/", "../D/", "ad/", "ad/../", "./ad//", "al/", "@/al/", "ax/", "a/", "af/", "ap/", "missing/", "missing/a/", "../T/" };
#define ND 17
static char which_dir(const char *d, int mask)
{
	if (!strcmp(d, "") || !strcmp(d, "./") || !strcmp(d, ".//") || !strcmp(d, "@/") || !strcmp(d, "../D/")) return 'D';
	if (!strcmp(d, "ad/") || !strcmp(d, "./ad//")) return mask & 4 ? 'a' : 0;
	if (!strcmp(d, "ad/../")) return mask & 4 ? 'D' : 0;
	if (!strcmp(d, "al/") || !strcmp(d, "@/al/")) return mask & 32 ? 'T' : 0;
	if (!strcmp(d, "../T/")) return 'T';
	return 0;
}
static void real_dir(char *out, size_t n, const char *d)
{
	if (d[0] == '@') snprintf(out, n, "%s%s", cwd, d + 1);
	else snprintf(out, n, "%s", d);
}
void mc_run(void)
{
	char dir[PATH_MAX + 300];
	int mask, d, b, k, t;
	gfile = ec_node("file", "f");
	gorfile = ec_node("file", "f2");
	gor = EC_NODE_OR("o", gorfile, ec_node_str("s", "ad/q"));
	gseqfile = ec_node("file", "f3");
	gseq = EC_NODE_SEQ("q", ec_node_str("c", "cmd"), gseqfile);
	if (!gfile || !gor || !gseq) mc_bug("nodes");
	/* every content, every typed path */
	for (mask = 0; mask < 1 << NPOOL; mask++) {
		if (!mc_next()) continue;
		populate(mask);
		for (no_dtype = 0; no_dtype < 2; no_dtype++)
			for (d = 0; d < ND; d++)
				for (b = 0; b < NB; b++) {
					real_dir(dir, sizeof(dir), dirs[d]);
					one(dir, bases[b], which_dir(dirs[d], mask), mask, 0, 0, 0);
				}
		no_dtype = 0;
		mc_end();
	}
	/* a system call fails */
	for (k = 0; k < (mc_thorough ? 1 << NPOOL : 256); k++) {
		static const int errs[] = { EACCES, ENOENT, ENOTDIR };
		static const char *fb[] = { "", "a", ".", "ad" };
		if (!mc_next()) continue;
		mask = mc_thorough ? k : (k & 0xff) | (k & 1 ? 0x600 : 0x100);
		populate(mask);
		for (no_dtype = 0; no_dtype < 2; no_dtype++)
			for (d = 0; d < 9; d++)
				for (b = 0; b < 4; b++) {
					char w = which_dir(dirs[d], mask);
					real_dir(dir, sizeof(dir), dirs[d]);
					for (t = 0; t < 3; t++) {
						one(dir, fb[b], w, mask, 'l', 1, errs[t]);
						one(dir, fb[b], w, mask, 'o', 1, errs[t]);
					}
					for (t = 1; t < 20; t++) { one(dir, fb[b], w, mask, 'r', t, EIO); if (calls < 0) break; }
					for (t = 1; t < 20; t++) { one(dir, fb[b], w, mask, 's', t, ENOENT); if (calls < 0) break; }
				}
		no_dtype = 0;
		mc_end();
	}
	/* long names and paths */
	for (k = 1; k <= 255; k++) {
		char nm[256], in[256];
		struct ent e = { nm, k & 1 ? 'f' : 'd' };
		if (!mc_next()) continue;
		setup();
		memset(nm, 'n', k); nm[k] = 0;
		if (k == 1) nm[0] = 'n';
		mk(cwd, &e);
		for (t = 0; t <= k; t += t < 4 || t > k - 4 ? 1 : k / 8 + 1) {
			struct ec_comp *c;
			memcpy(in, nm, t); in[t] = 0;
			nex = 0;
			expect_ent("", in, &e, e.kind == 'd');
			mc_desc("name of %d characters, %d typed", k, t);
			c = ec_complete(gfile, in);
			MC_CHECK(c != NULL, "error", "the completion fails with %s", strerror(errno));
			check_items(c, gfile, in, 0, NULL);
			ec_comp_free(c);
			mc_trans(1);
		}
		mc_end();
	}
	for (k = 1; k <= 4200; k += k < 16 || (k > 2030 && k < 2060) || k > 4190 ? 1 : 97) {
		char *s;
		if (!mc_next()) continue;
		populate(7);
		s = malloc(2 * k + 8);
		s[0] = 0;
		for (t = 0; t < k; t++) memcpy(s + 2 * t, "./", 3);
		one(s, "a", 2 * k < PATH_MAX ? 'D' : 0, 7, 0, 0, 0);
		free(s);
		mc_end();
	}
	mc_desc("end");
	ec_node_free(gfile);
	ec_node_free(gor);
	ec_node_free(gseq);
	if (base[0]) { if (chdir("/") < 0) mc_bug("chdir"); cmd_rm(base); }
}
