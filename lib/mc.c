#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <ecoli_init.h>
#include <ecoli_log.h>
#include <ecoli_malloc.h>

#include "mc.h"

#define MAXW 64
#define DESC_SZ 6000
#define NSAMPLES 24
#define SAMPLE_SZ 1200
#define MAXKNOWN 256

int mc_thorough;
int mc_verbose;
int mc_want_ec_init = 1;
int mc_no_leak_check;
int mc_case_timeout = 30;

enum { V_NONE = 0, V_FAIL = 1 };

struct slot {
	_Atomic long cur;              /* case being executed, -1 when idle */
	_Atomic long beat;             /* progress */
	_Atomic long total;            /* size of the space once finished */
	_Atomic int done;
	int in_case;
	int viol;
	char sig[256];
	char msg[DESC_SZ];
	char desc[DESC_SZ];
	uint64_t evals, trans, nontrivial;
};

struct shared {
	struct slot w[MAXW];
	_Atomic uint64_t nstates, noutcomes, states_full;
	_Atomic int nsamples;
	char samples[NSAMPLES][SAMPLE_SZ];
	_Atomic uint64_t known_hits[MAXKNOWN];
	char known_example[MAXKNOWN][512];
};

static struct shared *sh;
static _Atomic uint64_t *states, *outcomes;
static uint64_t states_mask, outcomes_mask;

static struct slot *me;
static long idx = -1, only = -1, from = 0, upto = -1;
static int shard, nshards = 1;
static char *known[MAXKNOWN];
static int nknown;
static FILE *logf_;

/* ---- allocator --------------------------------------------------------- */
long mc_live, mc_allocs, mc_fail_at, mc_failed;
int mc_fail_all;
const char *mc_fail_file;
unsigned mc_fail_line;

struct trk { void *p; const char *file; unsigned line; long seq; struct trk *next; };
static long trk_seq, trk_mark;
void mc_track_mark(void) { trk_mark = trk_seq; }
#define TRKB 4096
static struct trk *trk[TRKB];
static int tracking;

void mc_track(int on) { tracking = on; }
static unsigned trkh(void *p) { return ((uintptr_t)p >> 4) % TRKB; }
static void trk_add(void *p, const char *file, unsigned line)
{
	struct trk *t;
	if (!tracking || p == NULL) return;
	t = malloc(sizeof(*t));
	t->p = p; t->file = file; t->line = line; t->seq = ++trk_seq; t->next = trk[trkh(p)];
	trk[trkh(p)] = t;
}
static void trk_del(void *p)
{
	struct trk **pt, *t;
	if (!tracking || p == NULL) return;
	for (pt = &trk[trkh(p)]; (t = *pt) != NULL; pt = &t->next)
		if (t->p == p) { *pt = t->next; free(t); return; }
}
void mc_track_dump(FILE *f)
{
	int i, n = 0;
	for (i = 0; i < TRKB; i++)
		for (struct trk *t = trk[i]; t != NULL; t = t->next)
			if (t->seq > trk_mark && n++ < 20)
				fprintf(f, "  still allocated: %s:%u\n", t->file, t->line);
}

static bool inject(const char *file, unsigned line)
{
	mc_allocs++;
	if (mc_fail_at == 0)
		return false;
	if (mc_allocs == mc_fail_at || (mc_fail_all && mc_allocs > mc_fail_at)) {
		if (mc_failed++ == 0) { mc_fail_file = file; mc_fail_line = line; }
		errno = ENOMEM;
		return true;
	}
	return false;
}
static void *my_malloc(size_t size, const char *file, unsigned line)
{
	void *p;
	if (inject(file, line)) return NULL;
	p = malloc(size);
	if (p != NULL) { mc_live++; trk_add(p, file, line); }
	return p;
}
static void my_free(void *p, const char *file, unsigned line)
{
	(void)file; (void)line;
	if (p == NULL) return;
	mc_live--; trk_del(p);
	free(p);
}
static void *my_realloc(void *p, size_t size, const char *file, unsigned line)
{
	void *q;
	if (inject(file, line)) return NULL;
	trk_del(p);
	q = realloc(p, size);
	if (q == NULL) { trk_add(p, file, line); return NULL; }
	if (p == NULL) mc_live++;
	trk_add(q, file, line);
	return q;
}
static int my_log(int type, enum ec_log_level level, void *opaque, const char *str)
{
	(void)type; (void)level; (void)opaque;
	if (mc_verbose > 1) fprintf(stderr, "[log] %s", str);
	return 0;
}

/* ---- text buffers ------------------------------------------------------ */
void mc_buf_reset(struct mc_buf *b)
{
	b->len = 0;
	if (b->s) b->s[0] = 0;
	else mc_buf_add(b, "%s", "");
}
void mc_buf_add(struct mc_buf *b, const char *fmt, ...)
{
	va_list ap;
	int n;
	if (b->cap - b->len < 256) {
		b->cap = b->cap * 2 + 1024;
		b->s = realloc(b->s, b->cap);
	}
	va_start(ap, fmt);
	n = vsnprintf(b->s + b->len, b->cap - b->len, fmt, ap);
	va_end(ap);
	if (n < 0) mc_bug("vsnprintf");
	if ((size_t)n >= b->cap - b->len) {
		b->cap = b->cap + n + 1024;
		b->s = realloc(b->s, b->cap);
		va_start(ap, fmt);
		vsnprintf(b->s + b->len, b->cap - b->len, fmt, ap);
		va_end(ap);
	}
	b->len += n;
}
void mc_buf_str(struct mc_buf *b, const char *s)
{
	if (s == NULL) { mc_buf_add(b, "(null)"); return; }
	mc_buf_add(b, "\"");
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') mc_buf_add(b, "\\%c", c);
		else if (c == '\n') mc_buf_add(b, "\\n");
		else if (c == '\t') mc_buf_add(b, "\\t");
		else if (c < 32 || c > 126) mc_buf_add(b, "\\x%02x", c);
		else mc_buf_add(b, "%c", c);
	}
	mc_buf_add(b, "\"");
}
void mc_buf_free(struct mc_buf *b) { free(b->s); memset(b, 0, sizeof(*b)); }

/* ---- case control ------------------------------------------------------ */
static long live0;

bool mc_next(void)
{
	if (me->in_case) mc_bug("mc_next inside a case");
	idx++;
	if (only >= 0) {
		if (idx != only) return false;
	} else {
		if (idx % nshards != shard || idx < from) return false;
		if (upto >= 0 && idx > upto) return false;
	}
	atomic_store(&me->cur, idx);
	atomic_fetch_add(&me->beat, 1);
	me->in_case = 1;
	me->desc[0] = 0;
	live0 = mc_live;
	mc_allocs = mc_failed = mc_fail_at = 0; mc_fail_all = 0;
	mc_no_leak_check = 0;
	return true;
}
void mc_desc(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(me->desc, DESC_SZ, fmt, ap);
	va_end(ap);
}
void mc_desc_add(const char *fmt, ...)
{
	size_t l = strlen(me->desc);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(me->desc + l, DESC_SZ - l, fmt, ap);
	va_end(ap);
}
static void sample(void)
{
	long n = idx;
	/* spread the samples: 0..3, then powers of 7 */
	if (n > 3) {
		while (n % 7 == 0) n /= 7;
		if (n != 1) return;
	}
	int k = atomic_fetch_add(&sh->nsamples, 1);
	if (k >= NSAMPLES) return;
	snprintf(sh->samples[k], SAMPLE_SZ, "case %ld: %s", idx, me->desc);
}
void mc_end(void)
{
	if (!me->in_case) mc_bug("mc_end outside a case");
	mc_fail_at = 0;
	if (!mc_no_leak_check && mc_live != live0) {
		long d = mc_live - live0;
		mc_live = live0;
		if (tracking) mc_track_dump(stderr);
		mc_fail("leak", "%ld block(s) of library memory still allocated at the end of the case", d);
	}
	me->evals++;
	sample();
	if (mc_verbose) fprintf(stderr, "case %ld: %s: OK\n", idx, me->desc);
	me->in_case = 0;
	atomic_fetch_add(&me->beat, 1);
}
void mc_fail(const char *sig, const char *fmt, ...)
{
	va_list ap;
	for (int i = 0; i < nknown; i++) {
		if (!strcmp(known[i], sig)) {
			if (atomic_fetch_add(&sh->known_hits[i], 1) == 0)
				snprintf(sh->known_example[i], 512, "%s", me->desc);
			return;
		}
	}
	snprintf(me->sig, sizeof(me->sig), "%s", sig);
	va_start(ap, fmt);
	vsnprintf(me->msg, DESC_SZ, fmt, ap);
	va_end(ap);
	me->viol = V_FAIL;
	if (mc_verbose)
		fprintf(stderr, "case %ld: %s\nMISMATCH [%s]: %s\n", idx, me->desc, me->sig, me->msg);
	fflush(NULL);
	_exit(3);
}
void mc_bug(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "MACHINERY ERROR (case %ld %s): ", idx, me ? me->desc : "");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
	fflush(NULL);
	_exit(70);
}

static int table_add(_Atomic uint64_t *t, uint64_t mask, uint64_t f)
{
	uint64_t i, n;
	if (f == 0) f = 1;
	f *= 0x9e3779b97f4a7c15ull;
	f ^= f >> 32;
	if (f == 0) f = 1;
	for (i = f & mask, n = 0; n < 4096; i = (i + 1) & mask, n++) {
		uint64_t v = atomic_load_explicit(&t[i], memory_order_relaxed);
		if (v == f) return 0;
		if (v == 0) {
			uint64_t z = 0;
			if (atomic_compare_exchange_strong(&t[i], &z, f)) return 1;
			if (z == f) return 0;
		}
	}
	return -1;
}
void mc_state(uint64_t f)
{
	int r = table_add(states, states_mask, f);
	if (r > 0) atomic_fetch_add(&sh->nstates, 1);
	else if (r < 0) atomic_fetch_add(&sh->states_full, 1);
}
void mc_outcome(uint64_t f)
{
	if (table_add(outcomes, outcomes_mask, f) > 0)
		atomic_fetch_add(&sh->noutcomes, 1);
}
void mc_trans(uint64_t n) { me->trans += n; }
void mc_nontrivial(void) { me->nontrivial++; }

/* ---- driver ------------------------------------------------------------ */
static const char *outdir = ".";

static void worker(int s, long f, long u, long o)
{
	char path[4096];
	int fd;

	shard = s; from = f; upto = u; only = o;
	me = &sh->w[s];
	me->in_case = 0; me->viol = 0;
	atomic_store(&me->done, 0);
	if (!mc_verbose) {
		snprintf(path, sizeof(path), "%s/worker-%d.err", outdir, s);
		fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd < 0) _exit(71);
		dup2(fd, 2);
		close(fd);
	}
	if (mc_verbose) mc_track(1);
	ec_log_fct_register(my_log, NULL);
	if (mc_want_ec_init) {
		if (ec_malloc_register(my_malloc, my_free, my_realloc) < 0)
			mc_bug("ec_malloc_register");
		if (ec_init() < 0)
			mc_fail("ec_init", "ec_init() fails");
	}
	idx = -1;
	mc_run();
	atomic_store(&me->cur, -1);
	atomic_store(&me->total, idx + 1);
	me->desc[0] = 0;
	if (mc_want_ec_init)
		ec_exit();
	atomic_store(&me->done, 1);
	exit(0);
}

static double now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}

static pid_t spawn(int s, long f, long u, long o)
{
	pid_t p;
	fflush(NULL);
	p = fork();
	if (p < 0) { perror("fork"); exit(72); }
	if (p == 0) {
		setpgid(0, 0);
		worker(s, f, u, o);
	}
	setpgid(p, p);
	return p;
}

/* memory of a process, in MB */
static long rss(pid_t p)
{
	char path[64], buf[128];
	long sz, r = 0;
	ssize_t n;
	int fd;
	snprintf(path, sizeof(path), "/proc/%d/statm", (int)p);
	fd = open(path, O_RDONLY);
	if (fd < 0) return 0;
	n = read(fd, buf, sizeof(buf) - 1);
	close(fd);
	if (n <= 0) return 0;
	buf[n] = 0;
	if (sscanf(buf, "%ld %ld", &sz, &r) != 2) return 0;
	return r / 256;
}
#define MAXRSS 3000

/* run one worker alone; returns 0 ok, 1 violation, 2 machinery error */
static int run_alone(int s, long f, long u, long o, double limit, int *hang, int *status)
{
	pid_t p = spawn(s, f, u, o);
	double t0 = now();
	long beat = -1;
	*hang = 0;
	for (;;) {
		pid_t r = waitpid(p, status, WNOHANG);
		if (r == p) break;
		long b = atomic_load(&sh->w[s].beat);
		if (b != beat) { beat = b; t0 = now(); }
		if (now() - t0 > limit) {
			kill(-p, SIGKILL); kill(p, SIGKILL);
			waitpid(p, status, 0);
			*hang = 1;
			return 1;
		}
		if (rss(p) > MAXRSS) {
			kill(-p, SIGKILL); kill(p, SIGKILL);
			waitpid(p, status, 0);
			return 1;
		}
		usleep(2000);
	}
	if (WIFEXITED(*status) && WEXITSTATUS(*status) == 0) return 0;
	if (WIFEXITED(*status) && WEXITSTATUS(*status) >= 70 && WEXITSTATUS(*status) <= 75) return 2;
	return 1;
}

static void json(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

int main(int argc, char **argv)
{
	int i, nw = 8, rc = 0, replay_shard = -1;
	long replay = -1, r_upto = -1;
	double t0 = now();
	const char *out = NULL;
	size_t nst = 1ul << 23, nout = 1ul << 20;
	pid_t pid[MAXW];
	double last[MAXW];
	long beat[MAXW];
	int running = 0, machinery = 0;
	int vfound = 0;
	long vidx = -1, tick;
	char vsig[256] = "", vkind[64] = "", vreplay[256] = "";
	static char vmsg[DESC_SZ], vdesc[DESC_SZ];

	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
		else if (!strcmp(argv[i], "-v")) mc_verbose++;
		else if (!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--case")) replay = atol(argv[++i]);
		else if (!strcmp(argv[i], "--shard")) replay_shard = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--upto")) r_upto = atol(argv[++i]);
		else if (!strcmp(argv[i], "--json")) out = argv[++i];
		else if (!strcmp(argv[i], "--outdir")) outdir = argv[++i];
		else if (!strcmp(argv[i], "--known")) {
			char line[256];
			FILE *f = fopen(argv[++i], "r");
			if (f == NULL) { perror("known"); return 73; }
			while (fgets(line, sizeof(line), f) && nknown < MAXKNOWN) {
				line[strcspn(line, "\n")] = 0;
				if (line[0]) known[nknown++] = strdup(line);
			}
			fclose(f);
		} else { fprintf(stderr, "bad option %s\n", argv[i]); return 74; }
	}
	if (nw < 1 || nw > MAXW) nw = 8;
	nshards = nw;
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (mc_thorough) nst = 1ul << 26;
	states = mmap(NULL, nst * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	outcomes = mmap(NULL, nout * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || states == MAP_FAILED || outcomes == MAP_FAILED) { perror("mmap"); return 73; }
	states_mask = nst - 1;
	outcomes_mask = nout - 1;

	if (replay >= 0 || replay_shard >= 0) {
		int hang, st, r;
		if (mc_verbose == 0) mc_verbose = 1;
		if (replay_shard >= 0) mc_verbose = 0;
		r = run_alone(replay_shard >= 0 ? replay_shard : 0, 0, r_upto,
			replay_shard >= 0 ? -1 : replay, mc_case_timeout * 3, &hang, &st);
		if (r) {
			struct slot *w = &sh->w[replay_shard >= 0 ? replay_shard : 0];
			printf("case %ld: %s\n%s: [%s] %s (status 0x%x)\n", atomic_load(&w->cur),
				w->desc, hang ? "HANG" : w->viol ? "MISMATCH" : "CRASH", w->sig, w->msg, st);
		} else printf("reproduced nothing\n");
		return r;
	}

	for (i = 0; i < nw; i++) {
		pid[i] = spawn(i, 0, -1, -1);
		last[i] = now(); beat[i] = -1;
		running++;
	}
	for (tick = 0; running > 0; tick++) {
		int st;
		for (i = 0; i < nw; i++) {
			long c;
			const char *kind = NULL;
			int hang = 0, st2 = 0, r;
			if (pid[i] <= 0) continue;
			pid_t p = waitpid(pid[i], &st, WNOHANG);
			if (p == 0) {
				long b = atomic_load(&sh->w[i].beat);
				long mem = tick % 8 == 0 ? rss(pid[i]) : 0;
				if (b != beat[i] && mem <= MAXRSS) { beat[i] = b; last[i] = now(); continue; }
				if (now() - last[i] < mc_case_timeout && mem <= MAXRSS) continue;
				kill(-pid[i], SIGKILL); kill(pid[i], SIGKILL);
				waitpid(pid[i], &st, 0);
				kind = mem > MAXRSS ? "memory" : "hang";
			} else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && atomic_load(&sh->w[i].done)) {
				pid[i] = 0; running--;
				continue;
			} else if (WIFEXITED(st) && WEXITSTATUS(st) >= 70 && WEXITSTATUS(st) <= 75) {
				machinery = WEXITSTATUS(st);
				pid[i] = 0; running--;
				continue;
			} else
				kind = sh->w[i].viol ? "mismatch" : "crash";
			pid[i] = 0; running--;
			c = atomic_load(&sh->w[i].cur);
			/* a lower case index found a violation already: skip */
			if (vfound && c >= vidx && vidx >= 0) continue;
			struct slot saved = sh->w[i];
			/* replay before reporting */
			r = 0;
			if (c >= 0) r = run_alone(i, 0, -1, c, mc_case_timeout * 3, &hang, &st2);
			if (r == 1) {
				snprintf(vreplay, sizeof(vreplay), "--case %ld", c);
				if (!strcmp(kind, "hang") && !hang) kind = sh->w[i].viol ? "mismatch" : "crash";
			} else if (strcmp(kind, "hang")) {
				/* depends on what this worker executed before */
				r = run_alone(i, 0, c, -1, mc_case_timeout * 3, &hang, &st2);
				if (r == 1)
					snprintf(vreplay, sizeof(vreplay), "--workers %d --shard %d --upto %ld", nw, i, c);
			} else {
				/* only slow: go on from there */
				sh->w[i] = saved;
				pid[i] = spawn(i, c, -1, -1);
				last[i] = now(); beat[i] = -1; running++;
				continue;
			}
			if (r == 1) {
				struct slot *w = &sh->w[i];
				vfound = 1; vidx = c;
				snprintf(vkind, sizeof(vkind), "%s", kind);
				snprintf(vsig, sizeof(vsig), "%s", w->viol ? w->sig : kind);
				snprintf(vmsg, sizeof(vmsg), "%s", w->viol ? w->msg :
					!strcmp(kind, "hang") ? "the operation does not terminate" :
					!strcmp(kind, "memory") ? "the operation does not stop allocating memory" :
					"abnormal termination (memory error, assertion or signal)");
				snprintf(vdesc, sizeof(vdesc), "%s", w->desc[0] ? w->desc : saved.desc);
				if (!w->viol) {
					char path[4096];
					FILE *f;
					size_t n;
					snprintf(path, sizeof(path), "%s/worker-%d.err", outdir, i);
					f = fopen(path, "r");
					if (f) {
						n = strlen(vmsg);
						n += snprintf(vmsg + n, sizeof(vmsg) - n, "\n");
						n += fread(vmsg + n, 1, sizeof(vmsg) - n - 1, f);
						vmsg[n] = 0;
						fclose(f);
					}
				}
				/* stop the others */
				for (int j = 0; j < nw; j++)
					if (pid[j] > 0 && atomic_load(&sh->w[j].cur) >= vidx) {
						kill(-pid[j], SIGKILL); kill(pid[j], SIGKILL);
						waitpid(pid[j], &st, 0);
						pid[j] = 0; running--;
					}
				if (vidx < 0) /* end-of-run violation: keep the others */
					;
			} else {
				fprintf(stderr, "unconfirmed %s at case %ld: %s\n", kind, c, saved.desc);
				machinery = 75;
			}
		}
		usleep(2000);
	}
	if (vfound) rc = 1;
	else if (machinery) rc = machinery;

	if (out != NULL) {
		FILE *f = fopen(out, "w");
		uint64_t ev = 0, tr = 0, nt = 0;
		long total = 0;
		for (i = 0; i < nw; i++) {
			ev += sh->w[i].evals; tr += sh->w[i].trans; nt += sh->w[i].nontrivial;
			if (atomic_load(&sh->w[i].total) > total) total = atomic_load(&sh->w[i].total);
		}
		fprintf(f, "{\"rc\": %d, \"evaluations\": %lu, \"space\": %ld, \"transitions\": %lu, \"states\": %lu, "
			"\"states_overflow\": %lu, \"outcomes\": %lu, \"nontrivial\": %lu, \"wall\": %.3f,\n",
			rc, ev, total, tr, atomic_load(&sh->nstates), atomic_load(&sh->states_full),
			atomic_load(&sh->noutcomes), nt, now() - t0);
		fprintf(f, "\"known\": [");
		for (i = 0; i < nknown; i++) {
			fprintf(f, "%s{\"sig\": ", i ? ", " : ""); json(f, known[i]);
			fprintf(f, ", \"hits\": %lu, \"example\": ", atomic_load(&sh->known_hits[i]));
			json(f, sh->known_example[i]); fprintf(f, "}");
		}
		fprintf(f, "],\n\"samples\": [");
		int ns = atomic_load(&sh->nsamples);
		if (ns > NSAMPLES) ns = NSAMPLES;
		for (i = 0; i < ns; i++) {
			if (i) fprintf(f, ", ");
			json(f, sh->samples[i]);
		}
		fprintf(f, "]");
		if (vfound) {
			fprintf(f, ",\n\"violation\": {\"kind\": "); json(f, vkind);
			fprintf(f, ", \"sig\": "); json(f, vsig);
			fprintf(f, ", \"case\": %ld, \"replay\": ", vidx); json(f, vreplay);
			fprintf(f, ", \"desc\": "); json(f, vdesc);
			fprintf(f, ", \"msg\": "); json(f, vmsg);
			fprintf(f, "}");
		}
		fprintf(f, "}\n");
		fclose(f);
	}
	return rc;
}
