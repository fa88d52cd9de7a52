/* Bounded exhaustive exploration framework: enumerate every case of a finite
 * space, run each one on the real library, compare with a reference model. */
#ifndef MC_H_
#define MC_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

/* ---- enumeration ------------------------------------------------------- */
extern int mc_thorough;            /* tier: 0 quick, 1 thorough */
extern int mc_verbose;             /* replaying one case: print details */

/* Advance to the next case; true if this worker has to execute it. */
bool mc_next(void);
/* Describe the current case (kept in shared memory for crash reports). */
void mc_desc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_desc_add(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* End of the case: leak accounting, statistics. */
void mc_end(void);

/* Report a violation of the current case. Does not return, unless `sig` is
 * listed as a known finding of this property. `sig` is a stable identifier of the failing
 * behaviour. */
void mc_fail(const char *sig, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, sig, ...) do { \
	if (!(cond)) mc_fail(sig, __VA_ARGS__); } while (0)
/* An error of the machinery itself (never a violation). */
void mc_bug(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

/* statistics, all measured on the run */
void mc_state(uint64_t fingerprint);     /* a (model) state was visited */
void mc_trans(uint64_t n);               /* n operations on the real code */
void mc_outcome(uint64_t fingerprint);   /* observed outcome */
void mc_nontrivial(void);                /* the case is not vacuous */

/* the harness: enumerate everything */
void mc_run(void);
/* whether ec_init() must be called before mc_run() (default 1) */
extern int mc_want_ec_init;
/* disable the leak check of the current case */
extern int mc_no_leak_check;
extern int mc_case_timeout;        /* seconds without progress */

/* ---- allocator --------------------------------------------------------- */
extern long mc_live;                 /* live blocks obtained from the library */
extern long mc_allocs;               /* allocation calls since last reset */
extern long mc_fail_at;              /* 1-based allocation that fails, 0: none */
extern int mc_fail_all;              /* every allocation from mc_fail_at fails */
extern long mc_failed;               /* number of failures injected */
extern const char *mc_fail_file;
extern unsigned mc_fail_line;
void mc_track(int on);               /* record origin of live blocks */
void mc_track_mark(void);            /* dump only the blocks allocated from now on */
void mc_track_dump(FILE *f);

/* ---- hashing ----------------------------------------------------------- */
static inline uint64_t mc_h(uint64_t h, const void *p, size_t n)
{
	const unsigned char *c = p;
	while (n--) { h ^= *c++; h *= 0x100000001b3ull; h ^= h >> 29; }
	return h;
}
static inline uint64_t mc_hu(uint64_t h, uint64_t v) { return mc_h(h, &v, sizeof(v)); }
static inline uint64_t mc_hs(uint64_t h, const char *s)
{
	return s == NULL ? mc_hu(h, 0x9e3779b97f4a7c15ull) : mc_h(mc_hu(h, 1), s, strlen(s) + 1);
}
#define MC_H0 0xcbf29ce484222325ull

/* ---- growing text buffer ------------------------------------------------ */
struct mc_buf { char *s; size_t len, cap; };
void mc_buf_reset(struct mc_buf *b);
void mc_buf_add(struct mc_buf *b, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
/* add a C-escaped string, or (null) */
void mc_buf_str(struct mc_buf *b, const char *s);
void mc_buf_free(struct mc_buf *b);

#endif
