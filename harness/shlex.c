/* C04: the shell lexer on every line over small alphabets, and long lines. */
#include <ecoli.h>
#include "mc.h"
#include "shlex_ref.h"

static struct rlex r;
static struct mc_buf b1;

static void check_line(const char *s, int brief)
{
	mc_buf_reset(&b1);
	if (brief) mc_buf_add(&b1, "%zu bytes: %.40s...", strlen(s), s);
	else mc_buf_str(&b1, s);
	ref_shlex(s, &r);
	for (int fl = 0; fl < 8; fl++) {
		unsigned flags = (fl & 1 ? EC_STRVEC_STRICT : 0) | (fl & 2 ? EC_STRVEC_TRAILSP : 0);
		char q = '?';
		struct ec_strvec *v;
		int n = r.n + (fl & 2 && r.blank_end), i;

		if ((fl & 4) && fl != 4 && fl != 5) continue;
		mc_desc("line %s flags%s%s%s", b1.s, fl & 1 ? " STRICT" : "", fl & 2 ? " TRAILSP" : "", fl & 4 ? " without quote pointer" : "");
		errno = 0;
		v = ec_strvec_sh_lex_str(s, flags, fl & 4 ? NULL : &q);
		mc_trans(1);
		if (!(fl & 4)) {
			if (r.quote)
				MC_CHECK(q == r.quote, "quote", "the open quote is %c, reported: %d", r.quote, q);
			else
				MC_CHECK(q == '?' || q == 0, "quote-none", "no quote is open, reported: %c", q);
		}
		if ((fl & 1) && r.unterminated) {
			MC_CHECK(v == NULL, "strict", "accepted in strict mode");
			MC_CHECK(errno == EBADMSG, "strict-errno", "errno %d", errno);
			continue;
		}
		MC_CHECK(v != NULL, "refused", "the line is refused (errno %d)", errno);
		MC_CHECK(ec_strvec_len(v) == (size_t)n, "nwords", "%zu words instead of %d", ec_strvec_len(v), n);
		for (i = 0; i < n; i++) {
			const char *e = i < r.n ? r.buf + r.off[i] : "";
			MC_CHECK(!strcmp(ec_strvec_val(v, i), e), "word", "word %d is <%.200s> instead of <%.200s>", i, ec_strvec_val(v, i), e);
		}
		mc_outcome(mc_hu(mc_h(MC_H0, r.buf, r.n ? r.off[r.n - 1] : 0), n));
		ec_strvec_free(v);
	}
	mc_state(mc_hs(MC_H0, s));
	if (r.n > 1 || r.unterminated) mc_nontrivial();
}
static void all_lines(const char *alpha, int maxlen)
{
	char s[16];
	int idx[16], n, i, k = strlen(alpha);
	for (n = 0; n <= maxlen; n++) {
		memset(idx, 0, sizeof(idx));
		for (;;) {
			if (mc_next()) {
				for (i = 0; i < n; i++) s[i] = alpha[idx[i]];
				s[n] = 0;
				check_line(s, 0);
				mc_end();
			}
			for (i = n - 1; i >= 0 && ++idx[i] == k; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
}
void mc_run(void)
{
	static char big[17000];
	int n, i, k;

	if (mc_next()) {
		mc_desc("NULL line");
		errno = 0;
		MC_CHECK(ec_strvec_sh_lex_str(NULL, 0, NULL) == NULL && errno != 0, "null", "NULL is accepted");
		mc_end();
	}
	all_lines("a '\"\\#\n", mc_thorough ? 9 : 7);
	all_lines("b \t\r\v\f\x80\xff'$=\"#", mc_thorough ? 5 : 4);
	/* state cover x every byte (x special byte) x distinguishing suffixes */
	{
		static const char *const pre[] = { "", "x", "x ", "'", "'x", "'x'", "\"", "\"x", "\"x\"", "\"\\", "\"x\\", "\\",
			"x\\", "#", "# x", "x#", "x #", "x #y\n", "#\r", "''", "x ''", "\"\"", "x\\ ", "\"'", "'\"" };
		static const char *const mid[] = { "", " ", "'", "\"", "\\", "#", "\n", "\r", "\t", "\f", "z" };
		static const char *const suf[] = { "", "y", " y", " ", "#y", "'y'", "\"y\"", "\ny", "\\y", "' y", "\" y", "\ny # z" };
		unsigned a, m, x;
		for (n = 1; n < 256; n++)
			for (a = 0; a < sizeof(pre) / sizeof(*pre); a++)
				for (m = 0; m < sizeof(mid) / sizeof(*mid); m++)
					if (mc_next()) {
						for (x = 0; x < sizeof(suf) / sizeof(*suf); x++) {
							snprintf(big, sizeof(big), "%s%c%s%s", pre[a], n, mid[m], suf[x]);
							check_line(big, 0);
						}
						mc_end();
					}
	}
	/* long words: every length around the powers of two, several shapes */
	for (n = 1; n <= 8191; n = n < 80 ? n + 1 : (n & (n - 1)) == 0 ? n + 1 : ((n + 1) & n) == 0 ? n + 1 :
			n >= 8180 ? n + 1 : ((n >> 6) + 1) << 6)
		for (k = 0; k < 6; k++)
			if (mc_next()) {
				char *p = big;
				if (k == 1 || k == 4) *p++ = '\'';
				if (k == 2 || k == 5) *p++ = '"';
				if (k == 3) { strcpy(p, "first "); p += 6; }
				for (i = 0; i < n; i++) *p++ = 'a' + i % 26;
				if (k == 1) *p++ = '\'';
				if (k == 2) *p++ = '"';
				if (k == 3) { strcpy(p, " last"); p += 5; }
				*p = 0;
				check_line(big, 1);
				mc_end();
			}
	/* longer than the documented buffer: refused, or split correctly */
	for (n = 8192; n <= 16500; n += n < 8200 ? 1 : 1111)
		for (k = 0; k < 3; k++)
			if (mc_next()) {
				struct ec_strvec *v;
				char *p = big;
				mc_desc("line with a word of %d bytes (%d)", n, k);
				if (k == 1) *p++ = '\'';
				if (k == 2) *p++ = '"';
				memset(p, 'z', n); p += n;
				if (k) *p++ = big[0];
				*p = 0;
				errno = 0;
				v = ec_strvec_sh_lex_str(big, 0, NULL);
				mc_trans(1);
				if (v == NULL)
					MC_CHECK(errno != 0, "long-errno", "refused without errno");
				else
					MC_CHECK(ec_strvec_len(v) == 1 && strlen(ec_strvec_val(v, 0)) == (size_t)n, "long", "truncated");
				ec_strvec_free(v);
				mc_end();
			}
	/* many words */
	for (n = 1; n <= 600; n += n < 140 ? 1 : 23)
		if (mc_next()) {
			char *p = big;
			for (i = 0; i < n; i++)
				p += sprintf(p, i % 5 == 1 ? "'w %d' " : i % 5 == 2 ? "\"w\\\"%d\"\t" : i % 5 == 3 ? "w\\ %d\n" : i % 5 == 4 ? "''%d " : "w%d  ", i);
			check_line(big, 1);
			mc_end();
		}
}
