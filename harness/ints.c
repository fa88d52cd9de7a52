/* C06: int/uint nodes and integer helpers, every token x base x bounds. */
#include <ecoli.h>
#include <limits.h>
#include <ctype.h>
#include "mc.h"

typedef __int128 i128;

/* reference: the whole token is an integer in the base; value in *v (no
 * overflow in 128 bits: the digits are capped) */
static int ref_int(const char *s, unsigned base, i128 *v)
{
	int neg = 0, nd = 0;
	i128 x = 0;
	while (isspace((unsigned char)*s)) s++;
	if (*s == '+' || *s == '-') neg = *s++ == '-';
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) {
		s += 2;
		base = 16;
	} else if (base == 0) {
		base = s[0] == '0' ? 8 : 10;
	}
	for (; *s; s++, nd++) {
		unsigned d;
		if (isdigit((unsigned char)*s)) d = *s - '0';
		else if (isalpha((unsigned char)*s)) d = tolower(*s) - 'a' + 10;
		else return 0;
		if (d >= base) return 0;
		if (x < ((i128)1 << 100)) x = x * base + d;
	}
	if (nd == 0) return 0;
	*v = neg ? -x : x;
	return 1;
}

static const unsigned bases[] = { 0, 2, 8, 10, 16, 36, 3, 4, 7, 9, 11, 15, 17, 32, 35 };
#define NB 15
struct bound { int set; int64_t i; };
static const int64_t ivals[] = { LLONG_MIN, LLONG_MIN + 1, -17, -1, 0, 1, 8, 10, LLONG_MAX - 1, LLONG_MAX, 2147483648ll, -2147483649ll, 4294967306ll };
static const uint64_t uvals[] = { 0, 1, 2, 8, 10, 255, LLONG_MAX, (uint64_t)LLONG_MAX + 1, ULLONG_MAX - 1, ULLONG_MAX, 2147483648ull, 4294967295ull, 4294967306ull };
#define NV 13

static const char *special[] = {
	"9223372036854775807", "9223372036854775808", "9223372036854775806", "-9223372036854775808", "-9223372036854775809", "-9223372036854775807",
	"18446744073709551615", "18446744073709551616", "18446744073709551614", "99999999999999999999999999",
	"-99999999999999999999999999", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000",
	"7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000000",
	"0777777777777777777777", "01000000000000000000000", "01777777777777777777777", "02000000000000000000000",
	"777777777777777777777", "1000000000000000000000", "1777777777777777777777",
	"111111111111111111111111111111111111111111111111111111111111111",
	"1000000000000000000000000000000000000000000000000000000000000000",
	"1y2p0ij32e8e7", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967306", "8589934602", "1y2p0ij32e8e8", "3w5e11264sgsf", "3w5e11264sgsg",
	"-0x8000000000000000", "-0x8000000000000001", "0X1F", "0x", "0xg", "00", "007", "08", "0 ", " 0", "\t9", "1 1", "--1", "+-1", "+", "-",
	"1\n", "zz", "z", "abc", "16", "017", "0x11", "-17", "-18", "-021", "255", "256", "0xff", "0x100", "é", "1.0", "1e3", "1_0", "0x0x1",
	"00000000000000000000000000000000000000000000000000000000000000000000000000000001", "0000x1",
};
#define NS (int)(sizeof(special) / sizeof(special[0]))
static char *toks[20000];
static int ntoks;
static void add_tok(const char *s) { toks[ntoks++] = strdup(s); }
static void mk_tokens(const char *alpha, int maxlen)
{
	char s[8];
	int idx[8], n, i, k = strlen(alpha);
	for (n = 0; n <= maxlen; n++) {
		memset(idx, 0, sizeof(idx));
		for (;;) {
			for (i = 0; i < n; i++) s[i] = alpha[idx[i]];
			s[n] = 0;
			add_tok(s);
			for (i = n - 1; i >= 0 && ++idx[i] == k; i--) idx[i] = 0;
			if (i < 0) break;
		}
	}
}

static struct ec_config *mk_conf(int u, int imin, int imax, int ibase)
{
	struct ec_config *c = ec_config_dict();
	if (imin >= 0) ec_config_dict_set(c, "min", u ? ec_config_u64(uvals[imin]) : ec_config_i64(ivals[imin]));
	if (imax >= 0) ec_config_dict_set(c, "max", u ? ec_config_u64(uvals[imax]) : ec_config_i64(ivals[imax]));
	if (ibase >= 0) ec_config_dict_set(c, "base", ec_config_u64(bases[ibase]));
	return c;
}
static i128 lo(int u, int i) { return i < 0 ? (u ? 0 : (i128)LLONG_MIN) : u ? (i128)uvals[i] : (i128)ivals[i]; }
static i128 hi(int u, int i) { return i < 0 ? (u ? (i128)ULLONG_MAX : (i128)LLONG_MAX) : u ? (i128)uvals[i] : (i128)ivals[i]; }

static void check_tokens(struct ec_node *n, int u, int imin, int imax, int ibase, const char *how, int ntok)
{
	unsigned base = ibase < 0 ? 0 : bases[ibase];
	i128 mn = lo(u, imin), mx = hi(u, imax), v;

	for (int t = 0; t < ntok; t++) {
		const char *s = toks[t];
		struct ec_pnode *p;
		struct ec_strvec *sv;
		const char *two[2] = { s, "foo" };
		int64_t i64 = 77, i2 = 77;
		uint64_t u64 = 77, u2 = 77;
		int exp, got, ret, ret2;

		mc_desc("%s %s base %u min %s%lld max %s%lld token \"%s\"", how, u ? "uint" : "int", base,
			imin < 0 ? "unset " : "", (long long)mn, imax < 0 ? "unset " : "", (long long)mx, s);
		exp = ref_int(s, base, &v) && v >= mn && v <= mx && !(u && strchr(s, '-'));
		sv = ec_strvec_from_array(two, 2);
		p = ec_parse_strvec(n, sv);
		ec_strvec_free(sv);
		MC_CHECK(p != NULL, "error", "parse error");
		got = ec_pnode_matches(p);
		MC_CHECK(!!got == exp, "match", "the node %s", got ? "matches, it must not" : "does not match, it must");
		if (exp) MC_CHECK(ec_pnode_len(p) == 1, "len", "consumed %zu", ec_pnode_len(p));
		ec_pnode_free(p);
		errno = 0;
		if (u) {
			ret = ec_node_uint_getval(n, s, &u64);
			MC_CHECK((ret == 0) == exp, "getval-ret", "getval returns %d", ret);
			if (exp) MC_CHECK(u64 == (uint64_t)v, "getval", "getval gives %llu", (unsigned long long)u64);
			MC_CHECK(ec_node_int_getval(n, s, &i2) < 0, "getval-type", "int getval accepts a uint node");
			errno = 0;
			ret2 = ec_str_parse_ullint(s, base, (uint64_t)mn, (uint64_t)mx, &u2);
			MC_CHECK((ret2 == 0) == exp, "helper-ret", "ec_str_parse_ullint returns %d", ret2);
			if (exp) MC_CHECK(u2 == (uint64_t)v, "helper", "ec_str_parse_ullint gives %llu", (unsigned long long)u2);
		} else {
			ret = ec_node_int_getval(n, s, &i64);
			MC_CHECK((ret == 0) == exp, "getval-ret", "getval returns %d", ret);
			if (exp) MC_CHECK(i64 == (int64_t)v, "getval", "getval gives %lld", (long long)i64);
			MC_CHECK(ec_node_uint_getval(n, s, &u2) < 0, "getval-type", "uint getval accepts an int node");
			errno = 0;
			ret2 = ec_str_parse_llint(s, base, (int64_t)mn, (int64_t)mx, &i2);
			MC_CHECK((ret2 == 0) == exp, "helper-ret", "ec_str_parse_llint returns %d", ret2);
			if (exp) MC_CHECK(i2 == (int64_t)v, "helper", "ec_str_parse_llint gives %lld", (long long)i2);
		}
		if (!exp) MC_CHECK(errno != 0, "helper-errno", "failure without errno");
		else {
			MC_CHECK(errno == 0, "helper-errno", "errno %d changed on success", errno);
			errno = EEXIST;
			if (u) ec_str_parse_ullint(s, base, (uint64_t)mn, (uint64_t)mx, &u2);
			else ec_str_parse_llint(s, base, (int64_t)mn, (int64_t)mx, &i2);
			MC_CHECK(errno == EEXIST, "errno-kept", "errno changed to %d on success", errno);
			mc_nontrivial();
		}
		mc_trans(4);
		mc_outcome(mc_hu(exp ? (uint64_t)v : 0, exp));
	}
	/* no token */
	{
		struct ec_strvec *sv = ec_strvec();
		struct ec_pnode *p = ec_parse_strvec(n, sv);
		MC_CHECK(p != NULL && !ec_pnode_matches(p), "empty", "matches an empty list");
		ec_pnode_free(p);
		ec_strvec_free(sv);
	}
	mc_state(mc_hu(mc_hu(mc_hu(mc_hu(MC_H0, u), imin), imax), ibase));
}

void mc_run(void)
{
	int u, imin, imax, ib, nshort;
	struct ec_node *n;

	for (int i = 0; i < NS; i++) add_tok(special[i]);
	mk_tokens("0179axz-+ ", 2);
	nshort = ntoks;
	mk_tokens("0178ax-+ ", mc_thorough ? 4 : 3);
	for (u = 0; u < 2; u++)
		for (ib = -1; ib < NB; ib++)
			for (imin = -1; imin < NV; imin++)
				for (imax = -1; imax < NV; imax++) {
					int bad = imin >= 0 && imax >= 0 && (u ? uvals[imin] > uvals[imax] : ivals[imin] > ivals[imax]);
					if (!mc_next()) continue;
					mc_desc("%s base %u min #%d max #%d", u ? "uint" : "int", ib < 0 ? 0 : bases[ib], imin, imax);
					/* through the configuration */
					n = ec_node(u ? "uint" : "int", "x");
					errno = 0;
					int r = ec_node_set_config(n, mk_conf(u, imin, imax, ib));
					MC_CHECK((r == 0) == !bad, "config", "set_config returns %d", r);
					if (bad) {
						MC_CHECK(errno != 0, "config-errno", "refused without errno");
						/* as if never configured */
						check_tokens(n, u, -1, -1, -1, "after a refused configuration,", nshort);
					} else {
						check_tokens(n, u, imin, imax, ib, "configured", ntoks);
					}
					ec_node_free(n);
					/* constructor */
					if (ib >= 0 && imin >= 0 && imax >= 0) {
						n = u ? ec_node_uint("x", uvals[imin], uvals[imax], bases[ib]) : ec_node_int("x", ivals[imin], ivals[imax], bases[ib]);
						MC_CHECK((n == NULL) == bad, "ctor", "constructor with min %lld max %lld", (long long)ivals[imin], (long long)ivals[imax]);
						if (n) check_tokens(n, u, imin, imax, ib, "constructed", nshort);
						ec_node_free(n);
					}
					mc_end();
				}
	/* a second configuration replaces the first one, a refused one changes nothing */
	static const int sel[] = { -1, 3, 5, 7 };
	for (u = 0; u < 2; u++)
		for (int c = 0; c < 4 * 4 * 2; c++)
			for (int d = 0; d < 4 * 4 * 2; d++) {
				int a1 = sel[c & 3], b1 = sel[c >> 2 & 3], e1 = c >> 4 ? 4 : -1;
				int a2 = sel[d & 3], b2 = sel[d >> 2 & 3], e2 = d >> 4 ? 4 : -1;
				if (a1 > b1 && b1 >= 0) continue;
				if (!mc_next()) continue;
				mc_desc("%s configured twice", u ? "uint" : "int");
				n = ec_node(u ? "uint" : "int", "x");
				MC_CHECK(ec_node_set_config(n, mk_conf(u, a1, b1, e1)) == 0, "config1", "refused");
				int bad = a2 > b2 && b2 >= 0;
				MC_CHECK((ec_node_set_config(n, mk_conf(u, a2, b2, e2)) == 0) == !bad, "config2", "second configuration");
				if (bad) check_tokens(n, u, a1, b1, e1, "after a refused configuration,", nshort);
				else check_tokens(n, u, a2, b2, e2, "reconfigured", nshort);
				ec_node_free(n);
				mc_end();
			}
	/* never configured */
	for (u = 0; u < 2; u++)
		if (mc_next()) {
			n = ec_node(u ? "uint" : "int", "x");
			check_tokens(n, u, -1, -1, -1, "default", ntoks);
			ec_node_free(n);
			mc_end();
		}
}
