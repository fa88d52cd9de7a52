/* Reference of the shell lexer, written as a descent over the line. */
#ifndef SHLEX_REF_H_
#define SHLEX_REF_H_
#include <string.h>

struct rlex {
	int n;                 /* words */
	int off[700];          /* start of each word in buf */
	char buf[20000];
	char quote;            /* quote left open at the end, or 0 */
	int unterminated;      /* open quote or pending backslash */
	int blank_end;         /* ends with a blank (an end of line after a comment is one), or is empty */
	int pending;           /* ends with an incomplete escape */
	int comment_end;       /* ends within a comment */
};

static inline int r_blank(char c)
{
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r';
}
static void ref_shlex(const char *s, struct rlex *r)
{
	int b = 0;
	r->n = 0; r->quote = 0; r->unterminated = 0; r->blank_end = *s == 0; r->comment_end = 0; r->pending = 0;
	for (;;) {
		if (r_blank(*s)) {
			while (r_blank(*s)) s++;
			if (*s == 0) r->blank_end = 1;
		}
		if (*s == 0) return;
		if (*s == '#') {
			while (*s != 0 && *s != '\n' && *s != '\r') s++;
			if (*s == 0) { r->comment_end = 1; return; }
			/* the end of line is a blank */
			continue;
		}
		/* one word */
		r->off[r->n++] = b;
		while (*s != 0 && !r_blank(*s)) {
			if (*s == '\\') {
				if (s[1] == 0) { r->unterminated = r->pending = 1; s++; break; }
				r->buf[b++] = s[1];
				s += 2;
			} else if (*s == '\'') {
				const char *e = strchr(s + 1, '\'');
				size_t n = e ? (size_t)(e - s - 1) : strlen(s + 1);
				memcpy(r->buf + b, s + 1, n);
				b += n;
				if (e == NULL) { r->quote = '\''; r->unterminated = 1; s += 1 + n; break; }
				s = e + 1;
			} else if (*s == '"') {
				for (s++; *s != 0 && *s != '"'; s++) {
					if (*s == '\\') {
						if (s[1] == 0) { r->pending = 1; continue; }
						s++;
					}
					r->buf[b++] = *s;
				}
				if (*s == 0) { r->quote = '"'; r->unterminated = 1; break; }
				s++;
			} else {
				r->buf[b++] = *s++;
			}
		}
		r->buf[b++] = 0;
	}
}
#endif
