/* Grammars as small ASTs: enumeration, construction of the real node graph,
 * and the reference semantics (parse tree, completion list). */
#ifndef GRAM_H_
#define GRAM_H_
#include "mc.h"

struct ec_node;
struct ec_pnode;
struct ec_comp;
struct ec_strvec;

enum gk {
	G_STR, G_ANY, G_EMPTY, G_NONE, G_SPACE, G_INT, G_SPAN, G_SHARED, G_ROOT, /* leaves; G_SPAN: min tokens, or all the rest
	                                                   (application-defined, only with gram_user) */
	G_OPTION, G_MANY, G_ONCE, G_BYPASS, G_COND,      /* unary; G_COND: s is the condition */
	G_SEQ, G_OR, G_SUBSET, G_DYN,                    /* n-ary; G_DYN: one of its children */
};

/* shape */
struct ast {
	enum gk k;
	const char *s;         /* G_STR; G_ANY: the attribute the token must have, or NULL */
	unsigned min, max;     /* G_MANY, or range of G_INT */
	int n;
	const struct ast **ch;
	int has_root;          /* contains G_ROOT */
};

/* instance: one per grammar node */
struct g {
	enum gk k;
	const char *s;
	unsigned min, max;
	int n;
	struct g **ch;
	int num;               /* unique number, gives the id "n<num>" */
	struct ec_node *node;
	struct g *all_next;
	int looped;
	void *dyn;
};

struct gram {
	struct g *root;        /* G_BYPASS loop head if the ast refers to the root */
	struct ec_node *node;  /* the real grammar, one reference */
	struct g *shared;
	struct g *all;
	int count;
	int dyn;               /* has dynamic nodes */
};

struct alphabet {
	const struct ast *leaf; int nleaf;
	const struct ast *unary; int nunary;
	const enum gk *nary; int nnary;
	int maxarity;
};

/* every shape with exactly `size` nodes, in a deterministic order */
typedef void (*ast_cb_t)(const struct ast *a);
void ast_enum(const struct alphabet *al, int size, ast_cb_t cb);
void ast_text(struct mc_buf *b, const struct ast *a);

struct ast *ast_leaf(enum gk k, const char *s);
struct ast *ast_many(const struct ast *c, unsigned min, unsigned max);
struct ast *ast_un(enum gk k, const struct ast *c);
struct ast *ast_n(enum gk k, int n, const struct ast *const *ch);

/* identifiers of the nodes, by number (NULL: n0, n1...) */
extern const char *const *gram_ids;
const char *gram_id(const struct g *g);
/* variadic: build with the variadic constructors instead of _add() */
/* when set: builds the node of an application-defined type instead of the built-in one, or returns NULL; the
 * children are in g->ch (not for G_BYPASS heads of loops, whose child is set later by gram_user_set) */
extern struct ec_node *(*gram_user)(struct g *g);
extern int (*gram_user_set)(struct ec_node *n, struct ec_node *child);
int gram_build(struct gram *gr, const struct ast *a, int variadic);
void gram_free(struct gram *gr);   /* frees the real grammar too */

/* ---- reference -------------------------------------------------------- */
#define R_NOMATCH (-1)
#define R_DIVERGE (-2)

struct rt {                       /* reference parse tree */
	struct g *g;
	int start, len;               /* len < 0: no string vector */
	struct rt *parent, *first, *last, *next, *prev;
};
struct ritem {
	char type;                    /* 'F' or 'U' */
	struct g *g;
	const char *str, *completion;
	char *path;                   /* text of the parse state */
	int grp;
};
struct rcomp { struct ritem *it; int n, cap; int ngrp; };

extern const char *const *r_tok;  /* current input */
extern int r_work;                /* steps of the reference, capped */
extern int r_maxdepth, r_maxwork;
/* condition of a G_COND node, evaluated on the reference tree: 1, 0, or -1 for an
 * error, which ends the whole parse with R_DIVERGE and r_error set */
extern int (*r_cond)(struct g *g, struct rt *me);
extern int r_error;
struct rt *rt_root(struct rt *t);
/* which child a G_DYN node becomes, given the fingerprint of the partial parse tree and the
 * position in it; -1: the callback fails. Used by the reference and by the real callback. */
extern int (*r_dyn)(struct g *g, uint64_t tree);
extern int gram_dyn_fresh;        /* the real callback returns new nodes, not clones of existing ones */
extern void (*gram_dyn_enter)(struct gram *gr);  /* called by the real callback */

/* parse tok[0..n): the tree (to be freed by rt_free) */
int ref_parse(struct gram *gr, const char *const *tok, int n, struct rt **tree);
void rt_free(struct rt *t);
void rt_text(struct mc_buf *b, const struct rt *t);
int ref_complete(struct gram *gr, const char *const *tok, int n, struct rcomp *c);
void rcomp_free(struct rcomp *c);

/* the same text for a real parse tree; `gr` maps nodes to numbers */
void pnode_text(struct mc_buf *b, struct gram *gr, const struct ec_pnode *p);
int gram_num(struct gram *gr, const struct ec_node *node);
/* with gram_attrs, every token is followed, after its NUL, by the string of the one-letter
 * names of its attributes, in alphabetical order */
extern int gram_attrs;
extern char gram_attr_val[];
const char *tok_attrs(const char *tok);
void vec_attrs(struct mc_buf *b, const struct ec_strvec *v, size_t i);
struct ec_strvec *mk_strvec(const char *const *tok, int n);
void tok_text(struct mc_buf *b, const char *const *tok, int n);
#endif
