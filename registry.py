"""What each property's check runs, within which bounds."""
G = ["lib/gram.c"]
HOOKS = dict(guard="EC_VERIF_HOOKS", enable="no hook was needed: the checks use the public API only, "
             "with the library's sources compiled with sanitizers outside /repo", source_commits=[])
NOT_APPLICABLE = {}
TECH = "bounded exhaustive model checking of the real code against an executable reference model"
NOTE = "Every case within the stated bounds is executed on the real library (ASan) and compared with an independent " \
       "reference; nothing is sampled. Beyond the bounds it relies on the small-scope hypothesis."
GRAM_ASSUME = ["left-recursive grammars (infinite recursion) are outside the space",
               "the reference semantics in lib/gram.c were written from the documentation and cross-checked on the whole space"]
PROPS = {}


def P(id, runs, quick, thorough, assumptions=(), level="model_checking", technique=TECH, note=NOTE, rule=None):
    PROPS[id] = dict(level=level, runs=runs, bounds=dict(quick=quick, thorough=thorough),
                     assumptions=list(assumptions), technique=technique, note=note, rule=rule)


P("C01", [dict(harness="parse", src=G)],
  "all grammars of <=4 nodes over 6 leaves/8 unary/3 n-ary constructs, <=5 nodes over reduced and recursive alphabets, "
  "wide/deep families up to 1025 children, tokens or repetitions, words up to 4097 bytes, every byte value; all token lists of length <=3 over {a, ab, c, empty} (<=2 over 11 tokens for leaf kinds); all grammars of <=4 nodes over "
  "attribute-matching leaves on all lists of <=3 tokens with 4 combinations of attributes",
  "as quick with one more node in each alphabet", GRAM_ASSUME)
P("C02", [dict(harness="tree", src=G)],
  "grammars/inputs as C01 (recursive <=4 nodes, families <=129); for each tree: all (sub-root, node) pairs for "
  "iteration and search, duplication from every node; all link/unlink/delete sequences of <=7 operations on 3 nodes",
  "one more grammar node in each alphabet; <=8 operations on 4 nodes", GRAM_ASSUME)
P("C03", [dict(harness="complete", src=G)],
  "grammars/inputs as C01 (reduced alphabets <=4 nodes, families <=129): the whole item list, groups and attached "
  "parse states of every completion", "one more grammar node in each alphabet", GRAM_ASSUME)
P("C04", [dict(harness="shlex")],
  "all lines of <=7 bytes over {a, space, ', \", \\, #, newline}, all lines of <=4 bytes over 13 other bytes, every byte "
  "value in 25 lexer contexts x 11 following bytes x 12 distinguishing suffixes, words up to 8191 bytes, up to 600 words; all flag combinations",
  "one more byte per line", ["words of 8192 bytes and more are refused by design (ENOBUFS) and are outside the space"])
P("C05", [dict(harness="shnode", src=G)],
  "all child grammars of <=2 nodes with all lines of <=5 bytes over {a,b,space,',\",\\} and <=6 bytes over {a,space,#,',newline}, "
  "all grammars of 3 nodes with lines of <=4 bytes; lexers nested in 6 outer grammars with all inputs of <=3 lines; 2-3 alternative lexers on 11 lines; all lists of <=3 items of a user's node type; words up to 8190 bytes, lines up to 300 words",
  "one more byte per line", GRAM_ASSUME)
P("C06", [dict(harness="ints")],
  "all tokens of <=3 bytes over 9 characters plus 80 boundary literals x bases {unset,0,2,3,4,7-11,15-17,32,35,36} x 14x14 pairs of bounds "
  "(absent, 64-bit limits, small) x int/uint; constructor, configuration, and all pairs of successive configurations",
  "all tokens of <=4 bytes", ["binary literals (0b1) depend on the C library version and are outside the space"])
P("C07", [dict(harness="regex")],
  "all lists of <=2 patterns out of 9 (x keep flag) with all inputs of <=4 (1 pattern: 5) bytes over 5 characters and 4 children, "
  "lists of 3 patterns with inputs of <=2 bytes; 15 regular expressions x all tokens of <=4 bytes, every pair of successive "
  "patterns; up to 257 patterns, inputs up to 9000 bytes and 1200 tokens, every pair of byte values; memory of 9 operations on all pairs of patterns", "one or two more bytes",
  ["the C library's regcomp/regexec is trusted for the patterns outside the hand-written reference matchers"])
P("C08", [dict(harness="graph")],
  "all graphs of 2 nodes over 13 node types, of 3 nodes over {seq, subset} with <=2 children, of 3 nodes with 2 of any type, of 4 seq "
  "nodes with <=2 children (loops and sharing included), rings up to 16 nodes, expressions with operators of all kinds in loops, up to 600 children, parents and 70000 references; one or two outside references per node, all "
  "release orders; all histories of 3 add/replace/refused-add/clone/free operations on 4 nodes of 9 types; all constructors "
  "with every set of NULL arguments", "4 nodes over {seq, subset}, clones everywhere, histories of 4 operations, rings up to 40 nodes")
P("C09", [dict(harness="htable")],
  "hash tables and dictionaries: all histories of <=5 (2 keys: 6) set/set-NULL/set-without-destructor/delete/duplicate/free operations on 2 tables and 4 keys, "
  "also with keys of the same bucket and (<=4 operations) with the same 32-bit hash; 8 patterns of fill, delete, replace, duplicate with every number of keys <=80 and around 512, across two "
  "resizes; tables up to 100000 entries filled, thinned, duplicated and freed; keys of 1..40 arbitrary bytes that differ at each position; every bad argument",
  "histories one operation longer, up to 700 keys, keys of 1..130 bytes")
P("C10", [dict(harness="vecs")],
  "string vectors: all histories of <=5 (reduced set: 6) add/set/del_last/dup/ndup/free/set_attrs/sort operations on 2 vectors that share elements, "
  "then every range (including overflowing ones) and every refused call; all sorts of <=5 words out of 7; vectors up to 4097 elements (ranges, comparison with one different element, sorts in 5 orders with attributes), "
  "texts up to 70000 bytes, every pair of bytes, up to 70000 vectors sharing elements. "
  "Vectors: all histories of <=6 add/dup/ndup/free operations on 2 vectors, 5 element sizes, with each subset of the callbacks; 21 element sizes up to 65537 bytes, up to 1025 elements",
  "one more operation or word")
P("C11", [dict(harness="config")],
  "all configuration values of <=3 nodes over 11 scalars (<=4 over 4 scalars): content, dump, duplicate, every change of the original or of the copy; "
  "comparison of all pairs of values of <=3 nodes; all well-formed schemas of <=4 elements x all these values; all schemas of <=2 "
  "elements over 8 keys x 8 types x 11 sub-schemas for well-formedness; all histories of <=4 dictionary/list operations; for each of the 22 "
  "node types all combinations of absent/valid/invalid/mistyped values per key and all pairs of successive configurations; all pairs of 168 scalars (64-bit limits, texts up to 70000 bytes) at 4 places, "
  "containers up to 520 values with one different, nesting up to 300, schemas up to 70 keys with one wrong; all sequences of <=3 setter calls (valid, refused, on another type) and configurations on 8 node types",
  "values of <=4 nodes over 11 scalars (<=5 over 4), histories of 5 operations",
  ["the text of the dump is the one of the pinned commit, with signed and unsigned values in their own notation"])
P("C21", [dict(harness="complist")],
  "lists filled by a scripted node type: all lists of <=3 groups of <=2 items (4 groups of 1) over 3 item types, all lists of 3 items over 11 "
  "(type, text) pairs; each with all 8 filters from every position, every text update; all merges of 2 lists (2 groups x 2 items) and of 3 lists; lists up to 1200 items and 520 groups",
  "2 groups of 3 items, merges of three lists of 3 groups")
P("C13", [dict(harness="cmd", src=G)],
  "all formats of <=5 lexemes over {a,b,|,`,`,[,],(,),*,+}, <=4 with one or two children of 7 grammars, <=6 over {a,b,c,|,`,`,(,)} and over "
  "{a,X,|,`,`}, <=3 with foreign characters, <=2 with 7 pairs of identifiers that extend each other or the words, all formats of <=4 words and unary operators combined with groups over {a,b,X}; each with all token lists of <=3 words (parse and completion); families up to 70 children, words up to 1025 bytes, every byte value, nesting up to 12, repetitions of up to 1000 words",
  "one more lexeme", ["the precedence (`,` then `|` then sequence; postfix operators first) is the one of the pinned commit",
                      "an identifier that denotes a child is looked up in the order of the children"])
P("C14", [dict(harness="expr", src=G)],
  "about 800 configurations (0-3 binary operators incl. the empty one, 0-2 prefix, 0-2 postfix, 0-2 pairs of parentheses, operators sharing a text or a node, 2 orders of "
  "configuration), all token lists over their vocabulary up to about 700*vocabulary per configuration (3-5 tokens): match, completion, evaluation from three roots with no "
  "callback failing and with each callback failing, operands reused or not; chains of up to 24 operators; values containing the expression; every missing part or callback",
  "up to about 20000*vocabulary token lists per configuration (4-6 tokens), chains of 60",
  ["the structure is the grammar documented in ec_node_expr_build(), binary operators of one level being applied from left to right"])
P("C15", [dict(harness="cond", src=G)],
  "all condition strings of <=7 lexemes over {f,1,(,),`,`} and <=4 over 10 lexemes (acceptance); every function (9 and 2 unknown ones) with 0..3 arguments out of 9; "
  "well-typed conditions over all node sets of depth <=3 (about 2900), all pairs of 15 literals; each on up to 9 grammars with all inputs of <=3 words: whole parse tree or error; node sets up to 300, up to 129 arguments, nesting up to 40, all pairs of 18 words and 17 integers, every byte value at 14 places",
  "one more lexeme, conditions over triples of node sets",
  GRAM_ASSUME + ["the condition is evaluated after the child has matched, as the pinned commit does; whether completion of the child itself depends on the condition is not specified"])
P("C16", [dict(harness="dyn", src=G), dict(harness="pure", src=G)],
  "histories: 26 grammars covering all 22 node types x 5 shared sub-grammars: all sequences of <=3 parse/completion calls over 8-10 inputs (20 operations); all pairs of these "
  "grammars sharing a node: all sequences of 2 calls over 5 inputs (20 operations); every result compared with the call alone, before and after the others. Dynamic nodes: all grammars "
  "of <=4 nodes (reduced alphabet 5, recursive 4) with dynamic nodes choosing a child from the partial tree, all token lists of <=3 tokens, new or existing nodes returned, nested calls, "
  "failing callbacks, copies and merges",
  "sequences of 3 calls on pairs, one more grammar node", GRAM_ASSUME)
P("C17", [dict(harness="file", flags=["-Wl,--wrap=lstat,--wrap=opendir,--wrap=closedir,--wrap=readdir,--wrap=fstatat"])],
  "all 2048 contents out of 11 entries (files, directories, hidden ones, links to a file/directory/nothing, fifo, names with a space or %) of a real scratch directory x 374 typed paths "
  "(17 directory parts x 22 names) x file system with and without entry types x 3 grammars; for 256 contents and 36 paths each call of lstat/opendir/readdir/fstatat failing; "
  "names of 1..255 characters, paths up to 8400 characters", "system call failures for all 2048 contents",
  ["the order of the entries is the one of the directory and is not specified", "when reading the directory fails in the middle, an error or part of the items are both accepted"])
P("C18", [dict(harness="yaml")],
  "documents made of each of 14 types (and unknown or missing ones) with one entry out of 19 keys x 64 values (scalars, sequences, mappings, aliases) in 3 notations before or after the type, "
  "two entries out of the keys of the type x 16 values, all pairs of 32 literals as bounds, all graphs of <=4 nodes over 5 types with aliases to any open or finished "
  "node: the imported graph compared with the one built through the API. All texts of <=4 bytes over 19 characters; 6 documents cut, and changed in 28 ways, at each byte; unreadable files: refused or "
  "accepted without crash, with all memory and descriptors released; lists up to 600 elements, texts up to 18000 characters", "graphs of 5 nodes, all keys and 64 values in pairs, texts of 5 bytes",
  ["libyaml is trusted", "the treatment of duplicate configuration keys and of types that have no configuration schema is not specified"])
P("C19", [dict(harness="edit")],
  "completion lists: all lists of <=3 items out of 12 (complete, partial, unknown, without completion, own display) split in 2 groups, with helps at 3 levels; lines: 12 grammars behind a lexer x all "
  "lines of <=5 bytes over {a,b,space,',\",\\\\}: completions, characters to append, helps, suggestions, both keys with 3 cursor positions; columns: 0..30 matches of up to 200 characters on 5 widths; "
  "typing: on a pseudo terminal, all sequences of <=4 keys out of 8 and of 5 keys out of 5 on 4 grammars; files of <=3 lines out of 6 x 6 histories; all sequences of 3 settings x 16 flags; all sequences of <=5 history configurations (2 files, sizes) and lines; up to 300 matches, common prefixes, descriptions and helps up to 400-2000 characters, lines up to 450 words",
  "lists of 4 items, lines of 6 bytes, 6 keys, files of 4 lines",
  ["libedit and the terminal driver are trusted", "what a list proposes is judged by C03, C05 and C21; here the helpers are compared with that list"])
P("C12", [dict(harness="oom", src=G)],
  "each of about 6400 library operations (containers of every size around the growth limits, configurations, 53 node constructions, additions to nodes of 0..12 children, "
  "expression and configuration changes, construction/parse/completion of all grammars of <=2 nodes (reduced and recursive alphabets 3) on 10 inputs, 16 grammars of the other node "
  "types, tree copies, all completion callbacks of <=3 calls, 9 YAML documents and 9 invalid ones, line edition helpers and keys, dumps, ec_init): each of its N allocations failing alone, then with all "
  "the following ones (about 1.6 million executions): error reported and previous state kept, or normal result; retry with memory gives the normal result; no block lost",
  "one more grammar node, callbacks of 4 calls, longer inputs",
  ["allocations made by libc, libedit and libyaml themselves do not fail", "the observation of an object is its whole public state: content, attributes, configuration, children, and its parse and completion results on probe inputs",
   "after an error inside nested constructors, errno may be EINVAL (a NULL child was passed on) instead of ENOMEM"],
  level="fault_enumeration", technique="exhaustive enumeration of allocation failures in the real code, with state comparison and retry",
  rule="every allocation of every operation (fault points 1..N measured on a fault-free run), alone and with all its successors")
P("C20", [dict(harness="svc", src=G)],
  "each in its own process: all lists of <=2 init entries over 5 priorities (3 entries over 3) x init absent/succeeding/failing x exit or not, two init/exit cycles each, library used from the callbacks; all "
  "sequences of <=3 node type registrations (5 types, two of the same name, one overriding a library type, with or without override), <=4 test registrations out of 5, <=4 log type registrations out of 6 "
  "with and without registered allocator, <=3 allocator registrations and ec_init out of 10; all sequences of <=3 log settings out of 12, then 40 messages of 5 levels and 4 types; "
  "ec_calloc on 256 size pairs, string helpers on all strings of <=5 bytes over 4, 28 workloads (every node type, containers, YAML, configurations, line edition) under an allocator that recognises its blocks",
  "one more operation per sequence, 3 init entries over 5 priorities",
  ["the order of init functions of equal priority is not specified, only that exit functions reverse it", "which exit functions run after a failed ec_init() is not specified",
   "memory of libedit, libyaml and of the matches returned by ec_editline_get_completions() is libc's"])
P("C22", [dict(harness="inspect", src=G)],
  "all grammars of <=3 nodes over 6 leaves/8 unary/3 n-ary constructs, <=4 nodes over reduced and recursive alphabets, wide/deep families up to 129 nodes: every node, search of every "
  "identifier from every node, dump from every node; reduced and recursive grammars of <=4 nodes with all assignments of 4 identifiers; the parse trees and partial trees of all inputs of <=2 tokens; "
  "every node type; identifiers up to 4200 bytes and of any byte; dumps of all vectors and tables of <=4 words out of 6",
  "one more node, one more word", GRAM_ASSUME + ["the text of the dumps is the one of the pinned commit (addresses and counters are not compared)"])
P("C23", [dict(harness="usertype", src=G)],
  "all grammars of <=3 nodes over 6 leaves/8 unary/3 n-ary constructs and recursive ones of <=4 nodes, with 3 choices of which constructs are of an application-defined type, and all of <=4 nodes with "
  "application-defined leaves that match several tokens; all inputs of <=3 (4) tokens, in parse and completion, each again with every single callback failing; 22 grammars covering the other built-in types "
  "(lexers, cmd, expr, cond, dynamic...) x 426 inputs, likewise (each callback fails before or after doing its work); inputs of up to 65537 tokens on 9 grammars; creation with 28 private sizes and every subset of callbacks; all histories of <=3 configurations out of 8",
  "one more node, token and configuration", GRAM_ASSUME)
P("C24", [dict(harness="shell", src=G, flags=["-I@REPO@/examples/parse-yaml", '-DLIBECOLI_SH="@REPO@/libshell/libecoli.sh"'])],
  "the program ecoli-parse-yaml run on all grammars of <=3 nodes (str, any, option, many, seq, or) with 5 assignments of identifiers (none, all, some, repeated, extending each other) and all lines of <=3 (3 nodes: 2) words; then, in sh and bash, "
  "with and without set -e: every accessor on every node, search of every identifier from every node; 48 special texts as words, keywords and identifiers, all words of <=2 bytes over 9 special characters, every byte < 128; trees of up "
  "to 25 nodes, wide and deep; completions of all lists of words; 6 missing or invalid documents",
  "4 nodes, words of 3 bytes, trees up to 102 nodes", GRAM_ASSUME + ["libedit ends a line at a newline or carriage return and drops bytes that are not characters of the locale: outside the space",
  "the result is sourced in a shell that holds no other result"])
