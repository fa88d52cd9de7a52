"""Source of properties.jsonl (run tools/gen.py to regenerate it)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop("C01", "Parsing follows the grammar: verdict and number of tokens consumed",
     "Parsing a list of tokens with a grammar built from str, any, empty, none, space, int, option, many, once, "
     "bypass, seq, or and subset nodes (including shared and recursive nodes) reports a match exactly when the "
     "documented semantics of these nodes accept a prefix of the tokens, and the match covers exactly that prefix: "
     "seq takes its children in order, or the first child that matches, many repeats greedily within its bounds and "
     "never counts an empty repetition, subset takes the largest number of distinct children in any order (at least "
     "one token of input required), option falls back to an empty match, once matches its child only if it is not "
     "already in the parse tree; an any node with an attribute name takes only a token that carries that attribute. The "
     "input and its attributes are not modified, parsing never fails on a valid grammar, and all memory is released.",
     ["inputs", "programs"],
     "every grammar of the vocabulary (any nesting, sharing, back-reference to the root that consumes a token first) "
     "and every list of tokens",
     "the tests try a handful of grammars per node type with 3 to 6 inputs each; the verdict of a composition "
     "(many over option, once inside subset, recursion) is hardly sampled",
     ["src/ecoli_parse.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c",
      "src/ecoli_node_subset.c", "src/ecoli_node_option.c", "src/ecoli_node_once.c", "src/ecoli_node_bypass.c"],
     [("parse callback of each node type", "src/ecoli_node_*.c"), ("ec_parse_child, ec_parse_strvec", "src/ecoli_parse.c")],
     ["ec_parse_strvec() / ec_pnode_matches() / ec_pnode_len()"])

prop("C02", "The parse tree is exactly the derivation, and is a well-formed tree",
     "A successful parse returns the tree of the derivation: one tree node per grammar node that took part in the "
     "match, in input order, each carrying exactly the tokens it consumed with their attributes, and nothing left over from attempts that "
     "were abandoned; a failed parse returns a root without tokens and without children. Parent, first, last, next, "
     "root, depth-first iteration and search by identifier agree with that tree, and a duplicate taken from any node "
     "is an equal and independent tree positioned on the same node.",
     ["inputs", "programs", "histories"],
     "every grammar and input as in C01, every node of the tree as starting point of iteration, search and duplication",
     "the tests look at the tree of two or three fixed lines and search for two identifiers; back-tracking inside "
     "subset/or/many leaves garbage only for specific combinations",
     ["src/ecoli_parse.c", "src/ecoli_node_*.c"],
     [("ec_pnode link/unlink/del_last_child/free_children", "src/ecoli_parse.c"),
      ("__ec_pnode_dup, __ec_pnode_iter_next, ec_pnode_find_next", "src/ecoli_parse.c")],
     ["ec_pnode_* accessors"])

prop("C03", "Completion lists exactly the continuations the grammar allows",
     "Completing a list of tokens (the last one being the word to complete) with a grammar as in C01 returns, in "
     "grammar order, one item for every leaf reachable after consuming the previous tokens whose text extends the "
     "last word, with the right full text, the right missing suffix, the right node and the right partial parse tree "
     "attached, one 'unknown' item for reachable leaves that cannot enumerate their values, and nothing else. "
     "Completion terminates, does not fail, leaves the grammar usable, and its counters match its items.",
     ["inputs", "programs"],
     "every grammar of the vocabulary (not left-recursive) and every token list",
     "the tests complete a few prefixes per node type; compositions with optional/empty/repeated parts are not sampled",
     ["src/ecoli_complete.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c",
      "src/ecoli_node_subset.c", "src/ecoli_node_once.c", "src/ecoli_node_str.c", "src/ecoli_node_option.c"],
     [("complete callback of each node type", "src/ecoli_node_*.c"), ("ec_complete_child, groups", "src/ecoli_complete.c")],
     ["ec_complete_strvec() / EC_COMP_FOREACH / ec_comp_group_get_pstate()"])

prop("C04", "The shell lexer splits a line exactly as documented",
     "Splitting a line returns exactly the words given by shell-like rules (blanks separate words, single and double "
     "quotes group characters, backslash escapes, '#' at the start of a word begins a comment that lasts until the end of the "
     "line and is not part of any word, an empty quoted string is a word). In strict mode an unterminated quote or a trailing backslash is "
     "refused with EBADMSG; otherwise the quote that is open at the end of the line, if any, is reported to the caller. With "
     "the trailing-space flag, a line that is empty or ends with a blank outside of quotes gets an additional empty word.",
     ["inputs"],
     "every line and every combination of lexer flags",
     "the tests split about ten lines; every quote/escape/blank combination at every position is out of reach",
     ["src/ecoli_strvec.c", "include/ecoli_strvec.h"],
     [("sh_lex_str state machine, ec_strvec_sh_lex_str", "src/ecoli_strvec.c")],
     ["ec_strvec_sh_lex_str() / ec_strvec_get_attrs()"])

prop("C05", "Parsing and completing a shell line agree with its words, whatever the quoting",
     "A shell-lexing node matches a line exactly when its child consumes all of the words of the line, and it consumes the whole line. "
     "Completing a line offers exactly the completions of the child for the words of the line, each one closing the quote the "
     "user opened if any, and appending the offered characters to a line that does not end inside a comment or an escape gives a line whose "
     "words are the completed words (for choices made of characters that are not special to the shell).",
     ["inputs", "programs"],
     "every line (including open quotes and escapes), every grammar below the lexer",
     "the tests complete a dozen lines; the interplay of open quotes, escapes and completion suffixes is per-character",
     ["src/ecoli_node_sh_lex.c", "src/ecoli_strvec.c"],
     [("ec_node_sh_lex_parse / _complete, get_word_delim quoting", "src/ecoli_node_sh_lex.c")],
     ["ec_parse() / ec_complete() on a sh_lex node"])

prop("C06", "Integer nodes accept exactly the numbers in range, and return their value",
     "An int or uint node matches one token exactly when the whole token is an integer written in the configured base "
     "(0 means C notation) that fits 64 bits and lies within the configured minimum and maximum, each bound being "
     "optional; retrieving the value of a matching token returns that integer. The same holds for the string to "
     "integer helpers, which report failures with errno and leave errno unchanged on success.",
     ["inputs", "configurations"],
     "every token, base, and pair of bounds, including 64-bit limits",
     "the tests try about fifteen numbers with two pairs of bounds; limits, absent bounds and bases are not crossed",
     ["src/ecoli_node_int.c", "src/ecoli_string.c"],
     [("parse_llint/parse_ullint, set_config", "src/ecoli_node_int.c"), ("ec_str_parse_llint/ullint", "src/ecoli_string.c")],
     ["ec_parse() / ec_node_int_getval() / ec_node_uint_getval() / ec_str_parse_*()"])

prop("C07", "Regular-expression nodes and lexers match whole tokens and lose no input",
     "A re node matches one token exactly when the regular expression matches the whole token. A re_lex node cuts its "
     "input at each position with the first pattern, in the order they were added, that matches there, keeps the "
     "tokens of the patterns marked to be kept, and matches exactly when the whole input is cut this way and its child "
     "consumes all kept tokens; tokenising terminates on every input, and compiled patterns are released when replaced, refused or no longer used.",
     ["inputs", "configurations"],
     "every input string, every list of patterns, keep flags and child grammar",
     "the tests use one pattern list and five lines",
     ["src/ecoli_node_re.c", "src/ecoli_node_re_lex.c"],
     [("ec_node_re_parse", "src/ecoli_node_re.c"), ("tokenize", "src/ecoli_node_re_lex.c")],
     ["ec_parse() on re / re_lex nodes"])

prop("C08", "A grammar graph is released exactly when its last reference goes away",
     "Nodes are reference counted: a node given to a parent belongs to it, a cloned reference must be released, and "
     "whatever the shape of the graph (shared children, cycles) and the order of the releases, every node still "
     "reachable from a held reference stays usable, and when the last outside reference is released every node of the "
     "graph is freed exactly once. A failed attempt to add a child also consumes the reference that was passed.",
     ["histories", "programs"],
     "every graph of nodes, every interleaving of build, clone, use and free operations",
     "the tests free a few trees and two hand-made cycles in one fixed order",
     ["src/ecoli_node.c", "src/ecoli_node_*.c"],
     [("ec_node_free, ec_node_mark_freeable, ec_node_clone", "src/ecoli_node.c"), ("get_child callbacks", "src/ecoli_node_*.c")],
     ["ec_node_free() / ec_node_clone() / allocator balance"],
     [("refcnt", "references on a node", "struct ec_node"), ("free.state", "mark used to free cycles", "struct ec_node")])

prop("C09", "Hash tables and dictionaries behave as insertion-ordered maps",
     "After any sequence of set, replace and delete operations a hash table or dictionary contains exactly the last "
     "value set for each remaining key, answers membership, length and lookups accordingly (a lookup of a missing key "
     "returns NULL with errno set to ENOENT, a NULL value with errno 0, bad arguments give EINVAL), and iterates over each entry once in the order "
     "the keys were last set. Each value's destructor runs exactly once, when it is replaced, deleted, the table is freed or "
     "the set operation that was given the value fails; a duplicate is an independent table with the same content whose shared values live until both are freed.",
     ["histories", "inputs"],
     "every sequence of operations, every set of keys (any bytes, any length, colliding hashes), any number of entries "
     "across every resize",
     "the tests perform about twenty operations on two or three keys; collisions, resizes and delete-after-resize orders are not reached",
     ["src/ecoli_htable.c", "src/ecoli_dict.c", "src/ecoli_murmurhash.c"],
     [("bucket chains + insertion list, resize", "src/ecoli_htable.c"), ("reference counted values", "src/ecoli_htable.c")],
     ["ec_htable_*() / ec_dict_*()"])

prop("C10", "String vectors and vectors are value types with copy-on-write semantics",
     "A vector or string vector returns exactly the elements that were added, in order; a duplicate of any valid range has "
     "exactly the elements of that range and stays independent of later changes to the original (elements, length and "
     "attributes), and an invalid range or index is refused with an error. Comparison is equality of the elements, sorting "
     "produces the ordered permutation, and every element and attribute is released exactly once.",
     ["histories", "inputs"],
     "every sequence of add, set, delete, duplicate, sub-range, sort, compare and free operations on several vectors sharing elements",
     "the tests run one or two fixed sequences; sharing between duplicates and offsets at the limits are not crossed",
     ["src/ecoli_strvec.c", "src/ecoli_vec.c"],
     [("reference counted elements", "src/ecoli_strvec.c"), ("elt copy/free callbacks", "src/ecoli_vec.c")],
     ["ec_strvec_*() / ec_vec_*()"])

prop("C11", "Configurations are validated, compared and copied faithfully",
     "A node accepts a configuration exactly when it conforms to its type's schema (known keys, right types, lists and "
     "dictionaries checked at every depth), a refused configuration leaves the node exactly as it was, and in both cases the configuration "
     "given to the node is owned by the library. A duplicated configuration is equal, independent and keeps every "
     "value, comparison is equality of content at every depth, and the dump shows every value as it was set.",
     ["inputs", "configurations", "histories"],
     "every configuration tree, every schema of the node types, every sequence of set/del/dup/cmp operations",
     "the tests validate one schema with a few configurations and compare three of them",
     ["src/ecoli_config.c", "src/ecoli_node.c"],
     [("ec_config_validate, ec_config_dup, ec_config_cmp, ec_config_dump", "src/ecoli_config.c"),
      ("ec_node_set_config", "src/ecoli_node.c")],
     ["ec_config_*() / ec_node_set_config() / ec_node_get_config()"])

prop("C12", "An allocation failure is reported, and corrupts nothing",
     "If any single memory allocation, or every allocation from some point on, fails inside a library call, the call "
     "reports the failure to its caller (or succeeds with its complete normal result), never crashes, leaks or frees "
     "twice; references passed to the failed call are released as documented, objects that existed before the call "
     "keep their previous content and stay usable, and the same call succeeds when memory is available again.",
     ["fault_sequences", "histories"],
     "every allocation of every library operation (building, parsing, completing, lexing, containers, configurations), failing alone or with all its successors",
     "no test injects allocation failures",
     ["src/ecoli_malloc.c", "src/*.c"],
     [("goto fail paths", "src/*.c"), ("ec_malloc_register", "src/ecoli_malloc.c")],
     ["return values, allocator balance, behaviour after the failure"])

prop("C13", "A command format string is the grammar it denotes",
     "A cmd node built from a format string matches and completes exactly like the grammar the format denotes: words "
     "in sequence, '|' alternatives tried in the order written, '[ ]' optional parts, '( )' grouping, ',' unordered "
     "subsets of items, '+' and '*' repetition, and identifiers replaced by the child nodes of that id. An invalid "
     "format is refused, and building a command never modifies the children it was given.",
     ["inputs", "programs"],
     "every format string, every list of children, every token list",
     "the tests build six formats and parse some twenty lines",
     ["src/ecoli_node_cmd.c"],
     [("expression grammar and eval callbacks", "src/ecoli_node_cmd.c")],
     ["EC_NODE_CMD() / ec_parse() / ec_complete()"])

prop("C14", "Expressions evaluate with the declared operators, once per operator",
     "An expression node matches exactly the sequences of tokens made of its values, prefix, postfix and binary operators and "
     "parentheses, and evaluating a parse tree calls the user's callbacks exactly once per value, operator and pair of parentheses "
     "operands before their operator, giving the result of the expression's structure: binary operators declared first bind tighter, operators of one level apply from left to right, postfix operators apply to the term they follow and a prefix operator to the whole expression that follows it. "
     "Any callback failure makes the evaluation fail and every intermediate result is released exactly once.",
     ["inputs", "fault_sequences"],
     "every expression over a small vocabulary, every callback failing",
     "the tests evaluate seven expressions and no callback ever fails",
     ["src/ecoli_node_expr.c"],
     [("ec_node_expr_build, eval_expression", "src/ecoli_node_expr.c")],
     ["ec_parse() / ec_node_expr_eval()"])

prop("C15", "Conditional nodes match exactly when their condition holds on the parse tree",
     "A cond node matches what its child matches exactly when its condition expression is true for the parse tree once the child has matched "
     "(navigation, search by identifier, counting, value, logical and comparison functions as documented), and never "
     "otherwise; a syntactically invalid condition is refused when it is configured, a condition that cannot be evaluated (unknown function, wrong arguments) makes the parse fail with an error, and evaluating a condition never alters the parse tree.",
     ["inputs", "programs"],
     "every condition expression over the function set, every grammar and input",
     "the tests use three conditions",
     ["src/ecoli_node_cond.c"],
     [("eval_condition, eval_func_*", "src/ecoli_node_cond.c")],
     ["ec_parse() on a cond node"])

prop("C16", "Parsing, completion and dynamic nodes are pure: results do not depend on history",
     "Parsing or completing never changes the grammar: any interleaving of parse and complete calls on the same or on "
     "overlapping grammars gives the result each call gives alone, results stay valid and unchanged after later calls, "
     "and interrupted or nested calls (a dynamic node building its child during the parse, possibly from the partial parse tree) do not leak into other calls. A "
     "dynamic node behaves exactly like the node its callback returns, for as long as the result is used.",
     ["histories", "programs"],
     "every sequence of parse and completion calls on grammars sharing nodes",
     "the tests run each grammar on fresh nodes with inputs in one fixed order",
     ["src/ecoli_node_dynamic.c", "src/ecoli_node_subset.c", "src/ecoli_parse.c", "src/ecoli_complete.c"],
     [("dynamic node attached to the parse tree attribute", "src/ecoli_node_dynamic.c"), ("table of subset children", "src/ecoli_node_subset.c")],
     ["ec_parse_strvec() / ec_complete_strvec()"])

prop("C17", "File completion lists exactly the matching directory entries",
     "Completing a path with a file node offers exactly the entries of the named directory whose name starts with the "
     "last component: directories (and links to one) as partial items ending with a slash, other files as full items, hidden entries "
     "only when the typed name starts with a dot; the completed text always extends what was typed and the displayed text is the entry's name. A missing "
     "or unreadable directory gives no completion, never an error.",
     ["inputs", "configurations"],
     "every directory content and every typed path",
     "the test runs on one fixed fake directory",
     ["src/ecoli_node_file.c"],
     [("ec_node_file_complete, split_path", "src/ecoli_node_file.c")],
     ["ec_complete() on a file node, against a scratch directory"])

prop("C18", "A YAML document imports as the grammar it describes, or is refused cleanly",
     "Importing a YAML file gives the grammar it describes: node types, identifiers, help and attributes, and configuration "
     "values converted according to the type's schema, with anchors and aliases denoting the same node. A missing file, malformed or "
     "invalid document is refused with NULL and errno set, without crash or leak.",
     ["inputs"],
     "every YAML document",
     "the test imports one document",
     ["src/ecoli_yaml.c"],
     [("parse_ec_node, parse_ec_config", "src/ecoli_yaml.c")],
     ["ec_yaml_import()"])

prop("C19", "Interactive helpers agree with completion and parsing",
     "For a line under edition, the completion helpers return all the matching texts and only those, in order; the characters they "
     "propose to append are the longest common prefix of the possible completions (nothing when there is none); "
     "contextual help lists one entry per completing node, at each place of the grammar where it completes, with the closest help text there, preceded by an entry for a line that is already valid; suggestions do so for the longest usable beginning of the line. "
     "The completion key inserts these characters at the cursor, and a space after the only complete match, or else shows every match sorted in columns that fit; the help key shows the help. A line is "
     "returned as typed without its newline and recorded once in the history, kept in the file configured last. The prompt set last is shown, the default one at first. None of them modifies the grammar or leaks, whatever the line.",
     ["inputs", "programs"],
     "every line and grammar",
     "the test only creates and frees an editline",
     ["src/ecoli_editline.c"],
     [("ec_editline_get_completions, _append_chars, _get_helps, _print_cols", "src/ecoli_editline.c")],
     ["ec_editline_get_completions() / ec_editline_append_chars() / ec_editline_get_helps()"])

prop("C20", "Library-wide services: init order, type registry, logging, allocator",
     "ec_init() runs the init functions in priority order, lowest first, until one fails: this failure is returned with its errno and "
     "no later function runs; ec_exit() runs the exit functions in exactly the reverse order, leaves no library memory allocated, and "
     "ec_init() can be called again. A node type, log type or test is found by name exactly when registered: a duplicate name "
     "is refused (same identifier for a log type) unless override is asked, the last override is used by new nodes, existing nodes keep "
     "their type. Every log message reaches the registered handler once, whole, with its type, level and opaque pointer, and the "
     "handler's result is returned; the default handler prints exactly the messages at least as critical as the global level. An "
     "allocator can be registered only before ec_init(); from then on every block the library obtains, resizes, releases or returns "
     "goes through it, never mixed with libc's; the allocation and string helpers behave as their libc counterparts.",
     ["histories", "configurations", "fault_sequences"],
     "every list of init functions with any priorities and failures, every sequence of registrations and level settings",
     "the tests register a type or two and log a few messages",
     ["src/ecoli_init.c", "src/ecoli_node.c", "src/ecoli_log.c", "src/ecoli_malloc.c"],
     [("ec_init/ec_exit", "src/ecoli_init.c"), ("ec_node_type_register/lookup", "src/ecoli_node.c"), ("ec_log levels", "src/ecoli_log.c")],
     ["ec_init() / ec_node_type_lookup() / ec_log() / ec_malloc_register()"])

prop("C21", "A completion list is a consistent, typed, mergeable collection",
     "A completion list holds exactly the items added to it, in order, grouped per completing node; filtered iteration visits every "
     "item of the requested types exactly once, for every combination of types, and counts match. Item texts can be replaced "
     "(refused for unknown items), and merging moves every item of one list to the end of the other and releases the emptied list.",
     ["histories"],
     "every sequence of item additions (any types, texts, groups), updates and merges",
     "the tests iterate over two lists that contain a single type of items",
     ["src/ecoli_complete.c"],
     [("ec_comp_add_item, __ec_comp_iter_next, ec_comp_merge", "src/ecoli_complete.c")],
     ["ec_comp_*()"])

prop("C22", "Grammars, parse trees and containers can be inspected as they are",
     "Every node reports the identifier it was created with, its type, a description (the text of a str node, else the name of its type "
     "between angle brackets) and its children in the order they were given. Searching a grammar for an identifier returns the first node "
     "that has it in depth-first order, or NULL, whatever nodes are shared or form loops and however often it is done. Dumping a grammar "
     "terminates and shows every reachable node, indented by its depth, with its children the first time it is met; dumping a parse tree, "
     "complete or partial, shows each of its nodes indented by its depth with exactly its tokens ('no match' for a failed parse); dumps of "
     "string vectors and dictionaries show their elements in order, that of a hash table its number of elements. Inspection changes nothing.",
     ["programs", "inputs", "histories"],
     "every grammar graph (any nesting, sharing, loop, repeated identifiers), every parse tree and partial parse tree, every container",
     "the tests dump one grammar of three nodes and search for two identifiers",
     ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_strvec.c", "src/ecoli_dict.c", "src/ecoli_node_str.c"],
     [("ec_node_find, ec_node_dump, ec_node_desc, ec_node_get_child", "src/ecoli_node.c"), ("ec_pnode_dump", "src/ecoli_parse.c")],
     ["ec_node_find() / ec_node_dump() / ec_pnode_dump() / ec_node_get_child()"])

prop("C23", "Node types defined by the application behave like the built-in ones",
     "A registered type can be used anywhere in a grammar, mixed with the built-in types and inside loops. Its private area has the declared size, is zeroed before init_priv() and is its own; "
     "init_priv() and free_priv() are called exactly once per node, and if init_priv() fails the node is not created and nothing is left. parse() and complete() receive the parse state of their own node, "
     "as the last child of the state of the node that called them, with the tokens that follow those matched before it; ec_parse_child() and ec_complete_child() give the child's result and leave nothing "
     "behind when it does not match or fails. The parse tree and the completion list are those the same grammar gives with built-in types, a type may match any number of the tokens it is given (claiming more is an "
     "error), and missing callbacks have the documented defaults. If any callback fails, at any point of a parse or completion, the call returns NULL with errno as the callback set it, no callback is called after it, nothing is leaked, "
     "and the grammar still gives its normal results. set_config() sees only configurations that satisfy the schema; a refused one leaves the previous one in place.",
     ["programs", "inputs", "fault_sequences", "histories"],
     "every grammar mixing the two kinds of types, every input, every point where a callback can fail, every sequence of configurations",
     "the tests define no node type of their own and no callback that fails",
     ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c", "src/ecoli_node_subset.c", "src/ecoli_node_option.c",
      "src/ecoli_node_once.c", "src/ecoli_node_sh_lex.c", "src/ecoli_node_re_lex.c", "src/ecoli_node_cmd.c", "src/ecoli_node_expr.c", "src/ecoli_node_cond.c", "src/ecoli_node_dynamic.c"],
     [("ec_node_from_type, ec_node_free, ec_node_set_config", "src/ecoli_node.c"), ("ec_parse_child", "src/ecoli_parse.c"), ("ec_complete_child, ec_complete_unknown", "src/ecoli_complete.c")],
     ["ec_node_type_register() / struct ec_node_type / ec_parse_child() / ec_complete_child()"])
prop("C24", "A shell script sees exactly the parse tree",
     "A script that sources libecoli.sh and the result written by ecoli-parse-yaml for a line sees the parse tree of that line: node 1 is the root, the nodes are numbered in depth-first order, and the accessors return, for every node, "
     "its identifier (empty if it has none), its number of strings, each of its strings exactly as it is whatever its characters (blanks, quotes, wildcards, dollars, backslashes), its first child, its next sibling and the next node in "
     "depth-first order, and nothing when there is none; the search returns the first node with exactly that identifier from the given node on, in depth-first order, whether or not the other nodes have an identifier. The same holds in any "
     "POSIX-like shell with local variables, and with set -e. Nothing is executed or expanded from the strings. A line that does not match, or a grammar that cannot be imported, gives exit status 1 and no result; in completion "
     "mode the program prints exactly the texts of the completions.",
     ["programs", "inputs"],
     "every grammar, every line, every character in the words and identifiers, in each shell",
     "no test runs the shell library",
     ["libshell/libecoli.sh", "examples/parse-yaml/parse-yaml.c"],
     [("ec_pnode_get_first_child, ec_pnode_get_next, ec_pnode_iter_next, ec_pnode_get_id, ec_pnode_get_str, ec_pnode_find_first", "libshell/libecoli.sh"), ("__dump_as_shell, complete_words", "examples/parse-yaml/parse-yaml.c")],
     ["libshell/libecoli.sh / ecoli-parse-yaml"])
