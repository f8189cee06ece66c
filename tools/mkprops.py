#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Interleaved matching sessions agree with the language of the regex",
  "For every compiled regex shared by any number of matching sessions whose steps (advance by one byte, advance by a chunk, whole-text match, rewind to a saved state, abandon) interleave in any order, each session's accept/reject answer for the bytes it has consumed equals membership of exactly those bytes in the language of the pattern or expression the regex was built from. This holds for sessions that stalled while others extended the automaton, and for sessions that recover after the regex was lost and rebuilt by replaying the bytes they had consumed.",
  ["schedules","histories","inputs","crash_points","configurations"],
  "all expressions (and/or/not/concat/repeat/prefixes/lookahead, regex strings incl. Unicode, byte sets), all interleavings of sessions over one regex, all inputs, rebuild at any point, with and without alphabet compression",
  "tests/basic.rs and tests/fowler.rs drive one session at a time over a few dozen fixed patterns; no test interleaves sessions on one regex, resumes an old state id after the automaton grew, or compares with an independent model, and the uncompressed configuration is never built",
  ["src/regex.rs","src/deriv.rs","src/simplify.rs","src/bytecompress.rs","src/syntax.rs"],
  [("lazy state construction", "src/regex.rs: transition, transition_inner, insert_state"), ("derivative computation", "src/deriv.rs: DerivCache::derivative"), ("rewrite rules that keep the language", "src/simplify.rs"), ("alphabet compression", "src/bytecompress.rs: compress, map_expr")],
  ["Regex::transition","Regex::transition_bytes","Regex::is_accepting","Regex::is_match","Regex::is_match_bytes"],
  [("state_table","memoised transitions, grown lazily by whichever session gets there first","src/regex.rs"),("rx_sets","state id to residual expression","src/regex.rs")])

p("C02", "A session is dead exactly when no continuation can match",
  "After any interleaving of sessions, and however the regex was built, a session's state is the dead state if and only if no extension of the bytes it consumed can match; a regex reports that it is always empty if and only if its language is empty. A dead session stays dead and non-accepting for every further byte, and so does the constant for a state that was not computed.",
  ["schedules","histories","inputs","configurations"],
  "all expressions with intersection, negation and prefixes; all byte sequences; all orders in which sessions make the engine decide relevance of residuals",
  "tests/emptiness.rs checks emptiness of about a dozen fixed intersections at the initial state only; dead states reached after consuming input, relevance answers cached by another session's query, and residuals under negation are not sampled",
  ["src/relevance.rs","src/regex.rs","src/simplify.rs","src/ast.rs"],
  [("relevance (non-emptiness) search", "src/relevance.rs: is_non_empty_limited, make_disjoint, simplify"), ("positive flag as a fast path", "src/simplify.rs: mk_and, mk_or, mk_not, mk_repeat, mk_concat"), ("dead row", "src/regex.rs: new_with_exprset, transition_inner")],
  ["StateID::is_dead","Regex::always_empty","Regex::transition"],
  [("relevance_cache","answers remembered across queries","src/relevance.rs"),("sym_deriv","symbolic derivatives remembered across queries","src/relevance.rs")])

p("C03", "Next-byte hints are sound whenever they are asked for",
  "At any moment of any session, a hint that a single byte is forced means that no other byte leads to a live state and the consumed bytes are not themselves a match; a hint that end of input is forced means the consumed bytes match and every byte leads to the dead state; the dead hint is given for the dead state and for no other. The hint for a given state never changes, whatever other sessions did between the queries and whether or not it was asked before.",
  ["schedules","histories","inputs"],
  "all expressions, all reachable states, all orders of hint queries, transitions, accept queries and clones",
  "the next_byte test follows three patterns along one path each and never asks twice, after growth, on a clone, or for a byte whose class was merged by alphabet compression",
  ["src/nextbyte.rs","src/regex.rs","src/bytecompress.rs"],
  [("hint computation and cache", "src/nextbyte.rs: next_byte, next_byte_simple"), ("mapping of a symbol back to its only byte", "src/regex.rs: next_byte, AlphabetInfo::inv_map")],
  ["Regex::next_byte","raw::NextByteCache::next_byte"],
  [("state_descs.next_byte","memoised hint","src/regex.rs")])

p("C04", "Lookahead length is the shortest lookahead split, at every instant",
  "For a regex of the form A(?P<stop>B) or an alternation of such, at any instant of any session the reported lookahead length is present if and only if the consumed bytes match, and it is then the smallest |b| over all splits of the consumed bytes into a followed by b with a matched by A and b a match of B none of whose proper prefixes is a match of B. For a regex without lookahead it is 0 exactly when the consumed bytes match.",
  ["schedules","histories","inputs"],
  "all A, B without lookarounds and alternations of such pairs; all inputs including lookaheads of hundreds of bytes; sessions interleaved, resumed, forked and recovered by replay",
  "test_lookaround tries four patterns and a dozen short strings from the initial state of a fresh regex; overlapping splits with several candidate lengths, long lookaheads and shared automata are not sampled",
  ["src/ast.rs","src/deriv.rs","src/simplify.rs","src/regex.rs"],
  [("offset carried in the lookahead node", "src/deriv.rs: Lookahead case"), ("keeping the smallest offset when merging", "src/simplify.rs: mk_or, mk_lookahead"), ("extraction", "src/ast.rs: lookahead_len; src/regex.rs: lookahead_len_for_state")],
  ["Regex::lookahead_len","Regex::lookahead_len_bytes","Regex::lookahead_len_for_state"],
  [("state_descs.lookahead_len","memoised length","src/regex.rs")])

p("C05", "Memoised answers are transparent: losing any of them changes nothing",
  "Every answer of a compiled regex (next state id, accepting, lookahead length, hint, dead or alive, always-empty) is the same whether it is computed cold, served from memory, or recomputed after any subset of remembered results was lost at any point, and whatever hash seeds and hash collisions the process runs with. In particular the same state and byte always give the same state id, an id always stands for the same residual language, and no id is ever reused for another.",
  ["schedules","histories","fault_sequences","inputs"],
  "all sequences of session steps with cache loss (derivatives, relevance, symbolic derivatives, hints, transition rows, state descriptors) injected between any two of them, including rare runs with more than 65,536 states",
  "no test can make a cache forget, force two vectors onto one hash, or look at the same state twice through a warm and a cold path; every test builds a fresh regex and walks forward",
  ["src/regex.rs","src/deriv.rs","src/relevance.rs","src/nextbyte.rs","src/hashcons.rs"],
  [("transition memo", "src/regex.rs: transition"), ("cache keys", "src/deriv.rs: derivative (expression, byte); src/ast.rs: map"), ("unique ids", "src/hashcons.rs: finish_insert")],
  ["Regex::transition","Regex::is_accepting","Regex::next_byte","Regex::lookahead_len_for_state"],
  [("state_table","transition memo","src/regex.rs"),("deriv.state_table","derivative memo","src/deriv.rs"),("relevance_cache, sym_deriv","relevance memo","src/relevance.rs")],
  "cfg(derivre_sim): retain-predicates that drop remembered results; a mask on the interning hash")

p("C06", "Clones and compiled regexes are isolated snapshots",
  "A clone of a regex or of a builder taken at any moment behaves from then on like the original at that moment, and nothing done afterwards to either is observable in the other: state ids held at the fork stay valid in both with the same meaning, and each returns exactly what it would have returned had the other never existed. A regex compiled from a builder is unaffected by anything the builder does later, and compiling does not change the builder.",
  ["schedules","histories"],
  "all fork points in all histories, chains of clones, divergent continuations interleaved on both sides, originals dropped before or after their clones, threads swapped between steps",
  "no test clones a Regex or a RegexBuilder, or keeps using a builder after compiling from it and then looks at the compiled regex again",
  ["src/regex.rs","src/regexbuilder.rs","src/ast.rs","src/hashcons.rs"],
  [("deep clone of all tables", "derive(Clone) on Regex, ExprSet, VecHashCons, caches"), ("compilation copies the expression set", "src/regex.rs: AlphabetInfo::from_exprset; src/regexbuilder.rs: to_regex_limited(&self)")],
  ["Regex::clone","RegexBuilder::clone","RegexBuilder::to_regex"])

p("C07", "Expression handles keep denoting the language they were built with",
  "Throughout any history of builder operations (combining earlier handles with and/or/not/concat/repeat/prefixes, literals, bytes, byte sets, regex strings under changing parser flags, containment and JSON-quoting requests, compilations in between), every handle ever returned denotes exactly the language its construction specifies from its operands, its nullability query answers whether that language contains the empty string, and building equal things again gives a handle of the same language. Changing a parser flag affects only regex strings added afterwards.",
  ["histories","schedules","inputs","programs"],
  "all programs over the builder API, several clients interleaved on one builder, arbitrary sharing of subexpressions, alternations of many keywords with shared prefixes (more than 100 deep), Unicode classes met repeatedly under different flags",
  "the tests build at most three expressions per builder and compile once; simplification rules (trie factoring, byte merging, flattening, double negation, empty/any-string absorption) are exercised only where a fixed pattern happens to hit them",
  ["src/simplify.rs","src/regexbuilder.rs","src/syntax.rs","src/ast.rs","src/hashcons.rs"],
  [("rewrite rules", "src/simplify.rs: mk_or, or_optimized, trie_rec, mk_and, mk_concat, mk_not, mk_repeat, mk_prefixes"), ("Unicode class cache", "src/syntax.rs: handle_unicode_ranges"), ("AST translation", "src/regexbuilder.rs: mk; src/mapper.rs: map_ast")],
  ["RegexBuilder::mk","RegexBuilder::mk_regex","RegexBuilder::is_nullable","RegexBuilder::to_regex"],
  [("exprset","interned expressions shared by all handles","src/ast.rs"),("unicode_cache","memoised classes","src/ast.rs"),("optimize","switched off and on again around factoring","src/simplify.rs")])

p("C08", "A refused request is an error and leaves no trace",
  "A request the library cannot serve (syntax error, unsupported lookaround or anchor position, invalid or unknown handle, byte set of the wrong length, JSON-quoting of an expression containing and/not/prefixes, an unknown escape in the quoting options, an error returned by a caller's mapping callback) is answered with an error, at whatever depth of a larger request it occurs. After any number of refusals at any points of a history, every handle and compiled regex still means what it meant, later valid requests succeed, and all later results are those of a history in which the refused requests had never been made.",
  ["histories","fault_sequences","inputs"],
  "refusals of every kind injected at every position of builder histories, inside nested requests, between the steps of other clients",
  "no test submits a request that must be refused except one fuel exhaustion, and none looks at anything after a refusal",
  ["src/regexbuilder.rs","src/syntax.rs","src/mapper.rs"],
  [("validation before use", "src/regexbuilder.rs: mk (ensure), json_quote (ensure, error)"), ("error propagation", "src/mapper.rs: map_ast; src/syntax.rs: from_ast, parse_expr")],
  ["RegexBuilder::mk","RegexBuilder::mk_regex","RegexBuilder::json_quote","map_ast"])

p("C09", "Running out of relevance fuel never yields a wrong answer",
  "With any fuel limit, a compilation, containment query or non-emptiness query either fails with an error or gives exactly the answer it gives with unlimited fuel; it fails only if the work done really exceeded the limit, it is monotone (if it succeeds with some limit it succeeds with every larger one), and unlimited fuel never fails. An exhausted query leaves nothing wrong behind: repeating it on the same caches or builder with growing limits succeeds within a bounded number of attempts, and every answer given later, for this or any other expression, is correct.",
  ["fault_sequences","histories","inputs"],
  "all fuel limits between zero and the cost of the query, i.e. every wave boundary of the search; sequences of exhausted and successful queries on shared caches over related expressions",
  "one pattern pair is tried with one small and one large limit on fresh builders; interrupting the search at its other boundaries and reusing what it left behind is not tested",
  ["src/relevance.rs","src/regex.rs","src/regexbuilder.rs"],
  [("fuel test at wave boundaries", "src/relevance.rs: is_non_empty_limited"), ("what is remembered on success only", "src/relevance.rs: relevance_cache insertions")],
  ["RegexBuilder::to_regex_limited","RegexBuilder::is_contained_in","raw::RelevanceCache::is_non_empty_limited"],
  [("relevance_cache","may be consulted after an exhausted query","src/relevance.rs")])

p("C10", "Containment verdicts are exact in any query history",
  "A containment query between two patterns or expressions that is given enough fuel answers yes if and only if every string matched by the first is matched by the second, independently of which other queries, compilations and exhausted attempts the same builder has served before. Answers are mutually consistent: containment is reflexive, transitive, and contained both ways only for equal languages.",
  ["histories","inputs","fault_sequences"],
  "all pairs of expressions, all orders and repetitions of queries on one builder, exhausted attempts in between",
  "tests/emptiness.rs checks some thirty fixed pairs, each on a fresh builder",
  ["src/relevance.rs","src/regexbuilder.rs","src/simplify.rs"],
  [("emptiness of the difference", "src/regexbuilder.rs: contained_in, mk_contained_in, is_contained_in"), ("symbolic derivatives of and/not", "src/relevance.rs: deriv, make_disjoint")],
  ["RegexBuilder::is_contained_in","RegexBuilder::mk_contained_in_ast","Regex::always_empty"])

p("C11", "A history determines every observable result",
  "Two executions of the same sequence of API calls give identical results in everything observable: expression handles, state ids, verdicts, hints, errors, costs, memory estimates, statistics, printed forms and exported tables. Hash seeds, memory addresses, the threads the calls are made from, and activity on unrelated builders and regexes in the same process make no difference.",
  ["schedules","histories","configurations"],
  "all histories executed under different hash seeds, with and without unrelated interleaved activity, with calls moved between threads, in different processes",
  "each test runs once and asserts verdicts only; no test compares two executions, and the per-process hash seeds are out of the tests' control",
  ["src/hashcons.rs","src/ast.rs","src/deriv.rs","src/relevance.rs","src/bytecompress.rs","src/regex.rs"],
  [("ids handed out in insertion order", "src/hashcons.rs: finish_insert"), ("randomised maps are looked up, never iterated for results", "src/deriv.rs, src/relevance.rs, src/bytecompress.rs, src/pp.rs"), ("deterministic cost accounting", "src/simplify.rs: pay")],
  ["ExprRef::as_u32","StateID::as_u32","Regex::cost","Regex::stats","Regex::dfa","Regex::num_bytes"])

p("C12", "Explored ground costs nothing more, however long the input",
  "Stepping a session over transitions that some session has already taken on that regex, or repeating a query, performs no new derivation work and grows nothing: the reported cost, memory estimate, state count and transition count stay as they were, for inputs of any length. Reported cost never decreases, and after remembered results are lost the work resumes only until the ground has been walked once more.",
  ["schedules","histories","inputs","fault_sequences"],
  "all orders in which sessions explore and re-walk an automaton, long inputs, loss of caches followed by re-walking",
  "no test looks at cost, memory or transition counts except by printing them",
  ["src/regex.rs","src/deriv.rs","src/ast.rs","src/hashcons.rs"],
  [("transition memo", "src/regex.rs: transition"), ("expression map cache", "src/ast.rs: map"), ("state reuse", "src/regex.rs: insert_state")],
  ["Regex::cost","Regex::num_bytes","Regex::stats"],
  [("num_transitions","transitions computed","src/regex.rs")])

p("C13", "An exported transition table agrees with the engine it came from",
  "The table exported from a regex at any moment of its life is complete, and following it from the initial state over any bytes gives at each step exactly the state id the engine gives, before and after the export, in the original and in its clones. Exporting does not change any answer of the regex.",
  ["schedules","histories","inputs"],
  "exports taken at any point of interleaved sessions, all inputs followed through the table and the engine in lock-step, all alphabets",
  "utf8_dfa exports one table from a fresh regex and prints it",
  ["src/regex.rs"],
  [("closure over designated bytes", "src/regex.rs: dfa"), ("row layout", "src/regex.rs: AlphabetInfo::map_state, append_state")],
  ["Regex::dfa","Regex::transition","Regex::alpha"])

p("C14", "The interning table is a faithful, stable bijection",
  "Under any interleaving of one-shot and incremental insertions, lookups, growth and cloning, and with any hash collisions, inserting a vector returns the same id as every earlier insertion of an equal vector and a fresh id otherwise; ids are consecutive from zero in order of first insertion, reading an id back gives exactly the inserted vector for ever, and the reported length and validity of ids agree. Misuse that is documented to panic leaves the table as it was.",
  ["histories","schedules","fault_sequences","inputs"],
  "all histories over the table API with vectors of any length including empty, near-duplicates (common prefixes, permutations, one word apart), forced hash collisions, clones, refused double starts",
  "the table has no test of its own; other tests reach it with whatever expressions they build and never collide",
  ["src/hashcons.rs"],
  [("insertion", "src/hashcons.rs: start_insert, push_u32, push_slice, finish_insert"), ("equality behind the hash", "src/hashcons.rs: finish_insert (eq)")],
  ["raw::VecHashCons::insert","raw::VecHashCons::get","raw::VecHashCons::len","raw::VecHashCons::is_valid"],
  [("curr_elt","vector under construction","src/hashcons.rs")],
  "cfg(derivre_sim): a mask on the interning hash")

p("C15", "A JSON-quoted regex accepts exactly the permitted quotings of its strings",
  "For an expression whose language is a set of UTF-8 strings, a stream is accepted by the JSON-quoted regex only if it is a well-formed JSON string body (with the surrounding quotes when raw mode is off) that uses only the allowed escapes, contains no bare control character, quote, backslash or DEL, and un-escapes to a string of the original language. Conversely every string of the language is accepted under every choice, made independently for each character, between the bare character where legal, its allowed short escape, and (if \\u is allowed) \\u00XX for control characters in either letter case and \\u007F for DEL; this holds whatever else, quoted with whatever options, the same builder has served before and wherever the stream is cut or corrupted.",
  ["inputs","histories","fault_sequences"],
  "all expressions without and/not/prefixes/lookahead, all option sets, all streams produced by an encoder that chooses an escape per character, cut, flipped, duplicated or truncated anywhere; quoting requests with different options interleaved on one builder",
  "the JSON tests use six patterns, two option sets and single-character strings, fault-free and each on an almost fresh builder",
  ["src/regexbuilder.rs"],
  [("byte-set quoting", "src/regexbuilder.rs: json_quote, quote_byteset, quote_all_ctrl, single_quote_byteset"), ("option validation", "src/regexbuilder.rs: JsonQuoteOptions")],
  ["RegexBuilder::json_quote","Regex::is_match_bytes"])

p("C16", "Deep nesting is processed on a small call stack",
  "Building, quoting as a JSON string, compiling, matching, testing for emptiness, hinting and printing (with the default length limit) of expressions nested many thousands of levels deep, assembled step by step through handles or handed over as one tree, works on a thread whose call stack is small (512 KiB) and gives the right answers. It neither overflows the stack nor fails where it would not for a shallow expression of the same kind.",
  ["inputs","fault_sequences","histories"],
  "all nesting shapes (concat/or/and/not/repeat/prefixes towers and mixtures) up to tens of thousands of levels, executed on stacks shrunk by the simulator",
  "no test nests deeper than a handful of levels or bounds the stack",
  ["src/ast.rs","src/bytecompress.rs","src/relevance.rs","src/nextbyte.rs","src/pp.rs","src/mapper.rs"],
  [("explicit work lists instead of recursion", "src/ast.rs: map; src/bytecompress.rs: map_expr; src/mapper.rs: map_ast; src/relevance.rs: mark_relevant"), ("bounded recursion", "src/simplify.rs: trie_rec; src/pp.rs: max_len")],
  ["RegexBuilder::mk","RegexBuilder::to_regex","Regex::transition","ExprSet::expr_to_string"])

p("C17", "Several patterns compiled together stay independent under shared caches",
  "When several expressions are compiled together over one compressed alphabet and driven through the component interface (derivative, relevance, hint and lookahead queries on one shared expression set, with caches of any age, shared or separate, emptied at any time), the residual of each expression after any bytes accepts exactly what that expression alone accepts after those bytes, is non-empty exactly when a continuation exists, and gives sound hints. Bytes mapped to one symbol are indistinguishable to every one of the expressions, and a symbol maps back to a byte only if that byte is its only member.",
  ["schedules","histories","inputs","fault_sequences"],
  "all sets of 1 to 8 root expressions, all schedules of per-root steps, cache replacement between any two of them, more than 64 distinct byte sets, more than 32 symbols, all 256 bytes distinguished",
  "no test compiles more than one root or calls the component interface at all",
  ["src/bytecompress.rs","src/regex.rs","src/deriv.rs","src/relevance.rs","src/nextbyte.rs"],
  [("joint alphabet compression", "src/bytecompress.rs: compress, compress_bytesets; src/regex.rs: AlphabetInfo::from_exprset"), ("cache keys", "src/deriv.rs, src/relevance.rs, src/nextbyte.rs")],
  ["AlphabetInfo::from_exprset","raw::DerivCache::derivative","raw::RelevanceCache::is_non_empty","raw::NextByteCache::next_byte","raw::ExprSet::is_nullable"])

p("C18", "Printed forms of expressions are bounded and never fail",
  "Printing an expression, AST or regex with a length limit returns a string not much longer than the limit and never panics. The printed form distinguishes the constructors it shows.",
  ["inputs"], "all expressions and limits",
  "tests print a few expressions without looking at the result",
  ["src/pp.rs","src/regexbuilder.rs"], [("length limit", "src/pp.rs: write_expr; src/regexbuilder.rs: write_to_str")], ["ExprSet::expr_to_string_max_len","RegexAst::write_to_str"])

p("C19", "Next-byte hints combine as a lattice",
  "Combining two hints conjunctively or disjunctively is commutative, associative and idempotent, with the dead hint as the least and the some-bytes hint as the greatest element.",
  ["inputs"], "all pairs and triples of hint values",
  "not tested",
  ["src/ast.rs"], [("BitAnd, BitOr", "src/ast.rs: impl for NextByte")], ["NextByte"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
