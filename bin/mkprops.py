import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=hook)))
p("C01","A compiled expression matches exactly the language it denotes",
 "For every expression assembled through the builder from bytes, byte sets, literals, empty string, no-match, concatenation, union, intersection, complement, bounded and unbounded repetition and references to earlier expressions, the compiled matcher accepts a byte string if and only if the string is in the denoted language. This holds for every byte string of any length, valid UTF-8 or not, and whatever the nesting, order or duplication of operands. Stepping byte by byte, stepping by slices and whole-string matching give the same answer.",
 ["inputs","programs"],"for all expressions e over the builder operators, for all byte strings w: is_match_bytes(compile(e), w) <=> w in L(e)",
 "Tests try about a hundred hand-picked strings on some thirty patterns, never the complement, intersection or byte-literal operators with explicit words; rewriting rules and derivatives must be right for every operator combination and word length.",
 ["src/simplify.rs","src/deriv.rs","src/regex.rs","src/regexbuilder.rs","src/ast.rs"],
 [("rewriting constructors mk_*","src/simplify.rs"),("Brzozowski derivative with memoisation","src/deriv.rs"),("lazy state table","src/regex.rs transition/transition_inner"),("nullable flag computed bottom up","src/simplify.rs, src/ast.rs")],
 ["Regex::is_match_bytes","Regex::transition","Regex::transition_bytes","Regex::is_accepting"],
 [("exprs","hash-consed expression nodes with flags","src/ast.rs ExprSet"),("state_table","memoised transitions","src/regex.rs Regex")])
p("C02","Regex-syntax patterns match exactly the text they denote, anchored at both ends",
 "A pattern written in regex syntax (literals, classes, Unicode classes, dot, groups, alternation, greedy or lazy counted repetition, case-insensitive / dot-all / Unicode / byte-mode / verbose flags, and ^ or $ at the edges) compiles to a matcher that accepts exactly the byte strings that, taken as a whole, the pattern matches: characters are matched through their exact UTF-8 encoding, so in UTF-8 mode overlong forms, surrogates, truncated sequences and stray bytes never match. A ^ or $ never changes its meaning: the pattern either compiles to the language in which it holds only at the start or end of the whole text, or is refused; patterns without look-around, or with ^ / $ only at the outer edges, are accepted. The parser flags set on the builder govern the patterns parsed after they are set.",
 ["inputs","programs","configurations"],"for all patterns p accepted by the parser, all flag settings, all byte strings w: match(p,w) <=> w is an encoding of a text fully matched by p",
 "The suite checks fowler-basic plus a few Unicode classes on ASCII-heavy haystacks; it cannot cover all class ranges, code points, byte sequences, anchor positions and flag combinations.",
 ["src/syntax.rs","src/regexbuilder.rs","src/regex.rs"],
 [("translation of parser HIR to expressions","src/syntax.rs from_ast"),("UTF-8 range trie and its cache","src/syntax.rs handle_unicode_ranges"),("anchor admission by position","src/syntax.rs allow_start/allow_end"),("flag forwarding","src/regexbuilder.rs")],
 ["Regex::new","Regex::new_with_parser","RegexBuilder::mk_regex","Regex::is_match_bytes"])
p("C03","Trailing lookahead: same acceptance and shortest lookahead length",
 "For an expression A followed by a trailing lookahead B, a text is accepted if and only if it splits into a part matching A and a rest that matches B while no proper prefix of that rest matches B; the reported lookahead length is the length of the shortest such rest. An accepting state of an expression without lookahead reports length 0, a non-accepting state reports none, and acceptance, per-state and whole-text queries agree. At the level of expressions, the length given for an expression that accepts is that length too, and the possible look-ahead length is at least the distance back to the earliest point where a look-ahead that can still match may have begun (of several that go on alike, only the shortest counts), and never more than what was consumed.",
 ["inputs","programs"],"for all lookahead-free A, B and all byte strings w: lookahead_len(A(?P<stop>B), w) = min{|v| : w=uv, u in L(A), v in B-first-match} or None",
 "Five patterns and sixteen texts are tested; offsets and the choice between overlapping alternatives depend on the whole text and on how derivatives of both parts interleave.",
 ["src/simplify.rs","src/deriv.rs","src/ast.rs","src/regex.rs"],
 [("lookahead node with offset, incremented by derivative","src/deriv.rs"),("lookahead merge in unions keeps the smallest offset","src/simplify.rs mk_or"),("minimum over nullable lookaheads","src/ast.rs lookahead_len"),("per-state cache","src/regex.rs lookahead_len_for_state"),("maximum over look-aheads under way","src/ast.rs possible_lookahead_len")],
 ["Regex::lookahead_len","Regex::lookahead_len_bytes","Regex::lookahead_len_for_state","Regex::is_accepting","raw::ExprSet::lookahead_len","raw::ExprSet::possible_lookahead_len"])
p("C04","A state is dead exactly when no continuation can match",
 "While matching, the dead state is reported if and only if no continuation of the consumed input is accepted, and once dead it stays dead; in particular always_empty holds exactly when the expression's language is empty. This is true for every combination of operators, including intersection and complement, whatever the number of byte classes.",
 ["inputs","programs"],"for all expressions e and byte strings w: state(w) is dead <=> no v with wv in L(e)",
 "Emptiness is only tested for about ten intersections of simple patterns and never after consuming input; the symbolic derivative, its disjoint-partition step and the relevance cache must be right for all expressions and for all orders in which states are explored.",
 ["src/relevance.rs","src/simplify.rs","src/regex.rs","src/ast.rs"],
 [("symbolic derivatives over byte sets","src/relevance.rs deriv"),("breadth-first search for a surely non-empty expression","src/relevance.rs is_non_empty_limited"),("'positive' flag","src/simplify.rs"),("dead collapse","src/regex.rs transition_inner")],
 ["Regex::always_empty","StateID::is_dead","Regex::transition","Regex::initial_state"],
 [("relevance_cache","known (non-)emptiness of expressions","src/relevance.rs"),("sym_deriv","memoised symbolic derivatives","src/relevance.rs")])
p("C05","Containment answers are exact",
 "is_contained_in(small, big) answers true if and only if every byte string matched by small is matched by big, and the containment expression built from two patterns or two expression trees is empty exactly in that case. Containment is reflexive, transitive and unaffected by what the builder was used for before.",
 ["inputs","programs"],"for all pairs (small, big) of patterns/expressions: answer <=> L(small) subset of L(big)",
 "Some forty pairs are tested; the answer quantifies over all words of two infinite languages.",
 ["src/regexbuilder.rs","src/relevance.rs","src/simplify.rs"],
 [("containment as emptiness of small & ~big","src/regexbuilder.rs contained_in"),("negation over a disjoint partition of symbolic derivatives","src/relevance.rs make_disjoint")],
 ["RegexBuilder::is_contained_in","RegexBuilder::mk_contained_in","RegexBuilder::mk_contained_in_ast","Regex::always_empty"])
p("C06","A fuel limit can stop a question but never change its answer",
 "With any fuel limit, building a matcher or deciding containment or emptiness either returns the same answer as with unlimited fuel or an error, never a wrong answer and never a panic. If a limit suffices then every larger limit suffices, unlimited fuel always suffices, and a limit of zero is refused whenever the search needs more than one round of derivatives. A limit is spent by the question it was given to and by nothing else: what sufficed for a question still suffices after any other work on the same builder. An exhausted attempt leaves no trace: repeating the question on the same builder or the same emptiness cache with more fuel gives the exact answer.",
 ["inputs","fault_sequences","histories"],"for all expressions, all fuel limits and all sequences of limited and unlimited questions on shared caches",
 "One pattern at two limits is tested; where the fuel runs out relative to the search frontier, and what the caches contain at that point, varies with every limit.",
 ["src/relevance.rs","src/regexbuilder.rs","src/regex.rs","src/simplify.rs"],
 [("cost accounting pay()","src/simplify.rs"),("fuel test per wave","src/relevance.rs is_non_empty_limited"),("cache written only on a completed search","src/relevance.rs")],
 ["RegexBuilder::to_regex_limited","RegexBuilder::is_contained_in","raw::RelevanceCache::is_non_empty_limited"])
p("C07","Forced-byte, forced-end and forced-prefix answers are sound",
 "When a state is said to force byte b, every other byte and the end of input lead to failure; when it is said to force the end of input, it accepts and every byte leads to the dead state; when it is said to be dead, it is dead. Asking never changes the answer, and for an expression that is a single literal each byte and then the end is reported as forced. If an expression is said to start with a forced byte prefix, then every string it matches starts with that prefix. Two answers combined with & are a sound answer for the intersection, combined with | for the union.",
 ["inputs","programs"],"for all expressions, all reachable states and all 256 bytes",
 "Four patterns along a single path are tested; soundness speaks about the other 255 bytes in every reachable state, and depends on byte classes mapping back to one byte.",
 ["src/nextbyte.rs","src/regex.rs","src/ast.rs"],
 [("syntactic next-byte analysis with a cache","src/nextbyte.rs"),("byte class inversion only for singleton classes","src/regex.rs inv_mapping"),("lattice join of NextByte","src/ast.rs BitOr"),("has_simply_forced_bytes","src/ast.rs")],
 ["Regex::next_byte","raw::NextByteCache::next_byte","raw::ExprSet::has_simply_forced_bytes"])
p("C08","Answers do not depend on the history of queries",
 "The result of every query on a matcher depends only on its expression and the bytes consumed, not on which other states, bytes or queries were explored before, in which order, how often, or on which clone. Repeating a transition returns the same state identifier, identifiers stay valid for the life of the matcher and always stand for the same residual language, and work done on a clone, on the builder or on another matcher is invisible.",
 ["histories","schedules"],"for all interleavings of transition, acceptance, lookahead, next-byte, DFA-export and clone operations over several matchers and cursors",
 "Tests drive one cursor along one path per matcher, in one order; the caches (state table, state descriptions, derivative, relevance, next byte) can only be observed to leak through other orders.",
 ["src/regex.rs","src/deriv.rs","src/relevance.rs","src/nextbyte.rs","src/hashcons.rs"],
 [("lazily filled state table and state descriptions","src/regex.rs"),("hash-consed state set","src/regex.rs insert_state"),("derivative / relevance / next-byte caches","src/deriv.rs, src/relevance.rs, src/nextbyte.rs")],
 ["Regex::transition","Regex::lookahead_len_for_state","Regex::next_byte","Regex::clone"],
 [("state_table","(state,class) -> state, MISSING when not computed","src/regex.rs"),("state_descs","cached lookahead length and next byte per state","src/regex.rs")])
p("C09","JSON quoting accepts exactly the permitted escapes of the original language",
 "The JSON-quoted form of an expression accepts a string if and only if it decodes, escape by escape, to a string the original expression matches, where: a control character below 0x20 is written only as its short escape (\\b \\f \\n \\r \\t) or as \\u00XX with hex digits of either case; quote and backslash only as \\\" and \\\\; DEL only as \\u007F; every other byte only as itself; and each escape form only if its letter is among the allowed escapes. Unless raw mode is set the whole is surrounded by double quotes. Unknown escape letters and expressions containing intersection, complement or prefixes are refused with an error.",
 ["inputs","programs","configurations"],"for all expressions, all subsets of the eight escape letters, raw mode on or off, all byte strings",
 "Two option sets, a handful of classes and a dozen strings are tested; the quoting code has separate paths for 'all controls', 'all but newline' and partial sets, for single bytes and for byte sets.",
 ["src/regexbuilder.rs"],
 [("per-node rewriting of bytes and byte sets","src/regexbuilder.rs json_quote / quote_byteset / quote_all_ctrl")],
 ["RegexBuilder::json_quote","JsonQuoteOptions"])
p("C10","Byte classes merge only bytes that no state can tell apart",
 "In a compiled matcher, two bytes mapped to the same byte class lead to the same state from every state; every class number is below the reported number of classes; and the inverse of a class is given only when exactly one byte maps to it, and then it is that byte. Compiling with and without the byte-compression feature yields the same acceptance, dead-state and lookahead answers for every expression, for any number of byte classes from 1 to 256.",
 ["inputs","programs","configurations"],"for all expressions (including those with more than 64 byte sets or with 1..256 distinguishable bytes), all bytes, both feature settings",
 "The configuration without compression is never tested; class computation has separate code for single bytes, up to 64 byte sets and more, with an 8-bit class number that has to hold 256 classes.",
 ["src/bytecompress.rs","src/regex.rs"],
 [("equivalence classes from byte-set membership vectors","src/bytecompress.rs"),("mapping and inverse mapping","src/regex.rs AlphabetInfo")],
 ["AlphabetInfo::map","AlphabetInfo::inv_map","AlphabetInfo::len","AlphabetInfo::map_state","Regex::transition"])
p("C11","Hash-consing stores each vector once, for ever, under one dense id",
 "Inserting a vector of words, in one call or incrementally in any chunking, returns an id that is equal for equal vectors and different for different ones; ids are dense from 0 in order of first insertion, and the length is the number of distinct vectors. The contents read back under an id are, at any later time and in any clone, exactly the vector inserted, including the empty vector, and an id is valid exactly if it is below the length. Inserting into a clone does not affect the original.",
 ["histories","inputs"],"for all sequences of insert / start / push word / push slice / finish / get / clone operations",
 "There is no direct test; a collision, boundary or growth error shows only for particular sequences of sizes.",
 ["src/hashcons.rs"],
 [("append-only backing store with (start,end) elements","src/hashcons.rs"),("hash table over element contents","src/hashcons.rs finish_insert"),("rollback of a duplicate by reusing the write position","src/hashcons.rs")],
 ["raw::VecHashCons::insert","raw::VecHashCons::finish_insert","raw::VecHashCons::get","raw::VecHashCons::len"],
 [("backing, elements, curr_elt","stored words, element extents, element being written","src/hashcons.rs")])
p("C12","Derivatives, nullability and emptiness on expressions agree with the language",
 "On the raw expression level, the derivative of an expression by a byte denotes exactly the strings that, prefixed by that byte, the expression matches; the nullable query is true exactly when the empty string matches; the non-emptiness query is true exactly when some string matches. This holds for every expression reached, in the original 256-byte alphabet and in a compressed alphabet shared by several expressions compiled together, and with one derivative and one emptiness cache used for all of them in any order.",
 ["inputs","programs","histories"],"for all expressions, bytes, groups of expressions sharing one alphabet and caches, and query orders",
 "The raw interface has no tests at all; it is what an embedding lexer uses.",
 ["src/deriv.rs","src/relevance.rs","src/regex.rs","src/ast.rs","src/bytecompress.rs"],
 [("derivative","src/deriv.rs"),("nullable flag","src/ast.rs"),("AlphabetInfo::from_exprset over several roots","src/regex.rs"),("RelevanceCache","src/relevance.rs")],
 ["raw::DerivCache::derivative","raw::ExprSet::is_nullable","RegexBuilder::is_nullable","raw::RelevanceCache::is_non_empty","AlphabetInfo::from_exprset"])
p("C13","Large alternations of sequences match exactly their members",
 "An alternation of any number of literals or of sequences with shared beginnings, in any order, with duplicates, with members that are prefixes of others and with shared prefixes of any length, accepts exactly the strings of its members. Each proper prefix of a member leads to a live state and each string that is not a prefix of any member leads to the dead state.",
 ["inputs","programs"],"for all finite sets of literals / sequences, including hundreds of members and shared prefixes longer than the factoring depth limit",
 "Tests try three alternations of at most six words; prefix factoring recurses per shared prefix and switches strategy at a depth no test reaches.",
 ["src/simplify.rs"],
 [("prefix trie factoring","src/simplify.rs or_optimized / trie_rec"),("depth limit fallback","src/simplify.rs trie_rec")],
 ["RegexBuilder::mk","Regex::is_match_bytes","Regex::transition"])
p("C14","The prefix operator denotes exactly the prefixes of its operand's words",
 "Prefixes(R) accepts a string if and only if the string can be extended to a string matched by R, for every expression R including intersections and complements; in particular it matches the empty string exactly when R matches anything at all. It is idempotent and composes with the other operators.",
 ["inputs","programs"],"for all expressions R and byte strings w: w in Prefixes(R) <=> exists v: wv in L(R)",
 "Only containment between prefixes of a JSON pattern and a few simple patterns is tested; whether a prefix is in the language asks for emptiness of the residual expression.",
 ["src/simplify.rs","src/deriv.rs","src/relevance.rs"],
 [("mk_prefixes and its flags","src/simplify.rs"),("derivative under Prefixes","src/deriv.rs, src/relevance.rs")],
 ["RegexAst::Prefixes","Regex::is_match_bytes"])
p("C15","The exported DFA table is the automaton",
 "The exported table consists of the byte-to-class map followed by one row per state, and following it from the initial state's number gives, for every byte string, the number of the state that stepping the matcher gives, with the dead state absorbing. It is complete: no entry stands for a transition that has not been computed, whatever was explored before the export, and exporting changes no later answer.",
 ["inputs","histories"],"for all expressions with fewer than 250 states and all exploration histories before the export",
 "One export is printed and not compared to anything.",
 ["src/regex.rs"],
 [("exhaustive exploration by one representative byte per class","src/regex.rs dfa"),("absorbing DEAD and MISSING rows","src/regex.rs new_with_exprset")],
 ["Regex::dfa","Regex::alpha","StateID::as_u32"])
p("C16","What cannot be built is refused with an error and harms nothing",
 "Building from a syntax tree or pattern that is not supported or not valid - a reference to an expression that does not exist, a byte set of the wrong size, look-around assertions such as word boundaries or inner anchors, patterns the parser rejects, unknown escape letters - returns an error and does not panic. After such an error the builder still gives exact results for everything built before and after it, and references handed out earlier keep their meaning.",
 ["inputs","fault_sequences","histories"],"for all syntax trees containing an invalid part at any position, interleaved with valid builds on the same builder",
 "No test builds anything invalid and continues.",
 ["src/regexbuilder.rs","src/syntax.rs","src/mapper.rs"],
 [("validation in the tree fold","src/regexbuilder.rs mk"),("HIR rejection","src/syntax.rs from_ast"),("escape validation","src/regexbuilder.rs json_quote")],
 ["RegexBuilder::mk","RegexBuilder::mk_regex","RegexBuilder::json_quote"])
p("C17","Deep and wide expressions are processed without exhausting the stack",
 "Building, compiling, matching, and deciding emptiness work on expressions nested tens of thousands of levels deep, or with tens of thousands of operands, on an ordinary thread stack, and the answers are exact. The tree fold visits every node exactly once, children before parents and left to right, hands each parent its children's results in order, and stops at the first error.",
 ["inputs","programs"],"for all nesting depths and widths up to the tested bounds, all tree shapes",
 "The deepest expression in the tests has about ten levels.",
 ["src/mapper.rs","src/ast.rs","src/bytecompress.rs","src/simplify.rs"],
 [("explicit stacks instead of recursion","src/mapper.rs map_ast, src/ast.rs map, src/bytecompress.rs map_expr"),("recursion limit in prefix factoring","src/simplify.rs trie_rec")],
 ["map_ast","RegexBuilder::mk","RegexBuilder::to_regex","Regex::is_match_bytes"])
p("C18","Same history, same answers: results depend on nothing else",
 "What a call returns is determined by the calls made before on the same object (a builder, an expression set with its caches, a matcher; a clone has the history of its origin up to the cloning, a matcher that of its builder, and calls that only read add nothing). Making the same calls again - on a fresh object, on a clone while or after its origin goes on differently, in another thread or another process, with reading calls or work on other objects in between - gives the same expression numbers, state numbers, exported tables, byte classes, costs, limit verdicts, errors and rendered texts.",
 ["histories","schedules"],"for all sequences of calls, all ways of repeating them on fresh or cloned objects, and all work on other objects meanwhile",
 "Each test runs one history once on one object; a dependence on hash order, on shared or global state or on a clone's origin shows only when the same history is repeated elsewhere.",
 ["src/regexbuilder.rs","src/regex.rs","src/ast.rs","src/relevance.rs","src/simplify.rs","src/bytecompress.rs","src/syntax.rs"],
 [("every object owns its tables, caches and cost account; cloning copies them","src/regexbuilder.rs, src/regex.rs, src/ast.rs"),("hash maps are used for look-ups only, results are built in order of expression numbers","src/simplify.rs, src/relevance.rs, src/bytecompress.rs"),("to_regex works on a copy of the builder's expressions","src/regex.rs new_with_exprset")],
 ["RegexBuilder::mk","RegexBuilder::to_regex_limited","Regex::transition","Regex::dfa","Regex::cost","Regex::clone","raw::ExprSet::cost","AlphabetInfo::from_exprset"])
p("C19","Every matcher is a finite automaton and comes to rest once explored",
 "Stepping a matcher of an expression without look-ahead reaches only finitely many states, however many bytes are consumed: exploring every byte from every state ends, and with no more states than a small multiple of the number of distinct residuals of the expression (its derivatives, up to the set laws of union and intersection). Once all states and transitions have been visited and asked about, further stepping and asking reaches no new state and changes neither the number of expressions, derivatives, states and transitions it reports, nor its cost, nor its size.",
 ["inputs","histories"],"for all look-ahead-free expressions and all byte sequences",
 "Tests consume short texts; an automaton that keeps growing accepts them all the same.",
 ["src/simplify.rs","src/deriv.rs","src/regex.rs"],
 [("flattening, sorting and removal of duplicates in unions and intersections","src/simplify.rs mk_or, mk_and"),("derivative of counted repetitions","src/deriv.rs"),("one state per expression","src/regex.rs insert_state"),("state table filled in once","src/regex.rs transition")],
 ["Regex::transition","Regex::stats","Regex::cost","Regex::num_bytes","StateID::as_u32"])
p("C20","Byte sets combine as sets, each set is one expression",
 "In an expression set over an alphabet of two or more symbols, combining byte sets - single bytes, given sets and results of earlier combinations, as long as they are not empty - by union, intersection, difference, complement and complement of a union yields an expression that matches exactly the symbols of the combined set, within the alphabet and nothing beyond it, whatever the size of the alphabet. Two combinations yield the same expression exactly if the sets are equal: the empty set is no-match, the full set is any-byte. What an expression says about a symbol (matches it, surely does not, derivative) is exact and stays the same for ever and in clones.",
 ["inputs","histories"],"for all alphabets of 2 to 256 symbols, all sets and all sequences of combinations",
 "Tests use a handful of classes over the full 256-byte alphabet; the last word of an odd-sized alphabet is never at stake.",
 ["src/simplify.rs","src/ast.rs"],
 [("sets are vectors of words; complement clears the bits beyond the alphabet","src/simplify.rs mk_byte_set_or_core"),("empty and one-element sets have their own form","src/simplify.rs mk_byte_set"),("byte and set operands are combined case by case","src/simplify.rs mk_byte_set_and, mk_byte_set_sub"),("membership tests","src/ast.rs Expr::matches_byte, surely_no_match")],
 ["raw::ExprSet::mk_byte_set","raw::ExprSet::mk_byte_set_or","raw::ExprSet::mk_byte_set_neg_or","raw::ExprSet::mk_byte_set_and","raw::ExprSet::mk_byte_set_sub","raw::ExprSet::mk_byte_set_not"])
p("C21","A fold over shared expressions visits what is needed, once, operands first",
 "The fold over an expression of an expression set (simple_map and map) calls its function once for every distinct sub-expression that has no result yet and that is reached from the root through such sub-expressions, only after all operands have results, with exactly their results in the order of the operands, and returns the root's result. Results in a cache that is passed in are used and never computed again, new ones are added to it. When asked to look at concatenations only up to the first operand that does not match the empty string, exactly those operands count. The function may create further expressions meanwhile.",
 ["inputs","histories"],"for all expressions, however parts are shared, and all caches",
 "Derivatives, emptiness, quoting and compression all run on this fold; tests see only their end results on small trees.",
 ["src/ast.rs"],
 [("work list of expressions, retried once their operands have results","src/ast.rs ExprSet::map"),("results are kept under a key","src/ast.rs ExprSet::map"),("a cache for one fold","src/ast.rs ExprSet::simple_map")],
 ["raw::ExprSet::map","raw::ExprSet::simple_map"])
p("C22","A printed expression denotes the expression",
 "The text of an expression - in bytes, or in symbols s0, s1, ... together with the printed table that lists the bytes of every symbol - can be read in one way only and denotes exactly the language of the expression, over any alphabet: bytes and ranges in sets, operands and repetition bounds are those of the expression, and two different expressions of a set never have the same text. A text that fits the length limit is whole; one that does not begins like the whole text up to the mark for the part left out, stays close to the limit and closes its parentheses. Printing up to a limit never panics, however deep the expression, and changes nothing.",
 ["inputs","histories"],"for all expressions, alphabets, compressed alphabets and length limits",
 "Tests compare a few texts of small expressions; alphabets other than the full one, sets up to the last symbol, and cut-off texts are never printed.",
 ["src/pp.rs","src/ast.rs","src/bytecompress.rs"],
 [("printing by form of expression, cut off by length","src/pp.rs write_expr, write_exprs, write_concat"),("sets as ranges","src/pp.rs byteset_to_string, symbolset_to_string"),("table of symbols","src/pp.rs alphabet_info")],
 ["raw::ExprSet::expr_to_string","raw::ExprSet::expr_to_string_max_len","raw::ExprSet::expr_to_string_with_info","raw::ExprSet::pp","AlphabetInfo::from_exprset"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
