#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the texts stay reviewable)."""
import json, os
F = "src/metrics/fzf/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or ["Metric::distance", "Metric::distance_and_ranges"],
                          hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Parsing and matching never panic, abort, hang or corrupt the result",
  "For every query string (of any length and content, in either parse mode), every candidate string and every metric configuration, parsing and computing distances with or without ranges terminates normally, without a panic, abort, arithmetic overflow or hang. The Debug representations of parsers, queries, metrics and distances can also always be produced.",
  ["inputs", "configurations"], "all pairs of Unicode strings, both parse modes, V1 and V2, all 18 configurations, empty or pre-filled range buffers",
  "The suite runs a few dozen short strings; index arithmetic over fixed-size buffers (64 chars, 128 chars, 256 cells) and byte/char offset conversions depend on lengths and widths no test samples.",
  [F+"parser.rs", F+"slab.rs", F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", "src/candidate.rs"],
  [("buffers resized before use", F+"parser.rs FzfParser::parse; "+F+"slab.rs alloc"), ("char/byte conversion", "src/candidate.rs to_byte_offset/to_byte_range")],
  ["FzfParser::parse", "FzfParser::parse_not_extended", "Metric::distance", "Metric::distance_and_ranges", "Debug"])

p("C02", "A candidate is accepted exactly when it satisfies the search expression",
  "distance returns Some exactly when every AND-ed group of the query has at least one alternative the candidate satisfies: a plain term is satisfied by the candidates containing its characters in order, 'term by those containing it contiguously, ^term by those starting with it, term$ by those ending with it, ^term$ by those equal to it (surrounding spaces aside), and a term prefixed with ! by exactly the candidates not satisfying the contiguous form (!'term negates the fuzzy form). An empty query accepts every candidate. FzfV1 and FzfV2 accept exactly the same candidates.",
  ["inputs", "configurations"], "all queries of the extended and plain syntaxes, all candidates, all configurations, both metrics",
  "Tests fix a few (query, candidate) pairs per term kind; the decision must hold for every combination of term kinds, lengths, repeated letters, overlaps and spaces.",
  [F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", "src/candidate.rs", "src/utils.rs"],
  [("term dispatch and negation", F+"fzf.rs Fzf::score"), ("subsequence search", F+"fzf_v1.rs forward_pass, "+F+"fzf_v2.rs matches"), ("exact/prefix/suffix/equal", F+"fzf.rs *_match")])

p("C03", "The ranges buffer is append-only on a match and untouched otherwise",
  "When the candidate does not match, distance_and_ranges leaves the caller's buffer exactly as it was. When it matches, everything that was already in the buffer is preserved in place and the ranges appended are the same ones that would be appended to an empty buffer.",
  ["inputs", "histories", "configurations"], "all queries (several AND/OR terms included), candidates, and arbitrary prior buffer contents, also accumulated over many calls",
  "The documented contract is tested with an empty or one-element buffer; failures need a multi-term query failing late, or prior contents that interact with the merge of new ranges.",
  ["src/matched_ranges.rs", F+"fzf.rs"],
  [("initial length offset", "src/matched_ranges.rs From<&mut Vec>, insert"), ("roll-back on a non-match", F+"fzf.rs Fzf::distance")],
  state=[("initial_len", "how many ranges were in the buffer before the call", "src/matched_ranges.rs")])

p("C04", "Appended ranges are valid, sorted, disjoint, maximal slices of the candidate",
  "Every range appended by a match is non-empty, lies within the candidate and starts and ends on UTF-8 character boundaries. The ranges appended by one call never overlap or touch each other, so that slicing the candidate by them is always valid and each matched byte is reported once.",
  ["inputs", "configurations"], "all queries (including terms whose matches overlap, nest or abut), all candidates with characters of 1 to 4 bytes, all configurations",
  "Tests check ranges of hand-picked strings; merging depends on the order and overlap of matches of several terms, and byte offsets on the mix of char widths.",
  ["src/matched_ranges.rs", "src/candidate.rs", F+"fzf_v2.rs"],
  [("sorted insert with merge", "src/matched_ranges.rs insert"), ("char to byte offsets", "src/candidate.rs to_byte_range")],
  ["ranges appended by Metric::distance_and_ranges"])

p("C05", "Appended ranges cover exactly the characters that witness the match",
  "The characters covered by the ranges of a match are exactly the union, over the satisfied non-negated terms, of one witness each: for a fuzzy term a set of characters spelling the term in order, for an exact, prefix, suffix or equality term the contiguous occurrence it names. Negated terms and the empty query contribute no ranges; in particular for a single fuzzy term the covered characters, read in order, spell the term.",
  ["inputs", "configurations"], "all queries, candidates and configurations, both metrics, terms matched in any order and with any overlap",
  "Losing or adding a character needs particular overlaps between terms (nested, superset, bridging) or particular gap lengths in the alignment, none of which the tests contain.",
  ["src/matched_ranges.rs", F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs"],
  [("union of ranges", "src/matched_ranges.rs insert"), ("backtrace", F+"fzf_v2.rs matched_ranges"), ("range collection", F+"fzf.rs compute_score")],
  ["ranges appended by Metric::distance_and_ranges"])

p("C06", "Asking for ranges never changes the verdict or the distance",
  "For every query, candidate and configuration, distance and distance_and_ranges return the same value, whatever the contents of the ranges buffer. This holds whichever of the two is called first on a given metric.",
  ["inputs", "histories", "configurations"], "all queries, candidates, configurations, both metrics, any interleaving of the two calls, any buffer contents",
  "The two paths are separate monomorphisations with different code in several places; tests nearly always exercise only the one with ranges.",
  [F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", "src/metric.rs"],
  [("const generic RANGES", F+"fzf.rs"), ("trait contract", "src/metric.rs")])

p("C07", "A metric's answer depends only on its current configuration and arguments",
  "Whatever calls a metric has served before (of any sizes, with or without ranges, matching or not), its next answer equals that of a freshly created metric with the same settings, and a clone behaves like the original while remaining independent of it. Settings take effect for all following calls, the last value set wins, each setting is independent of the others, and the defaults are smart case, no normalization and the default scheme.",
  ["histories", "inputs", "configurations"], "all sequences of setter, clone, distance and distance_and_ranges calls on shared metrics",
  "Internal buffers are reused between calls without being rebuilt; a stale cell shows only after a specific larger or differently shaped earlier call.",
  [F+"slab.rs", F+"candidate.rs", F+"fzf_v1.rs", F+"fzf_v2.rs"],
  [("buffers reset on alloc", F+"slab.rs BonusSlab::alloc, MatrixSlab::alloc, CandidateSlab::alloc, MatchedIndicesSlab::alloc"), ("setters", F+"fzf_v1.rs, "+F+"fzf_v2.rs")],
  state=[("slabs", "scratch memory shared by successive calls", F+"slab.rs")])

p("C08", "A parser's output depends only on the string and mode it is given",
  "Parsing a string with a parser that has already parsed any number of other strings, of any length and in either mode, or with a clone of it, yields a query that behaves identically to one produced by a fresh parser. Queries are plain values: copies behave alike, and one query can be used with any number of metrics and candidates.",
  ["histories", "inputs"], "all sequences of parse, parse_not_extended and clone on shared parsers, with queries of every length around and beyond the initial buffer sizes",
  "The char, pattern and condition buffers are reused; tests always parse one short string with a fresh parser.",
  [F+"parser.rs", F+"query.rs"],
  [("buffer reuse", F+"parser.rs FzfParser::parse, parse_not_extended"), ("word splitting", F+"parser.rs Words")],
  ["FzfParser::parse", "FzfParser::parse_not_extended", "distances of the parsed query"],
  state=[("chars, patterns, conditions", "scratch memory holding the last parsed query", F+"parser.rs")])

p("C09", "V1 reports the first match, shortened from its end, with fzf's score",
  "For a single fuzzy term, FzfV1 selects the match ending at the earliest position where the query is complete and starting at the latest position that still completes it there, and aligns the query greedily from that start. Its score is the sum of fzf's published terms for that alignment: 16 per character, boundary, camel-case and consecutive bonuses (doubled for the first query character), minus 3 for each gap's first character and 1 for each following one.",
  ["inputs", "configurations"], "all single fuzzy terms, candidates and configurations",
  "Tests pin a score for about forty pairs; the formula must hold for all gap lengths, class sequences, repeated letters and candidate lengths.",
  [F+"fzf_v1.rs", F+"fzf.rs", F+"scoring.rs"],
  [("forward and backward pass", F+"fzf_v1.rs"), ("scoring of an alignment", F+"fzf.rs compute_score")])

p("C10", "V2 computes fzf's optimal local alignment: score and positions",
  "For a single fuzzy term, FzfV2's score and matched characters are those of fzf's modified Smith-Waterman recurrence evaluated over the whole matrix (scores never below zero, gap penalties 3 then 1, consecutive-run bonus carried from the run's start, best cell of the last query character with the leftmost winning ties). For a one-character term it is the best-scoring occurrence, leftmost on ties.",
  ["inputs", "configurations"], "all single fuzzy terms, candidates and configurations, including gaps long enough to exhaust the score and matrices beyond the preallocated size",
  "Tests pin about forty short pairs; the recurrence's branches (clamping, unused matches inside gaps, run restarts at boundaries, ties) need longer, repetitive candidates.",
  [F+"fzf_v2.rs", F+"candidate.rs", F+"slab.rs", F+"scoring.rs"],
  [("dynamic program", F+"fzf_v2.rs score_first_row, score_remaining_rows"), ("backtrace", F+"fzf_v2.rs matched_ranges")])

p("C11", "Exact, prefix, suffix and equality terms pick and score the right occurrence",
  "An exact term reports the leftmost occurrence that begins at a word boundary, or failing that the leftmost of those with the highest starting bonus; prefix, suffix and equality terms report the occurrence at the start, at the end or spanning the candidate, with surrounding spaces the term does not itself contain left out. The score is fzf's score of that contiguous occurrence, the same whichever metric is used.",
  ["inputs", "configurations"], "all contiguous terms, candidates with any number and overlap of occurrences, any surrounding spaces, all configurations, both metrics",
  "Occurrence choice depends on what precedes each occurrence, including occurrences that overlap failed partial matches; tests contain one such case.",
  [F+"fzf.rs", F+"scoring.rs"],
  [("occurrence scan", F+"fzf.rs exact_match"), ("anchored matches", F+"fzf.rs prefix_match, suffix_match, equal_match")])

p("C12", "Multi-term queries compose: AND adds scores, OR takes the first match",
  "The score of a match is the sum over the AND-ed groups of the score of the group's first satisfied alternative, each equal to what that term alone would score on the same candidate; a satisfied negated term scores zero. Consequently reordering or repeating AND-ed groups does not change acceptance, reordering does not change the distance or the covered characters, and a candidate matching no alternative of some group is rejected.",
  ["inputs", "configurations"], "all queries of up to many groups and alternatives of mixed kinds, all candidates and configurations",
  "Tests have a handful of two-term queries; composition must hold for every mix of kinds, negations and group shapes.",
  [F+"fzf.rs", F+"query.rs", F+"parser.rs"],
  [("sum over conditions, first alternative", F+"fzf.rs Fzf::distance"), ("single-term shortcut", F+"query.rs FzfQuery::new_extended")])

p("C13", "The query syntax is read as documented, and plain mode takes text literally",
  "Writing any expression (AND of ORs of optionally negated fuzzy, exact, prefix, suffix or equality terms) in the documented syntax, with spaces inside terms escaped by a backslash and arbitrary extra spacing (and, as in fzf, a $ that does nothing behind a quoted term), and parsing it yields a query that behaves as that expression; words consisting only of operators are ignored. parse_not_extended gives every character, spaces, backslashes and operators included, its literal meaning as one fuzzy term.",
  ["inputs", "programs"], "all expressions over terms of arbitrary non-empty text printable in the syntax, all spacings, lengths beyond the initial buffers",
  "Parser tests list a few strings; escaping, operator characters inside terms and buffer growth combine in ways only generation reaches.",
  [F+"parser.rs", F+"query.rs"],
  [("word splitting and escapes", F+"parser.rs Words::next"), ("grouping", F+"parser.rs Patterns::next"), ("operators", F+"query.rs Pattern::parse")],
  ["Debug of FzfQuery", "distances of the parsed query"])

p("C14", "Case sensitivity modes: sensitive, insensitive and per-term smart case",
  "In Sensitive mode letters match only their own case; in Insensitive mode letters match regardless of case, so changing the case of letters in the query or the candidate does not change whether they match; in Smart mode each term behaves as Sensitive if it contains an uppercase letter and as Insensitive otherwise. The mode affects only which characters are considered equal, in every kind of term and for non-ASCII letters too.",
  ["inputs", "configurations"], "all letters (ASCII and not), terms of every kind, candidates, both metrics",
  "Tests try a few ASCII words; the ASCII fast path, the Unicode path and each term kind compare characters separately.",
  ["src/utils.rs", "src/candidate.rs", F+"query.rs", F+"candidate.rs", "src/case_sensitivity.rs"],
  [("character comparison", "src/utils.rs char_eq"), ("ASCII search", "src/candidate.rs find_first_ascii, find_last_ascii, CandidateMatches"), ("per-pattern smart case", F+"fzf_v1.rs/fzf_v2.rs char_eq, fuzzy")])

p("C15", "Normalization equates accented Latin candidate letters with their base letter",
  "With candidate normalization on, a candidate character that fzf's table lists as an accented or variant form of an ASCII letter also matches that letter in the query, under the case rules in force; every other character is compared unchanged, non-ASCII query characters still match themselves and never match plain letters, and with normalization off no such equality holds. Ranges still refer to the bytes of the original candidate.",
  ["inputs", "configurations"], "every Unicode scalar value as candidate character against every ASCII query letter and itself, and strings of them, for every term kind and both metrics",
  "The table tests compare each table with itself and a few doc examples check ö; indexing errors between batches, or characters outside the table, are not covered.",
  ["src/normalize.rs", "src/utils.rs"],
  [("linearised tables", "src/normalize.rs normalize, is_normalized"), ("query left untouched", "src/utils.rs normalize_candidate_char")])

p("C16", "ASCII and Unicode candidates are handled alike",
  "Whether a candidate happens to be pure ASCII does not change how its ASCII characters are treated: appending or prepending non-ASCII characters that match no query character and lie outside the matched region leaves the verdict, the score and the matched characters of fuzzy and exact terms unchanged, and an order-preserving replacement of candidate and query letters by non-ASCII ones of the same class changes only byte offsets. This holds for every term kind the edit does not displace.",
  ["inputs", "configurations"], "all ASCII candidates and queries, extended by or translated to non-ASCII text, all configurations",
  "ASCII candidates run on bytes with memchr, others on chars with a comparison function; no test compares the two implementations on the same content.",
  ["src/candidate.rs", F+"fzf.rs", F+"scoring.rs"],
  [("two representations", "src/candidate.rs Candidate"), ("selection by is_ascii", F+"fzf.rs Fzf::distance"), ("class of ASCII and non-ASCII chars", F+"scoring.rs")])

p("C17", "Bonuses follow the character classes and the selected scoring scheme",
  "The bonus of a matched character is determined by its class and that of the character before it (or the scheme's notion of the candidate's start): word characters after whitespace, a delimiter or another non-word character get the scheme's respective boundary bonus, an uppercase letter after a lowercase one or a digit after a letter gets 7, non-word characters get 8, whitespace gets the whitespace bonus, anything else 0. The schemes differ only as documented: Default favours whitespace (10) over `/,:;|` (9) over other boundaries (8), Path favours `/` (9) and the start over whitespace (8), History treats all boundaries alike (8).",
  ["inputs", "configurations"], "all pairs of (previous, current) characters, exhaustively for ASCII and by class for the rest, three schemes, both metrics",
  "Tests reach perhaps twenty of the class pairs, mostly in the default scheme.",
  [F+"scoring.rs", F+"scheme.rs", F+"mod.rs"],
  [("class and bonus", F+"scoring.rs char_class, compute_bonus"), ("scheme constants", F+"scheme.rs")])

p("C18", "Distances are totally ordered so that sorting puts better matches first",
  "Distances form a total order consistent with equality in which a match with a higher fzf score compares strictly lower, so that sorting any set of candidates ascending by distance lists them by descending score; the default distance equals that of an empty query's match. Ranking laws users rely on follow for a single fuzzy term: if it consists of word characters no candidate ranks above one that starts with it, and appending characters to a matching candidate leaves FzfV1's distance unchanged and never worsens FzfV2's.",
  ["inputs", "configurations"], "all pairs and triples of distances obtained from generated queries and candidates, all configurations",
  "Tests compare two or three distances; order laws quantify over all of them.",
  [F+"distance.rs", "src/metric.rs", F+"fzf_v2.rs"],
  [("reversed order", F+"distance.rs Ord"), ("score to distance", F+"distance.rs from_score")],
  ["Ord, PartialOrd, Eq, Default of FzfDistance"])

p("C19", "Safe use of the API never causes undefined behaviour",
  "No sequence of safe calls (parsing, re-parsing, cloning, matching with growing and shrinking inputs, dropping in any order) reads or writes out of bounds, uses freed or uninitialised memory, or aliases mutably; a query or a metric's result can never observe memory that a later call has overwritten. Programs that would use a query after its parser was reused or dropped are rejected by the compiler.",
  ["histories", "inputs", "programs"], "all sequences of API calls, executed under memory checkers, and generated client programs that keep queries past their parser",
  "The crate uses transmute to extend lifetimes of slices into reusable buffers; the tests run without any memory checker and contain no program that should be rejected.",
  [F+"parser.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", "src/normalize.rs"],
  [("transmuted lifetimes", F+"parser.rs parse, Words::next, Patterns::next; fzf_v1.rs/fzf_v2.rs alloc_chars"), ("borrow of the parser by the query", F+"parser.rs signatures"), ("char transmute", "src/normalize.rs linearize_batch")],
  ["AddressSanitizer", "Miri", "rustc diagnostics"])

p("C20", "Results do not depend on cargo features or on the build profile",
  "A metric gives the same verdicts, distances and ranges whether the crate is compiled with only its own feature, with both metrics' features or with the testing features, and whether it is compiled with debug assertions and overflow checks or fully optimised. The crate compiles in each of these combinations.",
  ["configurations", "inputs"], "feature sets {fzf-v1}, {fzf-v2}, both, with and without the score accessor, in debug and release builds, over generated inputs",
  "The suite runs in a single build (all features, debug).",
  ["Cargo.toml", "src/lib.rs", F+"mod.rs"],
  [("feature gates", "src/lib.rs, "+F+"mod.rs cfg"), ("debug assertions", "src/utils.rs, "+F+"slab.rs")])

p("C21", "Matching takes time proportional to the documented bounds",
  "For a single fuzzy term FzfV1 takes time linear in the candidate for matches and non-matches alike, FzfV2 takes time linear in the candidate for non-matches and at most proportional to query length times candidate length for matches. A query of several or of contiguous terms costs at most in proportion to query length times candidate length. Parsing takes time linear in the query, and no input makes the cost exceed these bounds.",
  ["inputs"], "all families of queries and candidates of growing length, matching or not, ASCII or not, with or without ranges",
  "Timing is not asserted by any test.",
  [F+"fzf_v1.rs", F+"fzf_v2.rs"],
  [("single passes", F+"fzf_v1.rs"), ("matrix fill", F+"fzf_v2.rs")])

p("C22", "Objects never influence each other, on one thread or on several",
  "Parsers, queries, metrics and distances can be moved to and shared between threads, and what any of them answers is unaffected by what other objects do before, in between or at the same time, on the same thread or on others. No schedule of calls on distinct metrics using shared copies of a query has a data race or gives an answer that a single-threaded call on new objects would not give.",
  ["schedules", "histories", "inputs", "programs"], "all interleavings of calls on several metrics and parsers with different settings, on one thread and on several",
  "The tests use one metric at a time on one thread; nothing pins the types' thread safety.",
  [F+"fzf_v1.rs", F+"fzf_v2.rs", F+"parser.rs", F+"query.rs"],
  [("per-metric slabs", F+"slab.rs"), ("shared plain queries", F+"query.rs FzfQuery: Copy")],
  ["Metric::distance", "Metric::distance_and_ranges", "Send, Sync"])

p("C23", "Memory is bounded by the largest inputs and released on drop",
  "The heap memory held by a parser or a metric, and allocated during any one call, is at most a constant plus an amount proportional to the largest query and candidate it has served (for FzfV2, to the largest product of their lengths), however many calls were made before. Repeating the same calls does not make it grow, and dropping parsers, metrics and range buffers releases all of it.",
  ["histories", "inputs"], "all histories of calls, repeated any number of times, with inputs of any size",
  "The tests make a handful of calls and never look at memory.",
  [F+"slab.rs", F+"parser.rs", "src/matched_ranges.rs"],
  [("slabs grow to the largest request", F+"slab.rs alloc"), ("parser buffers are overwritten, not appended to", F+"parser.rs parse")],
  ["the global allocator"])

p("C24", "Only matching characters and the classes around them matter",
  "What a candidate contains besides the characters a query can match influences the answer only through its character classes. Appending characters that match no query character (for queries without suffix or equality terms) leaves verdict, score and ranges as they were; whatever such characters are put in front (for queries without prefix or equality terms) makes no difference beyond the shift of the ranges and the class of the last of them; replacing such characters by others of the same class, or permuting letters and digits alike in query and candidate, leaves verdict, score and matched characters unchanged; making a stretch of such characters longer that no alignment can afford already changes nothing either (except that FzfV1, which does not choose by score, pays for the length once for each fuzzy term that spans it).",
  ["inputs", "configurations"], "all queries, candidates and configurations, edits of any length, both metrics",
  "The suite never relates two candidates; an answer that depends on a distance, a count or a particular character looks right on each fixed pair.",
  [F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", "src/candidate.rs", F+"scoring.rs"],
  [("search from the first to the last match", F+"fzf_v1.rs, "+F+"fzf_v2.rs"), ("bonus from two classes", F+"scoring.rs compute_bonus"), ("byte search", "src/candidate.rs")])

p("C25", "Where there is only one alignment, FzfV1 and FzfV2 agree",
  "The two metrics differ only in how they choose between alignments. When every positive fuzzy term of a query either cannot be aligned with the candidate or can be aligned in exactly one way (each of its characters occurs once), and the gap penalties never exceed what the characters before them scored, FzfV1 and FzfV2 return the same verdict, the same score and the same ranges, whatever the gaps, the surroundings, the other terms and the configuration.",
  ["inputs", "configurations"], "all queries, candidates and configurations that leave no choice of alignment",
  "The suite runs the metrics through a shared set of examples with short gaps; a difference in the penalty of one gap length, one class or one kind of character is not sampled.",
  [F+"fzf_v1.rs", F+"fzf_v2.rs", F+"scoring.rs"],
  [("score of an alignment", F+"fzf.rs compute_score"), ("score matrix", F+"fzf_v2.rs")])

p("C26", "A weaker query accepts all that a stronger one accepts",
  "Verdicts are monotone, so that results can be narrowed as the user types. A candidate accepted by a query is accepted by the query without one of its terms, with a further alternative, with a positive term shortened (a fuzzy term by any character, an exact one at either end, a prefix at its end, a suffix at its start) or freed (equality to prefix or suffix, those to exact, exact to fuzzy); a query without negated terms goes on accepting a candidate when case matters less (sensitive, smart, insensitive), when candidates are normalized, and when characters are put into the candidate where they do not displace an anchored or contiguous term. Rejections are kept under the opposite edits, and negated terms behave in the opposite way. Both metrics, with and without ranges.",
  ["inputs", "configurations"], "all queries, candidates, configurations and edits of these forms",
  "No test relates the answers for two queries, two configurations or two candidates.",
  [F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", F+"query.rs", F+"parser.rs", "src/utils.rs"],
  [("conditions and alternatives", F+"fzf.rs Fzf::distance"), ("match types", F+"fzf.rs Fzf::score"), ("character comparison", "src/utils.rs char_eq")])

ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
