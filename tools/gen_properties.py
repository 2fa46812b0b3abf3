import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent parses of shared parsers do not interfere",
 "When any number of threads parse at the same time, through one shared parser or through different ones, every parse returns exactly the value or error it returns when it runs alone, under every interleaving of their steps. The parsers made of built-in pieces and non-capturing conversions can be shared between threads by reference.",
 ["schedules","inputs"],
 "every interleaving, at any point inside the library, of parses by 2..12 threads over a corpus of parser shapes, texts and failures",
 "All tests parse on one thread; none shares a parser or a process-wide table between threads, so no interleaving is ever exercised.",
 ["src/traits.rs","src/context.rs","src/parsers/regex.rs","src/parsers/primitive.rs","src/parsers/rule_set.rs","src/parsers/repeat.rs"],
 [("parsers are immutable values; all progress lives in a per-call context and iterator","src/traits.rs Parser::parse_raw, src/context.rs ParseContext"),("process-wide compiled regexes behind a one-time initialiser","src/parsers/primitive.rs regexes!")],
 [("foremost_error, rule_sets","error and rule-set tables private to one parse","src/context.rs ParseContext")],
 ["result of Parser::parse on each thread"])
p("C02","First use of built-in number parsers is safe from many threads at once",
 "The very first uses of the built-in number, float and boolean parsers in a process may happen on any number of threads at once, interleaved at any point: every such parse completes and returns exactly what it returns in a warmed-up process. No thread deadlocks, waits forever or sees half-initialised tables.",
 ["schedules"],
 "every interleaving of first-use initialisation with other threads' first uses, in a fresh process each time, including a stall of the initialising thread",
 "A test process initialises each table once, at an uncontrolled moment and normally without contention; the race window cannot be hit on purpose.",
 ["src/parsers/primitive.rs","src/parsers/regex.rs"],
 [("lazy_static one-time initialisation of each regex","src/parsers/primitive.rs regexes!")],
 [("RE","compiled regex shared by the whole process","src/parsers/primitive.rs")],
 ["result of Parser::parse on each thread of a fresh process"])
p("C03","Re-entrant parsing from user callbacks is transparent",
 "User code that the library calls in the middle of a parse (a conversion after `=>`, a user-written parser, an element's hash or comparison) may itself parse any text with any parser, including the one already running, nested to any depth. The inner and the outer parse both return exactly what they return without the nesting, and neither blocks.",
 ["schedules","histories","inputs"],
 "every point at which the library calls out, times every parser and text used there, nested up to 10 deep",
 "No test parses from inside a callback.",
 ["src/traits.rs","src/context.rs","src/parsers/map.rs","src/parsers/rule_set.rs","src/parsers/lines.rs","src/parsers/collections.rs"],
 [("a fresh context per parse call","src/traits.rs Parser::parse_raw"),("rule sets registered per context","src/context.rs register_rule_set")],
 None,["results of the inner and outer Parser::parse"])
p("C04","A panic in user code leaves the library fully usable",
 "If user code called during a parse panics, at whatever call and in whatever phase, that very panic reaches the caller of the parse unchanged. Every later or concurrent parse, on the same parser or another and on any thread, behaves as if the panicked parse had never been started.",
 ["crash_points","histories","schedules"],
 "every call-out (matching, backtracking, end query, conversion, hash or comparison) as the crash point, followed by arbitrary further parses on the same and other threads",
 "The tests' panicking conversions are only ones that must not run; no test unwinds through the library and goes on using it.",
 ["src/traits.rs","src/context.rs","src/parsers/map.rs","src/parsers/repeat.rs","src/parsers/sequence.rs","src/parsers/either.rs","src/parsers/lines.rs","src/parsers/rule_set.rs"],
 [("no state survives a parse: context and iterators are locals dropped on unwind","src/traits.rs Parser::parse_raw"),("parsers take &self and hold no interior mutability","src/parsers/*.rs")],
 None,["catch_unwind around Parser::parse, then results of later parses"])
p("C05","Every parse gives back all it acquired, however it ends",
 "When a parse has ended, by success, by error, by a panic in user code or by being abandoned half way through its alternatives, and its result has been dropped, all memory it allocated has been released and every user value it created has been dropped exactly once. No user value is lost from, or duplicated in, the returned result.",
 ["fault_sequences","crash_points","histories"],
 "every ending (success, error, panic at each call-out, cancellation after each step) of parses over generated pattern shapes",
 "Tests never count allocations or drops and never end a parse by unwinding or cancellation.",
 ["src/parsers/repeat.rs","src/parsers/sequence.rs","src/parsers/either.rs","src/parsers/map.rs","src/parsers/collections.rs","src/parsers/rule_set.rs","src/context.rs"],
 [("ownership: iterators own sub-iterators; convert builds values only from live iterators","src/traits.rs ParseIter")],
 None,["a counting allocator and drop-tracked values around Parser::parse"])
p("C06","Conversions run once each, in text order, only after overall success",
 "Conversion code given with `=>` runs only once the whole text has been matched: then exactly once for every piece of text it converts in the returned value, inner pieces before the piece that contains them and earlier text before later text. A parse that fails runs none, however many pieces had matched on the way, and pieces under string(...) or used as separators are never converted.",
 ["histories","inputs"],
 "every history of matches, rejections and backtracking that precedes the final verdict, over generated patterns and scripted sub-parsers",
 "One doc example checks that two conversions do not run; nothing checks counts or order after backtracking.",
 ["src/parsers/map.rs","src/parsers/repeat.rs","src/parsers/sequence.rs","src/parsers/either.rs","src/parsers/lines.rs","src/parsers/string.rs","src/parsers/collections.rs"],
 [("conversion deferred to convert(), called only by parse_raw on the accepted match","src/traits.rs Parser::parse_raw, src/parsers/map.rs MapParseIter::convert")],
 None,["log of conversion calls against the returned value"])
p("C07","Sub-parsers are driven strictly by the parse-iterator contract",
 "Whatever sequence of acceptances and rejections happens, the library starts a user-written parser only at a character boundary inside the text it is given, continues a match only with the text it was started on, and never again asks anything of a match iterator that has reported it is exhausted. It asks for a value only from an iterator whose current match is part of the accepted parse.",
 ["histories","fault_sequences"],
 "every history of accept/reject/exhaust answers from user-written sub-parsers, including ones that give up early, in every combinator position",
 "The contract is only prose on the trait; no test contains a sub-parser that observes or enforces it.",
 ["src/traits.rs","src/parsers/repeat.rs","src/parsers/sequence.rs","src/parsers/either.rs","src/parsers/lines.rs","src/parsers/map.rs","src/parsers/string.rs","src/parsers/dynamic.rs"],
 [("iterator discarded or parent exhausted after Err(Reported)","src/parsers/repeat.rs next, src/parsers/sequence.rs first_tail_match, src/parsers/either.rs backtrack")],
 [("pattern_iters / sep_iters","live sub-matches of a repetition","src/parsers/repeat.rs RepeatParseIter")],
 ["calls received by user-implemented Parser / ParseIter"])
p("C08","Backtracking is complete and follows preference order",
 "A pattern built by concatenation, alternatives, `?`, `*`, `+`, repeat_sep, rules and conversions matches a text exactly when some combination of its sub-parsers' offered matches covers it, however many of them have to be rejected and retried. The result is the first such combination in preference order: earlier alternatives first, longer repetitions first, each sub-parser's own offers in the order it makes them.",
 ["histories","inputs"],
 "every assignment of ordered offers to the sub-parsers at every position, over generated pattern trees; each accept/reject history that the search goes through",
 "The one backtracking test needs two retries of one repetition; combinations of nested repetitions, separators and alternatives with several offers each are not sampled.",
 ["src/parsers/repeat.rs","src/parsers/sequence.rs","src/parsers/either.rs","src/parsers/map.rs","src/parsers/rule_set.rs","src/traits.rs","src/macros.rs"],
 [("depth-first enumeration by ParseIter::backtrack","src/parsers/repeat.rs next, src/parsers/sequence.rs backtrack, src/parsers/either.rs backtrack")],
 None,["Parser::parse result; sequence of matches from ParseIter::backtrack"])
p("C09","Suspended match iterators are independent and can be dropped any time",
 "Any number of match iterators, of the same or different parsers and over the same or different texts, may be suspended, resumed, asked for their value and dropped in any interleaving. Each one still yields exactly the sequence of match ends and values, and the final error, that it yields when it is driven alone.",
 ["schedules","histories"],
 "every interleaving of steps of several live iterators, with early drops, repeated value requests and a shared or private context",
 "Tests only call parse(), which drives one iterator to its verdict without interruption.",
 ["src/traits.rs","src/context.rs","src/parsers/repeat.rs","src/parsers/rule_set.rs","src/parsers/dynamic.rs","src/parsers/string.rs"],
 [("all search state is in the iterator and its context","src/traits.rs ParseIter")],
 None,["ParseIter::match_end / convert / backtrack transcripts"])
p("C10","The reported error is the first one at the farthest point reached",
 "When a parse fails, the error returned is, among all failures reported during the attempt, one with the greatest position in the text, and the earliest reported among those at that position; this holds also for failures reported by sub-parsers that went on to match. Positions found inside line(...) or section(...) are translated to positions in the full text, and only failures inside a line or section that matched as a whole are forgotten.",
 ["histories","inputs"],
 "every history of failure reports by sub-parsers, at arbitrary positions and in any order, through nested lines and sections, including rejected lines and retried alternatives",
 "Two tests check three error positions; the order and nesting in which failures are reported is not varied.",
 ["src/context.rs","src/error.rs","src/traits.rs","src/parsers/lines.rs"],
 [("foremost-error tracking","src/context.rs ParseContext::report"),("slice contexts and location adjustment","src/context.rs with_slice, src/error.rs adjust_location")],
 [("foremost_error","best failure so far","src/context.rs ParseContext")],
 ["ParseError.location, .source and message"])
p("C11","Results do not depend on memory layout or hash seeds",
 "The result of a parse depends only on the pattern and the text: not on the addresses at which parsers, rule sets or texts happen to live, not on whether addresses are reused, and not on the process's hash seed. In particular any number of rule sets alive or nested at once are never confused with one another.",
 ["configurations","histories","inputs"],
 "every placement of allocations (immediate reuse, no reuse, equal low address bits, random gaps), hash seed and text placement, over parsers with nested and sibling rule sets and collections",
 "Tests see the one layout the default allocator gives them and never hold several interchangeable rule sets in one parse.",
 ["src/parsers/rule_set.rs","src/context.rs","src/parsers/collections.rs"],
 [("rule set identity is the address of a pinned heap byte","src/parsers/rule_set.rs RuleSetBuilder::id"),("per-context table of rule sets","src/context.rs register_rule_set / fetch_parser_for_rule")],
 [("rule_sets","rule set id -> rules, for one parse","src/context.rs ParseContext")],
 ["Parser::parse result under different simulated allocators"])
p("C12","Every parse comes to a verdict within bounded work",
 "Every parse with a pattern that is not left-recursive ends with a value or an error, as long as each sub-parser offers finitely many matches: also when repeated patterns or separators match the empty text, and when sub-parsers withdraw offers half way. The number of requests it makes to its sub-parsers stays within a small factor of one exhaustive walk over the alternatives they offer.",
 ["histories","fault_sequences","inputs"],
 "every pattern tree with possibly-empty sub-matches and separators, in repetitions, lines and sections, and every finite script of offers",
 "A hang shows up only for the patterns a test happens to contain; none repeats a pattern that can match nothing.",
 ["src/parsers/repeat.rs","src/parsers/lines.rs","src/parsers/sequence.rs","src/parsers/either.rs","src/traits.rs"],
 [("repetition advances until a sub-match fails","src/parsers/repeat.rs advance"),("each backtrack call removes one alternative","src/parsers/repeat.rs next")],
 None,["number of sub-parser requests and library steps until Parser::parse returns"])
p("C13","line() and section() confine their sub-parser and match all or nothing",
 "The pattern inside line(...) or section(...) is given exactly the text of one whole line without its newline, or of one run of non-blank lines without the blank line that ends it, and can neither see nor consume anything outside it, however it backtracks. The line or section matches only if the pattern covers that text completely, is consumed together with its terminator, must begin at the start of a line or section, and is never re-matched in a second way.",
 ["histories","inputs"],
 "every script of offers and rejections from the sub-parsers inside and around nested lines and sections, over texts with blank lines, missing final newlines and unusual characters",
 "A dozen literal cases; the inner pattern never offers several matches that overlap the boundary.",
 ["src/parsers/lines.rs","src/context.rs"],
 [("sub-context over the region's slice","src/context.rs with_slice"),("full-match loop over the inner alternatives","src/parsers/lines.rs match_fully"),("region boundaries","src/parsers/lines.rs Region for Line/Section")],
 None,["text and positions seen by user-written sub-parsers; Parser::parse result"])
p("C14","A parse stalled in user code never blocks another parse",
 "While one parse is suspended inside user code that it called, for however long, any number of other parses on other threads, with the same parser or any other, run to completion. Once the stalled code resumes, its parse completes as well.",
 ["schedules","fault_sequences"],
 "every call-out as the stall point of one or more threads, with all other threads required to finish before the stall ends",
 "Tests have one thread and no way to hold a parse open.",
 ["src/traits.rs","src/context.rs","src/parsers/primitive.rs","src/parsers/map.rs","src/parsers/rule_set.rs"],
 [("no lock is held while calling user code; only one-time regex compilation synchronises","src/parsers/primitive.rs regexes!, src/parsers/regex.rs")],
 None,["completion of the other threads while one is held in a callback"])
p("C15","Past parses leave no trace",
 "The result of a parse does not depend on what was parsed before it in the process or on the thread: any number of earlier successes, failures and abandoned parses, other parsers and rule sets built, used and dropped, the same buffer refilled with different text, threads ended and restarted. Parsing the same text with the same parser again gives an equal result.",
 ["histories"],
 "every history of parses, buffer refills, parser builds and drops and thread restarts before the parse in question",
 "Each test makes a handful of parses of fixed literals; state that needs a particular history to go stale is out of reach.",
 ["src/traits.rs","src/context.rs","src/parsers/regex.rs","src/parsers/primitive.rs","src/parsers/rule_set.rs"],
 [("parsers are immutable, contexts are per parse","src/traits.rs Parser::parse_raw")],
 None,["Parser::parse results along a history against a fresh process"])
# pure functions of the input: not simulation targets
p("C21","Number parsers accept exactly their grammar and convert exactly",
 "Each built-in integer, big-integer, float and boolean parser matches the longest prefix that fits its documented grammar and converts it to exactly the value the text denotes. Text outside the grammar or values that do not fit the type are errors, never wrapped or truncated.",
 ["inputs"],"all texts","A few literals per type are tested.",
 ["src/parsers/primitive.rs","src/parsers/regex.rs"],[("one regex and one conversion function per type","src/parsers/primitive.rs")])
p("C22","Single-character and literal parsers match exactly the documented characters",
 "Character-class parsers, char_of, any_char and quoted literals match exactly the documented character or text at the current position and nothing else, for every Unicode character. Digits convert to their value and char_of to the index of the character in its list.",
 ["inputs"],"all characters and literals","Tests use a handful of characters.",
 ["src/parsers/chars.rs","src/parsers/exact.rs"],[("predicate per class","src/parsers/chars.rs")])
p("C23","The macro gives every pattern its documented shape and scope",
 "The parser! macro groups, repeats, labels and concatenates patterns by the documented syntax, gives each pattern the documented result type (values of concatenated patterns flattened into one tuple, parenthesised groups kept apart), and rejects malformed patterns at compile time.",
 ["programs"],"all patterns","Tests contain some forty patterns.",
 ["src/macros.rs","src/types.rs","src/parsers/sequence.rs"],[("token-munching macro","src/macros.rs"),("tuple concatenation","src/types.rs")])
p("C24","Error text gives the right line and column for every position",
 "The message of a parse error names the line and column, counted in characters from 1, of its byte position in the text, or the end of the input, for every text and position.",
 ["inputs"],"all texts and positions","Tests check a few positions in ASCII text.",
 ["src/error.rs"],[("Display for ParseError","src/error.rs")])
p("C25","aoc_parse restores exactly one missing final newline",
 "The aoc_parse helper parses the given text unchanged when it ends in a newline and with one newline appended when it does not.",
 ["inputs"],"all texts","There is only a compile-only doc example.",
 ["src/util.rs"],[("aoc_parse","src/util.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
