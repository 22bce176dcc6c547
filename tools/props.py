"""The properties: one table, from which properties.jsonl and MANIFEST.json are generated."""
ABS = "abstract interpretation of MIR with a typestate monitor (fixpoint over loops)"
PATS = ["src/ctor.rs", "src/ctor/", "src/regex.rs", "src/regex/", "src/neu/", "src/ctx/"]

def P(id, title, statement, quant, why, files, mech, over=("inputs", "programs"), technique=ABS, **k):
    return dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, over=list(over), technique=technique, **k)

PROPS = [
 P("C01", "A failed match leaves the position where it was",
   "Whenever matching a pattern against a context fails, the context's position afterwards equals its position before the attempt. This holds for every pattern combinator, terminal and wrapper and for the context's own matching entry points (with or without a skip policy), provided the user-supplied parts they are made of do the same.",
   "every pattern composition, every input, every start position, every sub-match outcome",
   "Backtracking correctness needs every failing exit of every combinator; the tests fail few of them and never look at the position afterwards.",
   ["src/ctor/", "src/regex/", "src/neu/", "src/ctx/"],
   [("guard object that rewinds on failure", "src/ctx/guard.rs"), ("explicit position resets", "src/ctor/*.rs, src/regex/*.rs, src/ctx/policy.rs")]),
 P("C02", "A failed construction leaves the position where it was",
   "Whenever constructing a value from a context fails because some pattern did not match, the context's position afterwards equals its position before the attempt. The only failing exits that may leave the position elsewhere are those where the user's own handler or mapping function rejected text that had matched.",
   "every constructing combinator, every input, every start position, every sub-result",
   "Same as for matching, on the constructing side: each combinator has its own code and its own exits, and the tests look at values, not at positions after failures.",
   ["src/ctor/", "src/regex/", "src/neu/"],
   [("guard object that rewinds on failure", "src/ctx/guard.rs"), ("explicit position resets", "src/ctor/*.rs")]),
 P("C03", "A successful match ends at its span's end, inside the input",
   "When a match succeeds, the position afterwards is the end of the text it matched, never before the start of the attempt and never beyond the end of the input. The returned span starts at or after the start of the attempt, ends at the new position (except for zero-width assertions), and covers exactly what the pattern's parts matched.",
   "every pattern composition, every input, every start position",
   "Spans and positions are recomputed in each combinator; tests check spans of a few whole expressions, not of each part nor of boundary inputs.",
   ["src/ctor/", "src/regex/", "src/neu/", "src/ctx/", "src/span.rs"],
   [("span bookkeeping", "src/span.rs, src/ctx/guard.rs"), ("position updates", "src/neu/*.rs, src/regex/*.rs, src/ctx.rs")]),
 P("C04", "Assertions and anchors consume nothing and report the right verdict",
   "A lookaround assertion consumes nothing whether it holds or not, and it holds exactly when its inner pattern's match outcome is the one asked for (matches for the positive form, does not match for the negative one). The start anchor holds exactly at the beginning of the input and the end anchor exactly at its end, also without consuming anything.",
   "every inner pattern, input and position",
   "Tests place anchors and assertions at one or two positions of a fixed text.",
   ["src/regex/assert.rs", "src/regex/anchor.rs"],
   [("assertion", "src/regex/assert.rs"), ("start/end anchors", "src/regex/anchor.rs")]),
 P("C05", "Longest-match alternation picks the longest match, first on ties",
   "A longest-match alternation (of two patterns or of a list) tries every alternative from the same position (even if a failed one has left it elsewhere), and its result is the one whose match ends furthest, the earlier alternative winning ties. The position after success is the end of that winning match, and it fails only if every alternative failed.",
   "every set of alternatives, their lengths and outcomes, every input",
   "The tie, the last-loses and the middle-wins orders for two patterns and for lists of any length are not sampled.",
   ["src/ctor/longest.rs", "src/ctor/vec.rs", "src/ctor/slice.rs", "src/ctor/array.rs", "src/ctor/pat.rs"],
   [("longest alternation", "src/ctor/longest.rs"), ("longest over lists", "src/ctor/pat.rs, src/ctor/vec.rs, src/ctor/array.rs, src/ctor/slice.rs")]),
 P("C06", "Ordered choice commits to the first alternative that matches",
   "An ordered choice (of two patterns or of a list, with or without associated values) tries its alternatives in declaration order, each from the position where the choice began (even if a failed one has left it elsewhere), and its result is the first one that succeeds. It fails only if all of them failed; for lists with associated values, the value returned is the one paired with the alternative that matched.",
   "every list length, every outcome of the alternatives, every input",
   "Tests use two to four alternatives over fixed texts; a rewind missed between alternatives shows only when an earlier one fails after consuming.",
   ["src/ctor/or.rs", "src/ctor/vec.rs", "src/ctor/slice.rs", "src/ctor/array.rs"],
   [("choice of two", "src/ctor/or.rs"), ("choice over lists", "src/ctor/vec.rs, src/ctor/array.rs, src/ctor/slice.rs")]),
 P("C07", "Repetition is greedy and respects its bounds exactly",
   "A repetition matches its pattern again and again from where the last match ended, stopping at the first failure or at the maximum, whichever comes first. It succeeds exactly when the number of matches lies within its bounds (inclusive, exclusive or open on either side), and constructing it yields exactly the matched elements in order.",
   "every bound combination, every number of consecutive matches, every input",
   "Counts are unbounded: tests use one or two bounds and a handful of elements, not the off-by-one on each kind of bound.",
   ["src/ctor/repeat.rs", "src/ctor/repeat2.rs", "src/ctor/collect.rs"],
   [("counting loops", "src/ctor/repeat.rs, src/ctor/repeat2.rs, src/ctor/collect.rs")]),
 P("C08", "Separated lists accept exactly the separated elements",
   "A separated list alternates element and separator from where the previous one ended; an element followed by no separator ends the list, and whether that last element counts depends only on the list's setting for an optional last separator. The list succeeds exactly when the number of accepted elements lies within its bounds, it ends right after the last accepted part, and constructing it yields the accepted elements in order.",
   "every list length, minimum, separator setting and input",
   "Trailing separators, a failing element after a separator and lists just below the minimum combine into more cases than the few texts tested.",
   ["src/ctor/sep.rs"],
   [("separated loops", "src/ctor/sep.rs")]),
 P("C09", "Sequences run every part once, in order, from where the last ended",
   "A sequence (two parts, two parts around a separator, a part between delimiters, a part with an affix before or after it, a pattern built from the value of the previous one) runs each part exactly once, in order, each from where the previous one ended, and nothing after a part that failed. It succeeds exactly when all parts succeed, its span runs from the first part to the last, and its value is made of its parts' values in order.",
   "every combination of parts, outcomes and inputs",
   "Tests exercise the success path; which part runs after which failure, and from where, is only seen with crafted parts.",
   ["src/ctor/then.rs", "src/ctor/enclose.rs", "src/ctor/affix.rs", "src/ctor/sep.rs", "src/ctor/dthen.rs"],
   [("sequencing", "src/ctor/then.rs, src/ctor/enclose.rs, src/ctor/affix.rs, src/ctor/sep.rs, src/ctor/dthen.rs")]),
 P("C10", "Optional and conditional patterns take the branch their test says",
   "An optional pattern never fails: it yields the match if there is one and otherwise nothing, at the unchanged position (even if the failed attempt has left it elsewhere). A conditional sequence runs its second part exactly when its test succeeds and then must match it, and a two-way branch runs exactly the side that its test chooses, tested at the position where the branch began.",
   "every test outcome, every sub-pattern outcome, every input",
   "The combinations of test outcome and part outcome are few per combinator but tests sample one or two of them.",
   ["src/ctor/opt.rs", "src/ctor/then.rs", "src/ctor/branch.rs"],
   [("optional", "src/ctor/opt.rs"), ("conditional sequence", "src/ctor/then.rs"), ("branch", "src/ctor/branch.rs")]),
 P("C11", "Wrapping a parser changes nothing",
   "References, boxes, shared pointers, cells, locks, optional pointers used for recursion, dynamic-dispatch adapters and parser functions used as patterns run what they wrap exactly once on the same context, with the same handler, and return its result, its error and its position unchanged.",
   "every wrapped pattern, outcome and input, both matching and constructing",
   "There are dozens of wrapper implementations; the tests touch a few of them on success.",
   ["src/ctor.rs", "src/regex.rs", "src/ctor/adapter.rs", "src/regex/adapter.rs", "src/regex/rec.rs"],
   [("forwarding implementations", "src/ctor.rs, src/regex.rs, src/ctor/adapter.rs, src/regex/adapter.rs")]),
 P("C12", "A handler runs once per matched text, with exactly that span",
   "Constructing from a text pattern matches that pattern once and, only if it matched, calls the user's handler exactly once with the matched span; the handler's value is the result and its error is the error. Combinators never call the handler themselves more often, nor run it for text that was not matched, and every constructed part gets the caller's own handler.",
   "every terminal, combinator, handler outcome and input",
   "Tests use side-effect-free handlers, so calls that are duplicated, missing or given a wrong span on some path stay invisible.",
   ["src/ctor/extract.rs", "src/ctor/", "src/regex/", "src/neu/"],
   [("handler invocation", "src/ctor/extract.rs and every construct implementation")]),
 P("C13", "Constructed values are exactly the parts' values, in order",
   "The value a combinator constructs consists of exactly the values of its accepted parts in match order: nothing dropped, duplicated, reordered or taken from a rejected attempt. A mapped pattern returns what the mapping function made of the constructed value.",
   "every composition and input",
   "Lost or doubled elements on boundary paths (an element before a missing separator, the last slot of an array) need particular inputs.",
   ["src/ctor/", "src/map.rs"],
   [("value assembly", "src/ctor/*.rs")]),
 P("C14", "The skip policy runs before every part that is matched through the context",
   "Matching a pattern through a context with a skip policy runs the policy's skip pattern first and then the pattern, each once and in this order, and the reported span is the pattern's own, without the skipped text. Combinators match their parts through the context (so that the policy applies to each part, once), while wrappers and plain contexts add no skipping of their own.",
   "every policy, combinator and input",
   "Skipping doubled or left out on one path of one combinator is invisible on texts without skippable characters there.",
   ["src/ctx/policy.rs", "src/ctx/regex.rs", "src/ctor/"],
   [("policy application", "src/ctx/policy.rs"), ("parts matched through the context", "src/ctor/*.rs")]),
 P("C15", "Failures carry the right error",
   "When a part's failure makes a combinator fail, the error reported is that part's error (for alternatives, one of theirs); when a combinator fails by its own rule (count out of bounds, unexpected end, no alternative, wrong literal, failed assertion), it reports the error kind documented for that rule. An error is never turned into a success or into another part's error.",
   "every combinator, failure cause and input",
   "Tests check that something failed, rarely how.",
   ["src/err.rs", "src/ctor/", "src/regex/", "src/neu/"],
   [("error construction and propagation", "every matching function")]),
 P("C16", "Character-class repetition consumes the maximal run within its bounds",
   "A repeated character class consumes items one by one from the current position for as long as they belong to the class and satisfy the attached condition, up to its maximum, and stops at the first that does not. It succeeds exactly when at least the minimum number was consumed, the span covers exactly the consumed items in bytes, and an optional class never fails.",
   "every class, condition, bound and input, multi-byte items included",
   "Input length and item widths are unbounded; tests use short ASCII texts and a few bounds.",
   ["src/neu/once.rs", "src/neu/opt.rs", "src/neu/times.rs", "src/neu/then.rs"],
   [("class loops", "src/neu/*.rs")]),
 P("C19", "Terminals match exactly what they say",
   "A literal matches exactly when the input at the current position starts with its text or bytes, and then consumes exactly its length. Consuming a fixed number of items succeeds exactly when that many remain, consuming all takes everything that remains (at least the required amount), the empty pattern always succeeds with an empty span and the failing pattern always fails.",
   "every literal, count, position and input",
   "Boundaries (a literal longer than the rest, the empty literal, exactly the remaining length) are not covered for each terminal.",
   ["src/regex/literal.rs", "src/regex/consume.rs", "src/regex/empty.rs", "src/regex/fail.rs"],
   [("terminals", "src/regex/*.rs")]),
 P("C21", "Matching never panics",
   "No matching or constructing operation of the library panics: no arithmetic overflow, out-of-bounds index or slice, failed unwrap or unconditional panic is reachable, for any input and position within it, as long as user-supplied parts do not panic. The documented matching-unsupported adapters are the only exception.",
   "every input, every position inside it, every combinator configuration",
   "Panics hide at boundaries (end of input, empty collection, count limits) that the tests do not enumerate.",
   ["src/ctor/", "src/regex/", "src/neu/", "src/ctx/"],
   [("checked arithmetic and slicing", "src/ctx.rs, src/ctor/*.rs, src/neu/*.rs")]),
 P("C17", "A class knows how many bytes its shortest item takes",
   "The minimum length a character class reports is never larger than the encoded length of any item it accepts (for a combined class: of any item both, either or none of its parts allow), so that an input just long enough is never rejected. A class given by a fixed character reports exactly that character's encoded length, and wrapped classes report what they wrap.",
   "every class, combination of classes and item, ASCII or not",
   "A wrong minimum only shows when the last items of the input are shorter than it; tests rarely end an input there.",
   ["src/neu.rs", "src/neu/"],
   [("Neu::min_length", "src/neu.rs, src/neu/*.rs")], technique="abstract interpretation of MIR against a per-function specification"),
 P("C18", "Character classes accept exactly the documented items",
   "Every built-in class accepts exactly the items its name documents (the standard library's classification, the given range with its stated bounds, the listed items, any, none) and combinations accept exactly what and/or/not of their parts accept, for characters and bytes alike. Ranges built from any of the standard range types keep their bounds and their inclusiveness.",
   "every class, combination and item",
   "There are over a million characters and dozens of classes and conversions; tests try a few items of each.",
   ["src/neu.rs", "src/neu/"],
   [("Neu::is_match", "src/neu/*.rs, src/neu.rs"), ("range conversions", "src/neu/range.rs")], technique="abstract interpretation of MIR against a per-function specification"),
 P("C20", "Searching reports the first match and resumes right after it",
   "Searching a context for a pattern tries it at successive positions from the current one and reports the first non-empty match, leaving the position at that match's end. Finding all matches goes on from the end of the last one, moving on by one past positions without a non-empty match, so that the results are the leftmost non-overlapping matches in order; it stops only when the input is exhausted. Matching a consecutive sequence does the same but ends at the first position without a non-empty match.",
   "every pattern, input, start position and number of matches",
   "The number of failed positions before a match and between matches is unbounded; the tests search a few short texts.",
   ["src/ctx.rs"],
   [("search entry points", "src/ctx.rs")]),
 P("C22", "A recursive pattern can be entered again while it is running",
   "Patterns made with the recursive-pattern functions are placed in a shared cell and run from there, including from inside themselves. Running the pattern in the cell, or in any wrapper such a pattern consists of, holds no exclusive lock and no exclusive borrow of the cell, so the recursive call neither deadlocks nor panics nor fails for that reason.",
   "every recursive grammar, input and depth of nesting",
   "A test would hang or pass depending on whether its input makes the grammar recurse while the cell is held; the thread-safe form has no test that recurses.",
   ["src/regex/rec.rs", "src/regex.rs", "src/ctor.rs"],
   [("recursion cell", "src/regex/rec.rs"), ("patterns inside cells and locks", "src/ctor.rs impl_forward_ctor, src/regex.rs impl_forward_regex")],
   technique="lock-state typestate over MIR: the guards alive at each call of the inner pattern"),
 P("C24", "Spans and span storage keep exactly what was put in",
   "Span arithmetic (position, end, adding an offset or another span, taking the text of a span) agrees with the byte range the span stands for. Span storage and its iterators give back exactly the spans added, per capture group, in order and without inventing or losing any (slots left empty are passed over, and a group without spans answers None), and announce the number of spans they still hold, and cutting text out of an input either yields exactly the bytes of the span or fails.",
   "every span, storage capacity, history of additions and access",
   "Off-by-one errors at the last element, the last group or an empty span need inputs the tests do not have.",
   ["src/span.rs", "src/iter/"],
   [("span arithmetic", "src/span.rs"), ("storage of spans", "src/span.rs"), ("iterators", "src/iter/*.rs")], technique="abstract interpretation of MIR against a per-function specification"),
 P("C25", "Value mappers convert exactly what they say",
   "Every standard mapper returns what it documents for every value: selecting a side, the comparison mappers, parsing text with the given radix, decoding bytes with the given byte order and width, checking or replacing by a default. It fails exactly when the conversion is impossible, and it announces the output size of the type it converts to.",
   "every mapper and every value",
   "There is one implementation for each type and byte order; tests take one value of some of them.",
   ["src/map.rs"],
   [("FallibleMap implementations", "src/map.rs")], technique="abstract interpretation of MIR against a per-function specification"),
 P("C26", "Contexts and guards move and read the input as told",
   "Moving a context sets exactly the position asked for, reading returns exactly the requested part of the input or fails if it does not exist, cloning at a position gives a context over the rest of the input, and a context with a policy behaves as the one it wraps. A guard remembers the position at which it was made and moves the context back to it when it is dropped exactly if a failure went through it.",
   "every input, position, length and sequence of operations on a guard",
   "Reading at and beyond the end, and a guard after a failure followed by a success, are not sampled.",
   ["src/ctx.rs", "src/ctx/"],
   [("context primitives", "src/ctx/regex.rs, src/ctx/policy.rs"), ("guard", "src/ctx/guard.rs")], technique="abstract interpretation of MIR against a per-function specification"),
 P("C27", "Matching leaves no trace and depends on nothing else",
   "Matching or constructing with a pattern leaves the pattern as it was, and the outcome depends only on the pattern, the input, the position and the context's policy: the same attempt made again from the same position gives the same result. Neither patterns nor contexts nor the library as a whole keep hidden state between attempts (no counters, caches, globals, thread-locals), and nothing is read from the clock, the environment, random sources or memory addresses. Exceptions are the user's own parts and handlers, and the length-prefix units, whose countdown is documented.",
   "every pattern, every history of earlier attempts, every environment",
   "A test matches once or twice in one process and environment; what a hidden counter, cache or flag does shows after a particular history only.",
   ["src/ctor/", "src/regex/", "src/neu/", "src/neu.rs", "src/ctx/", "src/map.rs", "src/lib.rs"],
   [("patterns matched through shared references", "src/ctor/*.rs, src/regex/*.rs, src/neu/*.rs"), ("contexts", "src/ctx/")],
   over=("histories", "inputs"),
   technique="effect analysis over the type-checked program: interior mutability of every pattern and context type, statics, and the calls, casts and writes in every function's MIR; the abstract interpretation shows that a pattern is unchanged when an attempt ends"),
 P("C28", "Patterns can be sent to and shared between threads when their parts can",
   "Every pattern, unit, handler, mapper, span, context and error type can be moved to and shared between threads whenever the user's parts in it can, and what the functions named for it (`rec_parser_sync`, `dyn_box_sync`, `dyn_arc_sync`, `prefix_sync`) return always can. No type promises more than its parts keep. Exceptions are `Prefix`, which counts without synchronisation (`PrefixSync` is its thread-safe twin), and borrowed trait objects (`DynRefAdapter`).",
   "every public type, for every choice of its type parameters",
   "Whether a type can cross threads follows from every type it contains; no test here starts a thread, and a field added anywhere can take the ability away.",
   ["src/ctor/", "src/regex/", "src/neu/", "src/ctx/", "src/map.rs", "src/span.rs", "src/err.rs"],
   [("pattern types", "src/ctor/*.rs, src/regex/*.rs, src/neu/*.rs"), ("thread-safe forms", "src/regex/rec.rs, src/regex/adapter.rs, src/ctor/adapter.rs, src/neu/prefix.rs")],
   over=("programs",),
   technique="type-level obligations: Send and Sync of every public type and thread-safe form, decided by the compiler's trait solver under the assumption that type parameters are Send and Sync"),
 P("C29", "What is built is what was asked for, and it runs its own parts",
   "Every builder function, constructor and setter puts each part it is given (patterns, conditions, bounds, flags, mappers) where its name says and leaves every other part as it was or at its documented default; accessors return the part they are named after, and a copy equals the original in every part. A recursive pattern's handle stands for the pattern finally made. When run, a combinator runs exactly the parts it holds, each in its role.",
   "every builder, every setter, every combination of parts and settings",
   "There are several hundred such functions; tests call a few and rarely observe the part that was set, defaulted or copied.",
   ["src/ctor.rs", "src/ctor/", "src/regex.rs", "src/regex/", "src/neu.rs", "src/neu/", "src/map.rs", "src/ctx/"],
   [("builder operations", "src/ctor.rs, src/regex.rs, src/neu.rs"), ("constructors, setters, accessors, copies", "src/ctor/*.rs, src/neu/*.rs, src/regex/*.rs"), ("recursive patterns", "src/regex/rec.rs")],
   technique="abstract interpretation of MIR against a per-function specification"),
 P("C30", "The macros build the patterns their notation names",
   "The macros `neu!` and `regex!` accept every documented form of their notation, and the value they build is the one the form names. A range admits exactly the characters from its first to its last bound, both included; several ranges, a set or a parenthesised list admit exactly the union of their elements; `^` in front of a set or range admits exactly the other characters, alone it admits exactly what is not white space; `.` admits everything but a line feed; a single letter or literal admits exactly itself; nothing at all admits exactly white space. In `regex!` the suffix says how often the unit is matched: none once, `?` at most once, `*` any number, `+` at least once, `{n}`, `{n,}` and `{n, m}` the numbers given.",
   "every documented form with every suffix, every character or byte",
   "The macros are a language of their own with one arm per form; the tests and examples use a third of the arms and look at one text each, so a bound that is off by one or a swapped arm goes unseen.",
   ["src/macro.rs", "src/neu/", "src/regex.rs"],
   [("class notation", "src/macro.rs neu!"), ("repetition notation", "src/macro.rs regex!"), ("units and repetitions built", "src/neu/*.rs, src/regex.rs")],
   over=("inputs", "programs"),
   technique="abstract interpretation of MIR: one function per form, appended to the crate as it is compiled, whose built class is compared with the named class for a symbolic character",
   # the logging the other configurations add is no part of what a macro builds
   append="macros/cases.rs", all_configs=["default", "alloc", "bare"]),
 P("C31", "Entry points match once and pass the result on unchanged",
   "The convenience operations (test for a match, assert, construct with or without a handler, map the matched span or text) run the given pattern once from the current position and hand exactly its span or its text to the given handler or mapper, whose result they return. Standard handlers return the text of the span, the span or nothing, plain functions used as handlers or conditions are called once, and a pattern used as a condition looks at the input from the item on without moving the position.",
   "every pattern, input, position and handler",
   "Each entry point is its own code; tests use most of them only on success and with handlers that ignore their arguments.",
   ["src/ctx.rs", "src/ctor/extract.rs", "src/neu/cond.rs", "src/regex.rs"],
   [("entry points", "src/ctx.rs"), ("standard handlers", "src/ctor/extract.rs"), ("conditions", "src/neu/cond.rs")], technique="abstract interpretation of MIR against a per-function specification"),
 P("C32", "Optional features add and never change",
   "The library builds with every combination of its optional features (logging and tracing exclude each other), and without them uses nothing but the core library (and the allocation library if `alloc` is asked for). Turning a feature on only adds: every item, implementation and name offered without it is still offered with it, with the same signature and bounds (the sole exception: logging asks that matched items can be printed). And no feature changes the outcome of an operation: with logging or tracing compiled in, or without `std` or `alloc`, patterns, classes, builders and contexts behave as they do by default.",
   "every feature combination, each with every input",
   "The tests run with the default features, and a dozen of them with none; what is compiled for logging, tracing or `alloc` alone is never run.",
   ["Cargo.toml", "src/log.rs", "src/lib.rs", "src/"],
   [("features", "Cargo.toml, cfg attributes in src/"), ("logging macros", "src/log.rs")],
   over=("configurations", "inputs"),
   technique="public items with signatures and bounds from the type-checked program compared across all nine feature combinations; abstract interpretation of MIR with every property's rules in each configuration, findings compared with the default configuration's",
   features=True),
 P("C33", "No loop and no call goes on for ever without getting anywhere",
   "Every turn of every loop in the library gets somewhere: it reads a further item of the input or of a list, runs a part that succeeds, moves the position or advances a count. With nothing left to read, to try or to count, a loop ends; it never starts over in exactly the state in which it began its last turn, whether the input is empty, used up or refused. And no function calls itself, directly or through others, with exactly what it was given. (What remains possible is C90: a part that matches the empty text repeated without bound.)",
   "every pattern, input and position; every loop and every chain of calls",
   "A loop that fails to notice the end hangs only on the input that reaches that end, such as an empty one; a test of that input would hang rather than fail, and nobody writes it.",
   ["src/ctor/", "src/regex/", "src/neu/", "src/ctx.rs", "src/ctx/", "src/neu.rs", "src/ctor.rs", "src/regex.rs", "src/iter/", "src/span.rs"],
   [("loops over items of the input", "src/neu/*.rs"), ("repetitions, lists and alternations", "src/ctor/*.rs, src/ctor.rs, src/regex.rs"), ("searches", "src/ctx.rs"), ("forwarding implementations", "src/neu.rs, src/regex.rs, src/ctor.rs, src/ctx/*.rs")],
   technique="abstract interpretation of MIR: at every loop head the symbolic state is compared with the one the last turn began in, at every call the arguments and state with those of the running calls of the same function"),
]
NA = [
 dict(id="C90", title="Unbounded repetition terminates", statement="Every match attempt on a finite input terminates.",
   over=["inputs", "programs"], quant="every pattern and input", why="A repetition of a pattern that can match nothing loops for ever; tests avoid it.",
   files=["src/ctor/repeat.rs", "src/ctor/collect.rs", "src/ctor/sep.rs"], mech=[("counting loops", "src/ctor/repeat.rs")],
   reason="False by design for an unbounded repetition of a pattern that matches the empty text (user-chosen), and otherwise depends on whether a user-supplied pattern consumes something: a runtime quantity no static argument here bounds."),
]