#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CORE = ["parser_str.go", "parser_regex.go", "parser_sequence.go", "parser_choice.go", "parser_rank.go",
        "parser_pattern.go", "parser_existential.go", "parser_lookahead.go", "parser_not.go", "parser_ref.go"]

prop("C01", "A grammar accepts exactly the texts its PEG operators define",
 "For every grammar built from the documented operators (string, character class, regular expression, grouping, sequence, ordered choice, optional, repetition with join and bounds, positive and negative lookahead, references) and every text, the parse succeeds if and only if ordered-choice, greedy, non-backtracking-into-repetition PEG semantics match the whole text. A repetition with bounds m and n matches at least m and at most n occurrences, a join only matches between two occurrences, and lookaheads never consume.",
 ["programs", "inputs"],
 "every grammar without left recursion made of the documented operators, every text",
 "The tests sample about 90 fixed (rule, text) pairs; operator interactions (optional inside joined repetition inside lookahead, restoring the position after a partial failure at any depth) are a product space no list of examples covers.",
 CORE + ["packrat.go", "grammar.go", "codestream_rune.go"],
 [("each operator restores the position on failure", "parser_choice.go parse, parser_pattern.go parse, parser_existential.go parse, parser_not.go, parser_lookahead.go"),
  ("whole input check", "grammar.go (*Grammar).parse")],
 ["Grammar.ParseString result: error or not"])

prop("C02", "The shape of the produced AST follows the documented capture rules",
 "For every grammar and every text it accepts, the produced AST is the one the documentation defines: strings and underscore-named references inside a sequence are not captured, one captured element yields that element's bare production, several yield an array in order, labels yield a map with those keys and values, repetitions yield arrays of the occurrences (joins excluded), an absent optional yields the undefined value and a lookahead captures nothing.",
 ["programs", "inputs"],
 "every grammar in the documented operator language (labels on any element of a sequence or alternative included), every accepted text",
 "Tests compare a few productions, often only through their printed form; which elements are captured depends on the combination of all elements of a sequence and on nested parsers, not on one operator.",
 CORE + ["packrat.go", "native_array.go", "native_map.go"],
 [("sequence representation: single, array or object", "parser_sequence.go calculateType/parseAs*"),
  ("capture flags", "parser_str.go, parser_choice.go prepare, parser_existential.go prepare, parser_ref.go newRef"),
  ("labels of standalone nodes", "packrat.go prepareResult")],
 ["Grammar.ParseString result tree"])

prop("C03", "Left-recursive rules terminate and yield the longest, left-associated parse",
 "A rule which refers to itself at its leftmost position, directly or through other rules or an empty prefix, terminates on every text and matches as many repetitions of its recursive alternatives as the text allows, at any position and nesting. The resulting tree nests to the left and equals the tree obtained by repeatedly growing the match starting from the non-recursive alternatives; the accepted language equals the one of the equivalent iterative grammar.",
 ["programs", "inputs"],
 "grammars with direct, indirect (one recursion head) and hidden left recursion, with any number of recursive alternatives, in choices or ranks, nested at several positions; every text",
 "Tests contain a handful of arithmetic-like expressions of a few terms; seed growing interacts with memoization, wiping and restoring of cached results and alternatives order, which only shows with particular rule graphs and lengths.",
 ["packrat.go", "parsectx.go", "parser_ref.go", "parser_rank.go", "parser_choice.go"],
 [("seed growing loop", "packrat.go loopify"), ("wiping and restoring frames", "parsectx.go wipeWith/restoreWith/spreadWipes")],
 ["Grammar.ParseString result tree"],
 [("wipemask", "rules which depend on the growing seed", "packrat.go frame"), ("loopstage", "recursion detection stage", "packrat.go frame")])

prop("C04", "Memoization is transparent and keeps parsing linear",
 "Disabling the cache on any subset of non-left-recursive rules never changes the outcome of a parse. With the cache, every rule is evaluated at most once per position, hence its callback runs at most once per position where it matches, and grammars which would backtrack exponentially without a cache parse in a number of rule evaluations bounded by rules times positions.",
 ["programs", "inputs", "configurations"],
 "every grammar, every subset of rules flagged as not cached, every text including those triggering deep backtracking",
 "No test uses the no-cache option nor counts evaluations; a cache which returns a stale result or a wrong end position only shows for particular sharing of rules between alternatives.",
 ["packrat.go", "parsectx.go", "parseoption.go", "line.go"],
 [("frame lookup and storing", "packrat.go loopify"), ("frame table indexed by position and rule id", "parsectx.go getFrame"), ("per rule option", "parseoption.go SkipCache")],
 ["Grammar.ParseString result", "number of callback invocations"])

prop("C05", "Parses are independent of what was parsed or built before",
 "A grammar gives the same outcome for a text whatever was parsed before with it or with other grammars, including failed parses, callbacks which panicked, and parses with tracing options; building a grammar never affects grammars built before it. Building several grammars from the same rule declarations gives grammars which behave the same.",
 ["histories", "programs", "inputs"],
 "every interleaving of builds and parses (successful, failing, panicking, over characters or tokens) over several grammars",
 "Tests build a grammar and parse once or in a fixed order; leaking state needs a history (a failure, then a success; a panic in the middle of left recursion; a rebuild of shared declarations).",
 ["grammar.go", "parsectx.go", "packrat.go", "line.go", "rule.go", "joeson_handcompiled.go"],
 [("fresh context per parse", "grammar.go ParseString/ParseTokens, parsectx.go newParseContext"), ("fresh joeson grammar per compilation", "parser_rank.go rankFromLines")],
 ["Grammar.ParseString/ParseTokens results over a history"])

prop("C06", "Tracing and logging options never change the outcome of a parse",
 "For every combination of trace settings and of per-rule or per-parse debug and log options, a grammar accepts the same texts with the same AST, the same error positions and the same callbacks as with tracing muted, and never crashes because of them. Debugging one parse leaves the settings of the grammar unchanged afterwards, even when that parse fails or a callback panics.",
 ["configurations", "programs", "inputs"],
 "every combination of trace settings (stack, loop, grammar, line filter, setup skipping), per-rule and per-parse options, valid UTF-8 texts, grammars with and without left recursion",
 "Only a few option combinations are ever enabled by hand; the trace code is woven in the hot path and dereferences intermediate results which may be absent.",
 ["packrat.go", "parsectx.go", "grammar.go", "parseoption.go", "traceoptions.go", "line.go"],
 [("trace branches", "packrat.go loopify"), ("log prefix", "parsectx.go String/log"), ("temporary stack tracing", "grammar.go (*Grammar).parse")],
 ["results under each configuration", "trace settings after the parse", "stdout after a Debug parse"])

prop("C07", "Parse errors report a truthful position",
 "When the text is only matched partially, the parse yields an error value (never a partial AST) whose reported offset is the furthest position at which some rule matched at or after the point where parsing stopped. The reported line and column are those of that offset in the user's text, counting newlines from zero, whatever the text contains.",
 ["programs", "inputs"],
 "every grammar without left recursion, every text not fully matched, single and multi-line, with multi-byte characters; character and token streams",
 "A couple of error strings are compared in tests, on single-line inputs; the position depends on every rule attempted.",
 ["grammar.go", "codestream_rune.go", "codestream_token.go", "parseerror.go"],
 [("furthest success search over memoized frames", "grammar.go (*Grammar).parse"), ("offset to line/column", "codestream_rune.go PosToLine/PosToCol, codestream_token.go coords")],
 ["ParseError.ErrorString: char, line, col"])

prop("C08", "The character stream cursor behaves like an index into the text",
 "After any sequence of operations a character stream's offset equals the one of a simple cursor over the text: matching a string, expression or character succeeds exactly when the text at the cursor does and then advances by exactly the matched bytes, failing leaves it unmoved, reading until a delimiter stops right after its first occurrence, and peeking characters or lines never moves it and returns exactly the requested neighbourhood clipped to the text. Offsets out of the text are refused, and line and column of any offset agree with counting newlines.",
 ["histories", "inputs"],
 "every text (multi-byte, empty lines, with or without a final newline), every sequence of cursor operations and arguments",
 "Tests walk two or three texts with fixed operations; clipping at both ends, ranges outside the text and multi-byte boundaries combine.",
 ["codestream_rune.go", "helpers/helpers.go", "helpers/bisect.go"],
 [("cursor operations", "codestream_rune.go"), ("line starts and bisection", "codestream_rune.go NewRuneStream, helpers/bisect.go")],
 ["CodeStream methods"])

prop("C09", "Token streams map every tokenized position to its place in the source",
 "For every source text and every sequence of tokens taken from it, the stream's cursor operations behave like a cursor over the concatenated tokens, and each position inside a token is reported at the line and column of the corresponding character of the original text. Parsing tokens yields the same outcome as parsing the concatenated text, only with positions expressed in the original text.",
 ["inputs", "histories", "programs"],
 "every source text (multi-line, multi-byte), every token segmentation of it, every sequence of cursor operations, every grammar",
 "Tests check a dozen positions of two fixed samples, never the last token; mapping depends on gaps between tokens and on which token a position falls in.",
 ["codestream_token.go", "grammar.go"],
 [("work offset to original offset", "codestream_token.go coords"), ("cursor over the joined tokens", "codestream_token.go")],
 ["CodeStream methods", "Grammar.ParseTokens"])

prop("C10", "Go source tokenization is faithful and reports lexical errors",
 "For every Go source text without lexical error, the token stream built from it contains exactly the tokens of the Go lexer, automatic semicolons included, in order: reading the tokenized text again with the Go lexer gives the same tokens, and each token is located at its place in the source. For every text with a lexical error, an error is returned instead, whatever was tokenized before.",
 ["inputs", "histories"],
 "every text: sequences of Go tokens with arbitrary spacing and comments, non-ASCII identifiers, raw strings, arbitrary characters; sequences of calls",
 "Tests tokenize a handful of valid ASCII snippets and never an invalid one.",
 ["codestream_token.go"],
 [("tokenization loop", "codestream_token.go TokenStreamFromGoCode"), ("separation of tokens", "codestream_token.go mustInsertSpaceAfter, wouldFuse"), ("error collection", "codestream_token.go TokenStreamFromGoCode")],
 ["TokenStreamFromGoCode", "TokenStream.PrintWorkText", "PosToLine/PosToCol"])

prop("C11", "The self-hosted joeson grammar is equivalent to the handcompiled one",
 "The grammar of the rule language, compiled from its own textual definition by the handcompiled grammar, accepts the same rule texts, compiles them to the same structure and yields grammars which parse every text with the same outcome as the handcompiled grammar does. This holds for any number of bootstrap generations.",
 ["programs", "inputs"],
 "every rule text, valid or not; every grammar compiled with generation 0, 1, 2, ... ; every parsed text",
 "The bootstrap test compiles the grammar twice and compares only its rule count and that it still parses itself.",
 ["joeson_handcompiled.go", "joeson_intention.go", "grammar.go", "line.go"],
 [("handcompiled rules", "joeson_handcompiled.go JoesonRules"), ("textual rules", "joeson_intention.go IntentionRules"), ("compilation with a given grammar", "GrammarOptions.LazyGrammar")],
 ["ParseString of rule texts", "behaviour of grammars built through LazyGrammar"])

prop("C12", "Rule texts compile by documented precedence, whatever their layout",
 "Adding or removing spaces and newlines between the elements of a rule, redundant parentheses, leading or trailing pipes or escapes that denote the same characters never changes what the rule compiles to. Postfix operators bind tighter than prefix negation, which binds tighter than sequencing, which binds tighter than alternation, and an unparenthesized positive lookahead extends to the end of its alternation.",
 ["programs"],
 "every rule expression, every equivalent way of writing it",
 "Tests write each rule in one layout.",
 ["joeson_handcompiled.go", "joeson_intention.go", "line.go"],
 [("rule grammar", "joeson_handcompiled.go JoesonRules"), ("escapes", "joeson_handcompiled.go ESC1/ESC2")],
 ["compiled structure (String) and parse outcomes"])

prop("C13", "Vertical ranks are equivalent to horizontal choices",
 "A rank of 'o' lines parses every text exactly as the ordered choice of the same alternatives written on one line, at the top level as well as nested. 'i' lines never take part in the alternation and may be declared anywhere in the tree, in any order, without changing the outcome; naming an unreferenced 'o' line changes nothing either.",
 ["programs", "inputs"],
 "every grammar: any alternation expressed as choice or rank, any placement and order of 'i' lines, named or anonymous alternatives; every text",
 "Tests show two or three equivalent spellings on a couple of texts.",
 ["parser_rank.go", "parser_choice.go", "line_o.go", "line_i.go", "line.go", "grammar.go", "walk.go", "rule.go"],
 [("rank construction", "parser_rank.go rankFromLines"), ("collecting rules of the tree", "grammar.go postinit"), ("naming of anonymous lines", "line_o.go toRule")],
 ["Grammar.ParseString results of both spellings"])

prop("C14", "Rule callbacks see each match once, in order, and decide its production",
 "The callback of a rule is called exactly for the successful matches of that rule, inner matches before the ones containing them, with the production of the rule's expression and the stream positioned at the end of the match; what it returns becomes the production seen by the enclosing rules. Returning nothing makes the rule fail so that other alternatives are tried, panicking with a parse error reaches the caller unchanged, and the three supported callback signatures are interchangeable.",
 ["programs", "inputs", "fault_sequences"],
 "every grammar without left recursion, callbacks on any rules (mapping, failing for some productions, panicking at any invocation), every text",
 "Tests attach callbacks to a few rules and look at the final result only.",
 ["packrat.go", "line.go", "parseoption.go", "parsectx.go", "parseerror.go"],
 [("callback invocation", "packrat.go prepareResult"), ("signature adaptation", "line.go lineInit"), ("ctx.Error", "parsectx.go Error")],
 ["log of callback invocations", "recovered panic value", "result"])

prop("C15", "AST nodes carry the span of the text they were produced from",
 "For every accepted text, the node produced by a rule's callback is given an origin whose start and end delimit exactly the text matched by that rule, whose line is the line where the match ends, whose code is the whole source text, and which names the rule. This holds as well for nodes obtained from the cache, nested rules, ranks and left-recursive rules.",
 ["programs", "inputs"],
 "every grammar where each rule builds a fresh node, left-recursive or not, every accepted text; character and token streams",
 "No test looks at origins.",
 ["packrat.go", "attr.go", "ast.go"],
 [("origin setting", "packrat.go prepareResult"), ("storage", "attr.go SetOrigin/GetOrigin")],
 ["Ast.SetOrigin/GetOrigin of user nodes"])

prop("C16", "Any text and any nesting is handled: a result or a parse error, never a crash",
 "For every grammar and every byte string, including invalid UTF-8, control characters, very long and very deeply nested texts, the parse terminates with an AST for the whole text or an error value describing where it stopped; it never crashes, never hangs, and never depends on characters which the grammar does not look at. Repetitions of expressions which match the empty string terminate as well.",
 ["inputs", "programs"],
 "every byte string, texts nested or repeated thousands of levels deep, nullable expressions inside repetitions",
 "Tests only use short, well-formed texts and never nullable repetitions.",
 ["grammar.go", "packrat.go", "parsectx.go", "parser_pattern.go", "codestream_rune.go"],
 [("growing stack of frames", "parsectx.go stackPush"), ("no-progress guard", "parser_pattern.go parse"), ("error rendering", "grammar.go (*Grammar).parse")],
 ["ParseString outcome or panic", "CPU time and memory of the parse"])

prop("C17", "Native values behave like the strings, integers, arrays and maps they wrap",
 "Native maps keep their keys in order of first insertion, return the last value set for each key, tell present, absent and undefined keys apart, and convert and concatenate values in key order; native arrays keep their elements in order and concatenate nested strings, skipping undefined values. Conversions between native strings, integers and arrays round-trip, and impossible conversions are refused rather than yielding a wrong value.",
 ["histories", "inputs"],
 "every sequence of operations on maps and arrays, every nested value",
 "One test sets two keys and reads them.",
 ["native_map.go", "native_array.go", "native_int.go", "native_string.go", "native_undefined.go"],
 [("ordered keys", "native_map.go Set/Keys"), ("conversions", "native_int.go NativeIntFrom, native_string.go NativeStringFrom, native_map.go GetIntExists/GetStringExists"), ("concatenation", "native_array.go Concat, native_map.go Concat")],
 ["methods of the Native types"])

prop("C18", "Helper functions satisfy their documented contracts on all arguments",
 "Bisection returns the documented insertion points and insertion keeps slices sorted; slicing follows JavaScript's slice for any pair of indices; taking the last characters returns whole characters in the requested order; padding, indentation and escaping preserve the text they decorate; stripping colours undoes colouring; a lazy value is computed at most once and can be overridden.",
 ["inputs", "histories"],
 "every argument: negative, out of range, multi-byte; every sequence of operations on lazy values",
 "Tests enumerate one 4-letter string and a single insertion.",
 ["helpers/helpers.go", "helpers/bisect.go", "helpers/lazy.go", "helpers/stripansi.go", "helpers/mapsorter.go", "colors.go"],
 [("bisection", "helpers/bisect.go"), ("SliceString, LastNRunes, Pad*, Escape", "helpers/helpers.go"), ("Lazy", "helpers/lazy.go"), ("StripAnsi", "helpers/stripansi.go")],
 ["return values"])

prop("C19", "Trace settings are read from the environment as documented",
 "For every value of the TRACE environment variable (or its lowercase variant when unset), the resulting settings are those of its comma-separated options applied from left to right over muted settings, unknown or malformed options are refused, and without the variable the documented defaults apply. Explicitly built settings ignore the environment, and copies of settings are equal and independent.",
 ["configurations", "inputs"],
 "every list of options, valid or not, in either variable",
 "No test sets the variable.",
 ["traceoptions.go"],
 [("environment parsing", "traceoptions.go checkEnvironmentForTraceOptions"), ("presets and copy", "traceoptions.go Mute/Verbose/Copy")],
 ["fields of the returned settings"])

prop("C20", "Texts outside the rule language are rejected when the grammar is built",
 "Every rule text which the rule language does not derive, including an unbalanced bracket or quote, a dangling operator or label, an invalid range or an invalid regular expression, makes building the grammar fail, and every text which it derives builds a grammar. Building always terminates, and a rejected build leaves later builds unaffected.",
 ["programs", "histories"],
 "every text used as a rule: valid rules, valid rules with a few random edits, random strings over the rule alphabet",
 "Tests contain no malformed rule.",
 ["line.go", "joeson_handcompiled.go", "parser_regex.go", "grammar.go"],
 [("compilation error", "line.go getRule (sLine case)"), ("rule grammar", "joeson_handcompiled.go JoesonRules"), ("regexp compilation", "parser_regex.go newRegexFromString")],
 ["panic or not when building", "ParseString of the joeson grammar"])

prop("C21", "Grammars with callbacks compute what they are written to compute",
 "Complete grammars in the style of the documentation (left-recursive and iterative calculators with precedence, colours, key-value and JSON-like data, S-expressions) evaluate every well-formed text to the value an independent evaluator gives, and reject every ill-formed one. The value does not depend on the layout of the text nor on how the grammar was spelled.",
 ["inputs", "programs"],
 "every expression of the application languages, with arbitrary nesting, spacing and literals, and mutations of them",
 "Example tests evaluate about ten fixed expressions per grammar.",
 CORE + ["packrat.go", "line.go", "native_int.go", "native_map.go"],
 [("whole pipeline", "GrammarFromLines, ParseString, callbacks")],
 ["value computed by the callbacks"])

prop("C22", "Independent grammars and streams can be used from concurrent goroutines",
 "Building and using separate grammars, streams and native values from different goroutines gives each the same outcome as running alone, without data races.",
 ["schedules", "programs", "inputs"],
 "every set of workloads (building, parsing characters or tokens, tokenizing Go, tracing settings) run on separate goroutines",
 "Tests are sequential; package-level state is invisible to them.",
 ["grammar.go", "codestream_token.go", "line.go", "joeson_handcompiled.go", "helpers/helpers.go"],
 [("no shared mutable package state", "package-level variables")],
 ["results per goroutine", "race detector reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
