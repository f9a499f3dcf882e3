#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

# ------------------------------------------------------------------ lexing
p("C01", "The token stream mirrors the source text",
  "For every valid source text and every scan mode, tokenizing yields exactly the tokens of the Go-like lexical grammar (Go operators plus '?', '~', '@', and '#' line comments) under longest match, in source order, each with the right kind, literal text and byte position, and each position maps back to the right line (also across multi-line comments, multi-byte characters and //line directives). Nothing other than whitespace, a leading byte-order mark and (unless comments are requested) comments is skipped, nothing is duplicated, and a token's reported end is where its source text ends.",
  ["inputs", "configurations"], "every well-formed byte string x every combination of comment mode and semicolon mode",
  "The scanner test tokenizes one fixed text; the lexical grammar has about 60 token shapes whose adjacency, encoding and position interactions are unbounded.",
  ["tpl/scanner.go", "tpl/token.go", "tpl/match.go"],
  [("longest-match scanning", "tpl/scanner.go Scan"), ("line table maintenance", "tpl/scanner.go next, interpretLineComment"), ("token end", "tpl/scanner.go Token.End")],
  ["Matcher.Tokenize", "Scanner.Scan", "Token.End", "TokenSource.File.Line"])
p("C02", "Automatic semicolons appear exactly where the rule says",
  "With semicolon insertion on, a newline or the end of the text yields exactly one ';' token if and only if the last token before it is an identifier or keyword, a literal, ')', ']', '}', '++' or '--'; comments of any style between that token and the line end neither suppress, duplicate nor displace it, and a comment without a newline never causes one. With insertion off no ';' is ever inserted, and a ';' written in the source is always reported.",
  ["inputs", "configurations"], "every source text x scan mode",
  "The tests contain three inserted semicolons next to two comment styles; the rule is a state machine over all token/comment/newline sequences.",
  ["tpl/scanner.go"],
  [("insert-semicolon flag", "tpl/scanner.go Scan"), ("comment look-ahead", "tpl/scanner.go findLineEnd")],
  ["Matcher.Tokenize"], [{"name": "insertSemi", "meaning": "last token may end a statement", "where": "tpl/scanner.go Scanner"}])
p("C03", "Lexical errors are reported exactly when the text is malformed",
  "A text with a malformed token (unterminated string, rune, raw string or block comment; bad escape; rune literal not holding one character; illegal hexadecimal or octal number; illegal character, NUL, invalid UTF-8 or misplaced byte-order mark) is rejected with a lexical error and nothing is matched or executed on its behalf; a text without one never is. Tokenizing terminates without panicking on every byte string, and a rejected text leaves no trace in how the next text is tokenized.",
  ["inputs", "histories"], "every byte string, and every sequence of texts given to one tokenizer",
  "No existing test feeds a malformed text.",
  ["tpl/scanner.go", "tpl/match.go"],
  [("scan error handler", "tpl/scanner.go error, scanEscape, scanNumber, scanString, scanRune"), ("abort on error", "tpl/match.go Tokenize")],
  ["Matcher.Tokenize", "Scanner.ErrorCount"])
# ------------------------------------------------------------------ grammar matching
p("C04", "Grammars match with ordered, greedy, non-backtracking semantics",
  "For every grammar and token sequence, whether matching succeeds and how many tokens it consumes is exactly what the rules say: a sequence matches its parts one after another, a choice takes its first matching alternative, * + ? and lists take as many repetitions as match and never give one back, look-ahead (@, ~) consumes nothing, 1 always matches, EOF matches only at the end, and an INT token is accepted where FLOAT is required. Matching terminates for every grammar without left recursion, including repetitions of rules that can match nothing.",
  ["programs", "inputs"], "every grammar (as built by the combinators) x every token sequence",
  "Tests run one calculator grammar on one expression; the combinators compose without bound.",
  ["tpl/grammar.go", "tpl/match.go"],
  [("combinators", "tpl/grammar.go grAnd, grOr, grRepeat0/1/01, grList, grPeek, grNot, grEOF, grToken, GrVar, GrNamed")],
  ["Grammar.Match"])
p("C05", "Actions run once per successful match, in order, with its tokens",
  "An action attached to a rule runs exactly once each time that rule matches - after the actions of its parts and before anything that follows - and never when the rule fails; it receives exactly the tokens the rule matched. The repetition count it can ask for equals the number of elements of that very match (for *, +, ?, lists) or the number of parts (sequence, choice), also when the rule is recursive or re-used.",
  ["programs", "inputs"], "every grammar with actions x every token sequence",
  "Tests observe one action trace of one expression; counts under recursion, backtracking and re-use are not sampled.",
  ["tpl/grammar.go"],
  [("action wrapper", "tpl/grammar.go grAction"), ("repetition counters", "tpl/grammar.go len fields")],
  ["action callbacks", "Grammar.Len"])
p("C06", "Transactions bracket exactly one match attempt",
  "A rule wrapped in a transaction calls begin exactly once before each attempt to match it and end exactly once after it, with the value that begin returned and with an error exactly when the attempt failed; transactions nest properly and the wrapped rule matches exactly as it would unwrapped. (A match aborted as a whole, by a cut or by a panicking action, ends no open transaction.)",
  ["programs", "inputs"], "every grammar with transactions x every token sequence",
  "No test exercises transactions directly; only one extractor grammar does implicitly.",
  ["tpl/grammar.go"],
  [("transaction wrapper", "tpl/grammar.go grTrans")], ["begin/end callbacks"])
p("C07", "A cut forbids backtracking",
  "Once the parts of a sequence before '!' have matched, failure of a later part of that sequence aborts the whole match at once with a match error: no other alternative, repetition end, option or look-ahead absorbs it and no further action runs. A failure before the '!' is an ordinary failure that other alternatives may recover from.",
  ["programs", "inputs"], "every grammar containing cuts x every token sequence",
  "The only cuts exercised by tests are in inputs that match.",
  ["tpl/grammar.go"],
  [("fail fast", "tpl/grammar.go grAnd.Match")], ["panic value of Grammar.Match", "Matcher.MatchExactly"])
p("C08", "A failed match reports the furthest, right position",
  "When a match fails, the error names the rule and the source position of the failure: among the alternatives of a choice the unique one that got furthest is blamed, and if several tie the choice itself is blamed at its own start; left-over input is blamed on the first unconsumed token; a cut failure is located at the part that failed. Rendering the error always succeeds and shows that position's line number and the source text up to it.",
  ["programs", "inputs"], "every grammar x every token sequence it rejects",
  "No test looks at a match error.",
  ["tpl/grammar.go", "tpl/match.go", "tpl/compiler.go"],
  [("deepest failure", "tpl/grammar.go grOr.Match"), ("error rendering", "tpl/grammar.go MatchError.Error, calcErrorInfo"), ("left-over error", "tpl/match.go MatchExactly")],
  ["MatchError fields", "MatchError.Error()"])
# ------------------------------------------------------------------ compiler
p("C09", "Grammar text compiles to the grammar it denotes",
  "Every well-formed grammar text compiles to a grammar that matches, runs marks and counts exactly as its text says under the documented precedence (parentheses; prefix * + ? @ ~; lists, marks; sequence and '!'; choice), for rules in any order including recursive and forward references and a start rule that is itself referenced. The marker is called once per written mark, in textual order, and every quoted word becomes a keyword that only that word matches and that no longer counts as an identifier.",
  ["programs", "inputs"], "every grammar text x every input text",
  "One grammar text is compiled by the tests.",
  ["tpl/compiler.go"],
  [("grammar of grammars with semantic stack", "tpl/compiler.go Cl"), ("keyword discovery", "tpl/compiler.go AutoKwScanner")],
  ["Compiler.Cl", "Matcher.MatchExactly", "CompileRet.Grammars"])
p("C10", "Ill-formed grammar texts are always rejected",
  "Compiling a grammar text that is syntactically wrong, names an unknown token, defines a rule twice, uses a rule that is never defined, or lacks the start rule fails with an error or panic carrying an error - it never yields a usable grammar - and no well-formed grammar text is rejected. A failed compilation leaves nothing behind that changes a compilation by another compiler.",
  ["programs", "histories"], "every byte string offered as grammar text",
  "No test compiles an ill-formed grammar.",
  ["tpl/compiler.go"],
  [("rule table checks", "tpl/compiler.go assign, ident, gr")], ["Compiler.Cl"])
p("C11", "A grammar's printed form denotes the same grammar",
  "Printing any grammar that can be written as text and compiling the printed text again yields a grammar with the same behaviour on every input: same acceptance, same consumption, same cuts. Printing is a fixed point: printing the recompiled grammar gives the same text.",
  ["programs"], "every grammar expressible in the grammar language",
  "A test prints a grammar but does not look at the result.",
  ["tpl/grammar.go"],
  [("level-based parenthesization", "tpl/grammar.go Marshal methods")], ["Code", "Compiler.Cl"])
p("C12", "A matcher is exact, reusable and history independent",
  "Exact matching succeeds if and only if the start rule matches and consumes every token; plain matching returns precisely the unconsumed tokens; matching a named sub-rule on text or on a token slice obeys the same rule. The outcome for a text depends on that text alone: not on the texts (matching, failing, cut, lexically malformed or ending in a panic of an action) processed before by the same matcher, whose initializer runs before each whole-text match.",
  ["histories", "inputs"], "every sequence of texts and entry points on one compiled grammar",
  "Each test uses a compiled grammar once.",
  ["tpl/match.go", "tpl/compiler.go"],
  [("fresh token file and scanner init per match", "tpl/match.go Tokenize"), ("sub-rule evaluation", "tpl/compiler.go EvalSub")],
  ["Match", "MatchExactly", "Eval", "EvalSub"])
# ------------------------------------------------------------------ interpreter engine
p("C13", "Marks call the bound function with the bound arguments",
  "Each time a marked rule matches, the function registered under that mark is called exactly once, with arguments determined by its signature and the mark's spelling: receiver (stack or interpreter), repetition count for capitalized marks, matched tokens, engine, context, or the first token's literal converted to the parameter type (hex and octal integers included); a function without receiver gets its operands popped from the stack in order and its results pushed back. A mark without a function, a non-function, a variadic function or one without parameters, and a function with receiver that has too many parameters or results other than one error is refused when the engine is created; an argument that cannot be converted to its parameter's type is a runtime error, and the function is not called.",
  ["programs", "inputs"], "every grammar with marks x function table x input",
  "Tests reach marks only through one script and three number literals.",
  ["tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"],
  [("marker / action", "tpl/interpreter/interpreter.go New"), ("literal conversion", "tpl/interpreter/interpreter.go ParseInt, ParseFloat, GetValue"), ("stack call", "tpl/interpreter.util/call.go DoCall, Call, VCall")],
  ["function table callbacks", "Stack contents"])
p("C14", "Muting suppresses exactly the muted marks",
  "Between a mute and its matching unmute, ordinary marks do not run; marks starting with '_' still run at mute depth one and are suppressed when muting is nested deeper; after the matching unmute everything runs again. Muting never changes what is matched, and mute left over from a failed, cut or panicking match does not affect the next one.",
  ["programs", "inputs", "histories"], "every grammar with mute/unmute marks x input sequences on one engine",
  "Only reached through the nesting of one script.",
  ["tpl/interpreter/interpreter.go"],
  [("mute counter", "tpl/interpreter/interpreter.go New"), ("reset", "tpl/interpreter/interpreter.go initer")],
  ["function table callbacks"], [{"name": "mute", "meaning": "nesting depth of muting", "where": "tpl/interpreter/interpreter.go Engine"}])
p("C15", "Sub-evaluation restores the engine; errors carry their place",
  "Evaluating a captured piece of code re-runs exactly that code's tokens under the given rule and interpreter, and afterwards - also when it fails or panics - the interpreter and mute state are what they were. An error or panic (with a string or error value) raised by a marked function reaches the caller as a runtime error carrying the original error and the file and line of the innermost marked rule that raised it, and is not wrapped again on its way out.",
  ["programs", "inputs", "fault_sequences"], "every nesting of evaluations x every failing call position",
  "One test checks one message of one panic.",
  ["tpl/interpreter/interpreter.go", "tpl/compiler.go"],
  [("EvalCode save/restore", "tpl/interpreter/interpreter.go EvalCode"), ("error wrapping", "tpl/interpreter/interpreter.go action recover")],
  ["EvalCode", "RuntimeError"])
p("C16", "The calculators compute the value the expression denotes",
  "For every expression of the float, complex and rational calculators, the result is the value under standard precedence, left associativity, unary signs and parentheses, with function calls applied to all their arguments in order; rational results are exact at any size. A wrong argument count, an unknown function or symbol, a division by zero on rationals, or a malformed expression is reported as a failure rather than a value, and evaluating it does not disturb later evaluations on the same calculator.",
  ["inputs", "histories"], "every expression, every sequence of expressions on one calculator",
  "No test evaluates an expression with any calculator.",
  ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", "tpl/interpreter.util/call.go"],
  [("calculator grammars", "number.go, cmplx.go, big.go Grammar"), ("operand stack", "PopArgs/PushRet"), ("function dispatch", "Calculator.Call")],
  ["engine.Eval", "Calculator.Ret"])
p("C17", "Extraction returns exactly the marked data",
  "The extracted document contains, for every marked rule that matched, its value converted to the marked type under the marked name at the place given by the enclosing node marks, and nothing else: array marks collect all their elements in source order even when interleaved with other marks, node marks nest, and node-array marks yield one sub-document per match. Values that cannot be converted make the extraction fail instead of yielding a wrong document.",
  ["programs", "inputs"], "every extraction grammar x input",
  "Two flat grammars with one input each.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go"],
  [("cons-list document", "tpl/extractor/document.go insertLeaf, insertNode, toMap"), ("mark parsing and conversion", "tpl/extractor/extractor.go New, GetValue")],
  ["Extract", "SafeParse", "Result"])
p("C18", "Abandoned nodes leave nothing in the extracted document",
  "When a node rule was tried but failed, none of the data collected inside it (nodes, leaves, arrays, at any depth) appears in the document and data collected before it is untouched; collection continues in the enclosing node. Each extraction starts from an empty document whatever the previous one on the same extractor did, including failing, being cut or panicking in the middle of a node.",
  ["programs", "inputs", "histories"], "every grammar with node marks in alternatives, options, repetitions and look-aheads x input sequences",
  "No test backtracks out of a node or re-uses an extractor.",
  ["tpl/extractor/extractor.go", "tpl/grammar.go"],
  [("transaction rollback", "tpl/extractor/extractor.go marker"), ("reset", "tpl/extractor/extractor.go initer")],
  ["Extract", "SafeParse"])
# ------------------------------------------------------------------ qlang
p("C19", "Script expressions evaluate left to right to the right value",
  "Every script expression yields the value and effects given by precedence (unary; * / %; + -; comparisons; &&; ||), left associativity, left-to-right evaluation of operands and arguments exactly once, integer/float promotion and string concatenation and comparison; && and || evaluate their right side only when needed. Operands of unsupported types, integer division by zero and non-boolean left operands of && and || raise an error instead of yielding a value.",
  ["programs"], "every expression over literals, variables, calls, operators, indexing and literals of slices and maps",
  "Two scripts; no test observes evaluation order, promotion or an operator error.",
  ["tpl/qlang/cl/qlang.go", "tpl/qlang/cl/ctrl.go", "tpl/qlang/lib/builtin/number.go", "tpl/qlang/lib/builtin/boolean.go"],
  [("expression grammar", "tpl/qlang/cl/qlang.go Grammar"), ("short circuit", "tpl/qlang/cl/ctrl.go And, Or"), ("operators", "tpl/qlang/lib/builtin")],
  ["host callbacks", "Var", "Ret"])
p("C20", "Script control flow executes exactly the chosen code",
  "if/elif/else evaluates conditions in order, runs only the first true branch (or else); switch runs only the first case equal to the subject (or the first true case without subject), evaluating no later case; for evaluates init once, the condition before and the step after each iteration. Each construct used as an expression yields the value of the branch it ran (nil when none or when the branch ends in a statement separator), code in untaken branches has no effect at all, and a non-boolean condition is an error.",
  ["programs"], "every nesting of control structures and conditions",
  "Two scripts with fixed control paths.",
  ["tpl/qlang/cl/ctrl.go", "tpl/qlang/cl/qlang.go"],
  [("captured code and sub-evaluation", "tpl/qlang/cl/ctrl.go If, Switch, For, evalCode")],
  ["host callbacks", "Var"])
p("C21", "Script variables follow the scoping rules",
  "A name denotes the variable of the innermost function that owns it, otherwise that of the nearest enclosing function, otherwise the built-in; closures share and see later updates of the variables they use, each call gets fresh parameters and locals, and names starting with '_' are never inherited from enclosing functions. A function may modify an outer variable only after it has used it; assigning one it has not used is an error that changes nothing, as is reading an undefined name; multiple assignment binds each name to its own element and unset removes exactly the named variable.",
  ["programs", "histories"], "every nesting of functions, variable accesses and call histories",
  "One script with three functions and shared variables.",
  ["tpl/qlang/cl/function.go"],
  [("variable lookup and extern caching", "tpl/qlang/cl/function.go getRef, getVar, getVars, Assign, MultiAssign, Unset"), ("call frames", "tpl/qlang/cl/function.go Function.Call")],
  ["Var", "host callbacks"], [{"name": "vars / parent / externVar", "meaning": "scope chain", "where": "tpl/qlang/cl/qlang.go Interpreter"}])
p("C22", "Calls, returns, defers, panics and recover follow one discipline",
  "A call binds arguments to parameters in order (collecting the rest for '...' parameters, spreading for '...' arguments; a count mismatch is an error), return leaves exactly the current function from any depth with the given value (nil without one), and every deferred expression runs exactly once, last first, when its function or the program exits, whatever the reason. A panic propagates through all callers, running their deferred code, until deferred code of an exiting function recovers it - then that function returns normally; a panic in deferred code replaces the one in progress and does not prevent the remaining deferred code.",
  ["programs", "fault_sequences"], "every call tree x position of return, defer, panic and recover",
  "No test uses defer or recover; one panics at the top level.",
  ["tpl/qlang/cl/function.go", "tpl/qlang/engine.go"],
  [("call protocol", "tpl/qlang/cl/function.go Function.Call, Return, Defer, ExecDefers, Recover"), ("top level", "tpl/qlang/engine.go SafeExec")],
  ["host callbacks", "SafeEval error"])
p("C23", "Script containers and built-ins behave as values of their kind",
  "Slice and map literals, indexing, slicing, append, set, get, delete, len, cap, mkmap, slice, mapFrom, min, max and the conversions give the contents, element types (all-int, all-float, all-string or mixed), sharing and lengths their operands determine; an absent map key yields undefined and storing undefined removes the key. Out-of-range indices, wrong key or element types and wrong argument counts raise an error and leave the container as it was before the failing element.",
  ["inputs", "histories"], "every sequence of container operations over all operand types",
  "Tests append ints to one slice and index it.",
  ["tpl/qlang/lib/builtin/builtin.go", "tpl/qlang/lib/builtin/number.go", "tpl/qlang/lib/builtin/types/types.go", "tpl/qlang/cl/qlang.go"],
  [("type dispatch", "tpl/qlang/lib/builtin/*.go"), ("index operator", "tpl/qlang/cl/qlang.go Index")],
  ["built-in functions", "Var"])
p("C24", "Objects keep their own state and dispatch to their class",
  "new creates a distinct object of the class and runs its _init with exactly the given arguments before anyone else sees it; a member name denotes the object's own variable, otherwise the class method bound to that object, otherwise it is an error; bound methods keep their object wherever they are called from. Setting a variable affects that object only, and a variable can never replace a method.",
  ["programs", "histories"], "every class declaration x sequence of object operations",
  "No test declares a class.",
  ["tpl/qlang/cl/class.go"],
  [("class and object representation", "tpl/qlang/cl/class.go newClass, New, MemberRef, SetVar, thisDeref")],
  ["Var", "host callbacks"])
p("C25", "An embedded script engine stays consistent across evaluations",
  "Variables set by the host or by an evaluation are visible to all later evaluations on the same engine and only there; the result of an evaluation is the value of its last statement; an evaluation that ends in an error (lexical, syntactic, runtime, panic, at any depth of nesting) is reported as an error to the safe entry points (a panic value that is neither a string nor an error reaches the host as that panic), keeps the effects that happened before the failure and no others, and leaves the engine evaluating later scripts as if it had not happened.",
  ["histories", "fault_sequences"], "every sequence of evaluations and host accesses, with failures at any point",
  "Each test evaluates one script on a fresh engine.",
  ["tpl/qlang/engine.go", "tpl/qlang/cl/qlang.go", "tpl/qlang/cl/ctrl.go"],
  [("engine reset", "tpl/interpreter/interpreter.go initer"), ("base frame and Clear", "tpl/qlang/cl/function.go Clear, ctrl.go evalCode"), ("SafeExec", "tpl/qlang/engine.go")],
  ["SafeEval", "Ret", "Var", "SetVar"])
# ------------------------------------------------------------------ other
p("C26", "Generated static grammars equal the compiled ones",
  "For every grammar text the static generator accepts (with rule names that are usable as Go variable names), the generated Go source builds against this library and yields a grammar that accepts the same inputs and runs the same marks as compiling that text at run time; grammar texts the compiler rejects are rejected by the generator as well.",
  ["programs", "inputs"], "every grammar text x every input",
  "The test runs one hand-adjusted pre-generated file; the generator itself is never run.",
  ["tpl/generator/static_parser_gen.go", "tpl/cmd/tplgen/main.go", "tpl/cmd/tplgen/output.tpl"],
  [("code emitting semantic actions", "tpl/generator/static_parser_gen.go GenStaticCode")],
  ["generated Cl()", "generated source compiles"])
p("C27", "Independent engines never influence each other",
  "Matchers, calculators, extractors and script engines created separately behave, under every interleaving of their operations - including concurrent use from different goroutines and use of one from within a callback of another - exactly as each would alone.",
  ["schedules", "histories"], "every interleaving of the steps of several engines",
  "Tests run one engine at a time.",
  ["tpl/compiler.go", "tpl/interpreter/interpreter.go", "tpl/qlang/cl/qlang.go", "tpl/extractor/extractor.go", "tpl/qlang/spec/spec.go"],
  [("state per engine, shared tables read-only", "constructors of all engines")],
  ["results and callbacks of every engine"])
p("C28", "Scripted interpreters run like native ones",
  "An interpreter written in the script language (grammar, function table and stack given as script classes) dispatches marks, arguments, muting and stack operands exactly like a native interpreter with the same grammar, and reports failures as errors.",
  ["programs", "inputs"], "every scripted grammar and function table x input",
  "No test creates a scripted interpreter.",
  ["tpl/qlang/cl/interpreter/interpret.go"],
  [("scripted marker / action", "tpl/qlang/cl/interpreter/interpret.go newEngine")],
  ["Exec", "Eval", "EvalCode", "scripted stack contents"])
p("C29", "Scripts call Go functions faithfully",
  "A Go function given to a script - as a variable, an entry of a module or map, a method of a Go value, or a value with a Call method - is called exactly once per executed call with the script's arguments in order (all of them for variadic functions, the elements of the slice for a spread argument), each as the parameter's type (any integer or float32 where float64 is required; nil for interfaces and pointers; interfaces take what implements them), or, when number or types do not fit, not called at all and an error reported. Results return unchanged except that integers become int, float32 becomes float64, none becomes nil and several become a slice; results declared as interfaces come back as they are. A member of a Go value is its method or field of the capitalised name and of a map or module its entry, and a missing one is an error; methods without parameters of types registered with SetAutoCall are called when read. A module or symbol is imported once; safe mode lets a module replace its entries.",
  ["programs", "inputs", "histories"], "every function signature x argument values x host values x statement histories",
  "Tests call a handful of builtins and strings functions with well-typed arguments.",
  ["tpl/interpreter.util/call.go", "tpl/qlang/cl/qlang.go", "tpl/qlang/cl/class.go", "tpl/qlang/cl/function.go", "tpl/qlang/spec/spec.go"],
  [("call by reflection", "tpl/interpreter.util/call.go"), ("conversion of results", "tpl/qlang/cl/qlang.go castVal, PushRet"), ("member lookup", "tpl/qlang/cl/class.go MemberRef"), ("Import, SetAutoCall", "tpl/qlang/spec/spec.go")],
  ["arguments received by Go functions", "results in the script", "Import", "SetAutoCall"])
p("C30", "The converter converts every file or says which run failed",
  "A run of tplconv extracts each file it is given, in order, with the grammar that the last extension of the file's name selects (input/EXT.tpl in ~/.tplconv) and writes the extracted document, once per file, in the form asked for with -o: JSON by default and for json, or a page made by the .html or .htm template of that name (output/NAME in ~/.tplconv) in which json gives the document as JSON, escaped as the page requires. Documents go to the standard output, or with -ext to the file with that extension appended to the input's name, whose old content they replace. The run ends with exit code 0 exactly when every file was converted; it ends at the first file that cannot be read, has no extension or no valid grammar, does not match, or whose form is unknown or invalid, with a message on the standard error and exit code 2, after the files before it have been written and before anything of the files after it is; a file whose text is not extracted leaves an old output as it was. Without files it ends with exit code 1. No other file is changed.",
  ["inputs", "configurations", "programs"], "every list of files x contents x output forms x output extensions",
  "No test runs the command.",
  ["tpl/cmd/tplconv/tplconv.go", "tpl/extractor/extractor.go"],
  [("conversion of a file", "tpl/cmd/tplconv/tplconv.go processFile"), ("output forms", "tpl/cmd/tplconv/tplconv.go outTemplates, outInternals")],
  ["standard output", "exit code", "files written"])
p("C31", "The generator takes the grammar declared under the name asked for",
  "A run of tplgen in a package's directory generates its code from the first literal, in the order of the source, that a top-level constant or variable declaration or a declaration, definition or assignment standing directly in a function's or method's body gives to the name asked for (-g, by default grammar); names that are only similar, fields, parameters, and declarations that give the name no literal of its own (no value, a call, one of several results) are passed over, whatever stands around them. It writes the code, in the package's name, to the file asked for (-f, by default static_compiler.go), whose old content is neither read nor kept, and ends with exit code 0. When the name is given no literal or the literal is no grammar, it says so on the standard error, ends with a nonzero exit code without crashing, and leaves no output file. No other file is changed.",
  ["programs", "configurations"], "every sequence of declarations of a package x names x options",
  "The tests compile one output generated earlier; none runs the command.",
  ["tpl/cmd/tplgen/main.go", "tpl/generator/static_parser_gen.go"],
  [("search of the declarations", "tpl/cmd/tplgen/main.go findInDecl, findInGenDecl, findInAssignment"), ("output", "tpl/cmd/tplgen/main.go main")],
  ["exit code", "generated file"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
