# Single source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing).
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique, note, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na, observe=observe))

ENGINE = "abstract interpretation of the type-checked SSA form (value numbering, interval and equality facts, path partitioning, interprocedural inlining, no execution)"
TRUST = " Trusts the Go type checker, golang.org/x/tools/go/ssa and the checker's own transfer functions; library functions outside the module are uninterpreted."

P("C01", "Binary and unary operators compute the operator they are written with",
  "For every supported pairing of an operator and a scalar operand kind, a compiled expression yields exactly that operator applied to its left and right operand values, whatever the values are and however the operands are obtained (variable, literal, call or nested expression). Evaluating it has no other effect, evaluates each operand once (the right operand of && and || at most once), and an unsupported pairing is a compile error rather than a silently different operation.",
  ["inputs", "programs"], "every operator x operand kind (int, float64, string, bool), every operand value, every way an operand can be obtained",
  "the tests compare a few rendered templates; they sample a handful of operand values and operand forms of each operator and never the unsupported pairings",
  ["est/expr/binary.go", "est/expr/int.go", "est/expr/float.go", "est/expr/string.go", "est/expr/bool.go", "est/expr/unary.go"],
  [("operator tables per operand kind", "est/expr/*.go"), ("direct and indirect evaluation forms", "est/expr/*.go")],
  "per operator and kind: " + ENGINE + "; the term left in the returned cell is compared with the operator applied to both operand cells",
  "Decides the whole statement for the compiled evaluation functions, given operand values; operand conversion is C03." + TRUST)

P("C02", "Comparisons of nullable operands follow one null-first order",
  "Comparing two nullable operands treats null as equal to null only and as less than every present value, and compares two present values as values of their own kind, width and signedness. The result is a boolean for each of ==, !=, <, <=, > and >= on every nullable numeric kind and for == and != on nullable strings and booleans; logical operators on nullable operands do not compile.",
  ["inputs"], "every comparison operator x nullable kind (12 numeric kinds, string, bool) x null/present combination x value",
  "the tests cover a few pointer comparisons; the null/null, null/value and value/null rows of 76 operator-kind tables are never all exercised",
  ["est/expr/ptr.go", "est/expr/binary.go"],
  [("nullable comparison tables", "est/expr/ptr.go"), ("dispatch on the pointed-to kind", "est/expr/binary.go")],
  "per operator and nullable kind: " + ENGINE + "; each null/present row is compared with the null-first order",
  "Decides the whole statement for the compiled comparison functions, given the dereferenced operand pointers." + TRUST)

P("C03", "Operands of different kinds meet in one common type before an operator runs",
  "When the two operands of a binary operator have different scalar kinds, both are compared or combined in one common type: text if either is text, otherwise floating point if either is floating point, otherwise integer; nullability of an operand does not change that choice. Each operand keeps its side and its value (a null stays null), and comparisons and logical operators are typed boolean.",
  ["programs", "inputs"], "every operator x ordered pair of operand kinds (numeric kinds, string, bool, nullable and not) x value",
  "the tests mix kinds in a couple of templates; the table of several hundred operator and kind pairings, and the values each conversion must keep, are not enumerable by sampled renders",
  ["binary.go", "est/expr/binary.go", "ast/token.go"],
  [("operand unification", "binary.go"), ("operator dispatch on the unified type", "est/expr/binary.go")],
  "per operator and ordered pair of kinds: " + ENGINE + " of the compile step for binary expressions, and of the conversion functions it selects",
  "Decides the choice of the common type, operand order, result typing and the value every selected conversion yields; mixes of a boolean with a number are not specified. One conversion of the conversion library is a known finding." + TRUST)

P("C04", "An operand yields its own value, converted exactly once",
  "Evaluating an operand yields the literal, variable, path or computed value it was compiled from; a required type conversion is applied exactly once, to that value, and never to a null. A conversion that fails while rendering is reported once as a template error instead of crashing, and compile errors of nested computed values are passed on unchanged.",
  ["inputs", "programs"], "every operand form (literal, variable, path, computed; typed or not; converted or not) x value",
  "tests never observe how often a conversion or a nested evaluation ran, nor the failing conversion of each operand form",
  ["est/op/operand.go", "est/op/expr.go"],
  [("operand construction", "est/op/expr.go"), ("operand evaluation", "est/op/operand.go")],
  "per operand form: " + ENGINE + " of operand construction and of both accessors; the returned cell and the call events are compared with the form",
  "Decides the statement for every form of operand; resolution of paths is C26." + TRUST)

P("C05", "Assignment stores exactly the assigned value in exactly the named variable",
  "Executing an assignment evaluates the value once and stores it, converted to the variable's type, in the whole of the variable's slot and nowhere else; assigning null to a variable that cannot hold it leaves the variable unchanged. A variable that did not exist takes the type of the first value assigned to it, and assigning an undefined value to an undefined variable does not compile.",
  ["inputs", "programs"], "every variable kind (scalars, nullable scalars, struct, slice, map, interface) x slot or path x form and kind of the value",
  "a store of the wrong width or to the wrong slot corrupts a neighbouring variable, which a test notices only if it happens to print that neighbour; tests assign a few kinds",
  ["stmt.go", "est/stmt/assign/assign.go", "est/stmt/assign/int.go", "est/stmt/assign/string.go", "est/stmt/assign/float.go", "est/stmt/assign/bool.go", "est/stmt/assign/map.go"],
  [("assignment functions", "est/stmt/assign/*.go"), ("compile step of assignments", "stmt.go")],
  "per variable kind, access form and value form: " + ENGINE + "; every store outside fresh objects is compared with the variable's slot, width and value",
  "Decides the stores of the compiled assignment and the conversion chosen at compile time; conversions from text to float and to or from bool are not specified. Five conversions of the conversion library are known findings." + TRUST)

P("C06", "A printed value is rendered in the canonical text of its kind",
  "Printing a value appends, exactly once, its canonical text: decimal for integers of every width and signedness, shortest round-tripping decimal for floats, true or false, the text itself for strings, the pointed-to value for nullable values and JSON for structured values. A null prints nothing, printing changes no variable, and only text values are affected by HTML escaping.",
  ["inputs", "programs"], "every kind of printed value x access form (variable, path, computed) x value x escaping option",
  "tests print a few ints and strings; widths, signedness, extreme values, null forms and JSON fallbacks form a table no test walks",
  ["est/stmt/select.go", "est/buffer.go", "selector.go"],
  [("rendering per kind", "est/stmt/select.go"), ("text of numbers", "est/buffer.go")],
  "per kind and access form: " + ENGINE + "; the appended text term and the number of appends are compared with the canonical text of the kind",
  "Decides which text is appended for which kind; the digits produced by the standard library's formatting functions and the buffer's own integer formatting are trusted." + TRUST)

P("C07", "Conditions are true exactly for true, non-zero, non-empty, non-null values",
  "The condition of #if and #for holds exactly when its value is true, a non-zero number, a non-empty string, a non-empty slice or, for nullable values, a pointer to such a value; pointers to structures hold when not null. This does not depend on whether the condition is a variable, a path, a literal or a computed expression.",
  ["inputs", "programs"], "every condition kind (12 numeric kinds, string, bool, nullable forms, slices, struct pointers) x access form x value",
  "tests branch on a few booleans and comparisons; each kind and form takes another conversion path",
  ["est/stmt/if.go", "est/stmt/for.go"],
  [("condition operand", "est/stmt/if.go"), ("loop condition", "est/stmt/for.go")],
  "per kind, form and statement: " + ENGINE + "; the branch taken on each path is compared with the truth of the value under the path's facts",
  "Decides the statement for the listed kinds; maps, interfaces and struct values as conditions are not specified." + TRUST)

P("C08", "A block runs each of its statements once, in source order",
  "Executing a block of any length runs every statement of the block exactly once, in source order, and performs nothing else. If one statement does not compile, the block does not compile and reports that error.",
  ["programs"], "blocks of every length up to 40 (thorough: 150), position of the failing statement",
  "block execution is specialised and unrolled by length; tests exercise a few lengths, a dropped or repeated statement at one length stays unseen",
  ["est/stmt/block.go", "stmt.go"],
  [("block specialisations by length", "est/stmt/block.go"), ("compile step of blocks", "stmt.go")],
  "per block length: " + ENGINE + "; the sequence of statement calls on every path is compared with the source order",
  "Exhaustive for lengths up to the bound; the generic form for longer blocks is analysed at lengths 1..bound beyond the specialisations." + TRUST)

P("C09", "If, for and foreach run their parts in the prescribed order",
  "#if runs one branch by its condition evaluated once; #for runs its initialiser once and then condition, body and post statement in turn, ending when the condition fails; #foreach runs its body once per element, in index order, over all elements, with the whole element bound to the loop variable. Each part in the source becomes that part of the compiled statement, the loop variable is defined before the body, and compile errors of parts are passed on.",
  ["programs", "inputs"], "#if with and without #else, #for, #foreach over every element kind and access form, any number of iterations",
  "tests run short loops over ints and strings; element kinds with their own width, and control flow over all paths, are not sampled",
  ["est/stmt/if.go", "est/stmt/for.go", "est/stmt/foreach.go", "stmt.go"],
  [("control statements", "est/stmt/if.go, for.go, foreach.go"), ("compile steps", "stmt.go")],
  "typestate automaton over all paths with loops summarised for an arbitrary iteration, on top of " + ENGINE,
  "Decides order, count and binding for an arbitrary iteration; termination of #for is the template author's." + TRUST)

P("C30", "Setting a variable writes exactly that variable's slot",
  "Setting a variable on a template state stores the whole value in that variable's slot and writes nothing else, for every kind of variable. Setting a name that was not defined reports an error and writes nothing.",
  ["inputs"], "every variable kind (numeric widths, string, bool, pointers, struct, slice, map, interface, array) x defined and undefined names",
  "a write of the wrong width lands in a neighbouring variable, which a test notices only if it prints that neighbour",
  ["est/state.go", "est/type.go"],
  [("variable setter", "est/state.go")],
  "per variable kind: " + ENGINE + "; the stores performed by the setter are compared with the slot's address and size",
  "Decides target and width of the write; conversion of values of another type than the variable's is the caller's." + TRUST)

P("C10", "Expressions are parsed into exactly the operands and operators written",
  "Reading an expression yields exactly the operands, operators, negations, parentheses, literals, path steps, indexes and call arguments that were written, in their order, each operand and literal with its exact text and kind; a longer operator is never read as a shorter one. All arguments of a call are read; an operator without an operand, and an assignment inside of an expression, is an error of the expression.",
  ["inputs", "programs"], "every sequence of matched tokens of every production (repetitions bounded), every text of each token; names, strings and arguments for all byte classes up to a bounded length",
  "the grammar has unboundedly many sequences and the reader consults positions and sub-texts; tests hold some forty expressions",
  ["parser/operand.go", "parser/expr.go", "parser/select.go", "parser/token.go", "parser/lex.go", "parser/matcher/*.go", "ast/expr/*.go"],
  [("operands", "parser/operand.go"), ("paths and calls", "parser/select.go"), ("tokens", "parser/lex.go"), ("matchers", "parser/matcher/*.go")],
  "modular analysis of each production over all choices of the next matched token (other productions opaque), on top of " + ENGINE + "; the tree built on each path is compared with the one the matched sequence denotes",
  "Operators per expression are bounded at two per production (the loop is inductive in the tree built so far); token matchers of the parsly library are taken as specified." + TRUST)

P("C11", "Operators group by precedence, from left to right",
  "An expression groups by precedence: multiplication and division bind stronger than addition and subtraction, those stronger than comparisons, those stronger than &&, and && stronger than ||; operators of the same level group from left to right. A parenthesised or negated expression stays one operand.",
  ["inputs", "programs"], "every sequence of up to four operators of all levels (thorough: five), any operands",
  "12 operators in sequences give tens of thousands of combinations, where grouping depends on neighbours; tests hold a handful",
  ["ast/expr/binary.go", "binary.go", "parser/operand.go"],
  [("regrouping", "ast/expr/binary.go"), ("compilation", "binary.go")],
  ENGINE + " of parsing and regrouping on chains of symbolic operands; the final tree is compared with a precedence-climbing reference",
  "Chains are bounded in length; operands are symbolic." + TRUST)

P("C12", "Text, comments, escaped blocks and unknown markers are printed as written",
  "Text outside of directives and variables is printed exactly as it is written, also when HTML escaping is on; so is the text inside of #[[ ]]#, a $ or # that starts neither a variable nor a directive, and a variable that is not defined. A ## comment is dropped up to and including the end of its line, nothing else is.",
  ["inputs"], "any template text, any marker position, any outcome of reading what follows a marker",
  "off-by-one losses at marker positions, at the end of the template and after failed reads depend on exact text layouts that tests do not sample",
  ["parser/parser.go", "parser/matcher/velty.go", "parser/matcher/whitespace.go", "stmt.go", "selector.go", "est/stmt/select.go"],
  [("template splitting", "parser/parser.go"), ("text statement", "stmt.go"), ("undefined variable", "selector.go")],
  "inductive analysis of one arbitrary iteration of the splitting loop over all token choices, on top of " + ENGINE + "; matchers of markers and line ends over all byte-class sequences of bounded length",
  "What a failed read consumed is printed from the marker on, as in the current tree." + TRUST)

P("C13", "Directives nest as written and keep their parts",
  "Every directive is read with exactly the condition, value, variable, set, range bounds and loop parts it was written with, and a word is never read as a shorter directive. Statements belong to the innermost open directive (its last branch), #end closes the innermost one, #else and #elseif continue the innermost #if; an #end, #else or #elseif without a matching directive and a directive that is never closed are errors.",
  ["inputs", "programs"], "every token sequence of every directive, every sequence of up to four statements (thorough: five) of nine kinds plus their closings",
  "nesting mistakes need particular combinations of open directives and branches; tests nest two levels in fixed shapes",
  ["parser/parser.go", "parser/builder.go", "parser/range.go", "parser/assign.go", "parser/if.go", "ast/stmt/*.go"],
  [("directives", "parser/parser.go"), ("block builder", "parser/builder.go"), ("loop parts", "parser/range.go")],
  "modular analysis of each directive production over all choices of the next matched token, and of the block builder on all bounded statement sequences, on top of " + ENGINE + "; results compared with a reference nesting",
  "Sequences of statements are bounded." + TRUST)

P("C14", "With HTML escaping on, every rendered value is escaped exactly once",
  "When HTML escaping is enabled, the text of every value written into the output from a variable, path, call or computed expression is HTML escaped exactly once; when it is disabled it is written unchanged. Only the template's own literal text, and texts that cannot contain markup such as numbers and booleans, are written without escaping.",
  ["inputs", "programs", "configurations"], "both settings x every place that writes to the output x any text",
  "tests escape one or two variables; a new or changed place that writes a value without escaping is an injection no sampled template shows",
  ["est/buffer.go", "est/stmt/select.go", "stmt.go", "planner.go", "options.go"],
  [("escaping writer", "est/buffer.go"), ("places that write output", "est/stmt/select.go, stmt.go")],
  ENGINE + " of the escaping writer under both settings, and a whole-program trace of the argument of every non-escaping write back to literal template text",
  "Decides the statement for all writers of text; what html.EscapeString escapes is trusted." + TRUST)

P("C15", "The output buffer holds exactly what was appended, for any size",
  "Every append adds exactly the given text behind the current content, whatever the initial size, the fill and the length of the text, and never drops, overwrites or reorders earlier output or writes out of bounds. Reading returns exactly the appended content, and a reset buffer is empty.",
  ["inputs", "histories"], "buffers of any capacity and fill x any appended length x every append operation",
  "growth happens at capacity boundaries of arbitrary sizes; tests use the default size and short outputs, so off-by-one growth errors stay unseen",
  ["est/buffer.go", "est/utils.go"],
  [("append operations", "est/buffer.go"), ("growth", "est/buffer.go")],
  "per append operation: " + ENGINE + "; every index and slice expression is proved in bounds, every write at the fill position and every growth content preserving, for symbolic length, fill and text",
  "Decides the statement inductively over appends; the digits written for integers are C06." + TRUST)

P("C16", "Executing templates never writes anything other executions share",
  "Executing a compiled template modifies only its own state and objects it creates: captured values, library objects, package variables and everything the planner holds are not modified, except under a lock, and what is modified under a lock is only read under it. So one compiled template can be executed by any number of goroutines on their own states, dynamic templates included. Nothing is written to the process's standard output or log.",
  ["schedules", "programs"], "every function reachable from the execution of a template, every store in it, any interleaving of executions on different states",
  "a data race needs two executions at the same moment and a template using the racing feature; the tests execute sequentially",
  ["est/compute.go", "est/expr/*.go", "est/stmt/*.go", "est/op/*.go", "functions/*.go", "evaluate.go", "cache.go", "planner.go"],
  [("compiled closures", "est/**"), ("library functions", "functions/*.go"), ("runtime compilation", "evaluate.go, planner.go")],
  "inclusion-based points-to analysis with an interprocedural effect and lock-region analysis over the SSA form, on all functions reachable from the entry points of an execution",
  "Flow-insensitive over the heap, so it over-approximates what is shared; memory reached through untyped pointers is taken to be a variable of the state (C01, C05, C29, C30 decide it); values the caller shares between states are the caller's. Which lock protects which field is not checked except for the template cache (C17)." + TRUST)

P("C17", "The cache of dynamic templates returns only what was compiled for the request",
  "Looking up a dynamic template yields a compiled template only if it was stored for exactly the same template text in the same scope with the same variables; otherwise it reports that there is none. Storing never mixes entries up and the cache never holds more than its configured number of entries; all accesses to shared cache data happen under its lock.",
  ["histories", "schedules"], "any cache content and size, any sequence of lookups and stores by any number of goroutines",
  "eviction order, collisions and concurrent lookups depend on the history; tests evaluate a couple of templates in sequence",
  ["cache.go", "evaluate.go"],
  [("template cache", "cache.go"), ("cache key", "cache.go")],
  ENGINE + " of lookup and store on an arbitrary cache content, and a lock-state automaton on all paths",
  "Decides one operation on an arbitrary consistent cache, hence every history." + TRUST)

P("C18", "An execution reports its first error and keeps every recorded one",
  "Executing a template returns an error when any was recorded while it ran, the first one recorded; without errors it returns none. Recording an error keeps those recorded before, in order, and stops the template immediately only if stopping on errors was asked for; a panic that carries no error is not swallowed.",
  ["inputs", "fault_sequences"], "any sequence of recorded errors and panics x both panic settings",
  "tests check one failing function; the order of several errors, the panicking setting and foreign panics are combinations they do not sample",
  ["est/execution.go", "est/state.go"],
  [("execution", "est/execution.go"), ("recorded errors", "est/state.go")],
  ENGINE + " with an opaque template that may record errors or panic with any value",
  "Decides the statement for any template behaviour." + TRUST)

P("C20", "A dynamic template renders its text in the current scope, or reports an error",
  "Evaluating a dynamic template compiles exactly the evaluated text and runs it once, with every variable of the enclosing scope holding its current value and its output going to the same place in order. Errors of the evaluated template are reported by the enclosing execution after earlier ones; a text that does not parse or compile is reported as an error and renders nothing, and an expression that is not a string does not compile.",
  ["programs", "inputs"], "any evaluated text, any variables of the scope, cached or not",
  "what is evaluated only exists at run time: the tests evaluate a few fixed texts and never a failing or repeatedly changing one",
  ["evaluate.go", "planner.go", "cache.go"],
  [("evaluation", "evaluate.go"), ("derived scope", "planner.go")],
  ENGINE + " with parser, compiler and cache opaque: the sequence of calls, the fresh state's variables and its errors are compared with the statement on every path",
  "Decides the statement given C17 for the cache. Changes the evaluated template makes to variables are local to it, as in the current tree." + TRUST)

P("C21", "A pooled state serves one user at a time and starts clean",
  "A state handed out by the pool is not handed out again before it was put back, even when taken from several goroutines. A state is cleared of output and errors before it is reused.",
  ["schedules", "histories"], "any interleaving of taking and putting back states",
  "double hand-outs need two goroutines at the same moment; the tests use one",
  ["est/state.go", "pool.go"],
  [("taking a state", "est/state.go"), ("pool", "pool.go")],
  "typestate and lock-state analysis on all paths, on top of " + ENGINE,
  "Decides the statement for states used through the pool's own interface." + TRUST)

P("C31", "Options take effect exactly as given and each state is independent",
  "Every option given to a planner (buffer size, cache size, escaping, stopping on errors, type parser) takes effect regardless of the other options and their order, and an option not given keeps its default. Each state made for a compiled template has its own memory, of the type it reports, and its own output buffer with those settings; a derived scope of a dynamic template keeps its parent's settings.",
  ["configurations"], "each option alone, none, all, reversed order, symbolic option values, derived scopes",
  "tests use one or two option combinations; options that cancel each other or are lost in derived scopes are not sampled",
  ["options.go", "planner.go", "est/execution.go"],
  [("options", "options.go"), ("state provider", "planner.go")],
  ENGINE + " of planner construction, compilation and state construction under each combination, with symbolic option values",
  "Options are taken one by one, all, and in reverse; the values are symbolic." + TRUST)

P("C22", "Typed functions get each operand's own value and only matching operand lists",
  "A registered function of one of the signatures called without reflection is called exactly once per evaluation with each operand's own value at its own position, and its result is the call's value with its static type. A call whose operand list has another length or whose operands are of other types does not compile and never calls the function.",
  ["programs", "inputs"], "every signature called directly (enumerated from the source) x every operand value x operand lists of other lengths and types",
  "tests call two or three signatures with a few values; swapped or misread operands of the other signatures and mismatching operand lists never run",
  ["est/op/discovery.go", "est/op/func.go", "selector.go"],
  [("typed adapters", "est/op/discovery.go"), ("operand type test", "est/op/func.go")],
  "per signature tested in the source: " + ENGINE + " of call compilation and of the adapter it selects, with an opaque function and opaque operands",
  "Decides the statement given that an operand yields a cell of its declared type (C04)." + TRUST)

P("C26", "Each link of a path is evaluated once, on the value of the link before it",
  "In a path of fields, indexes and calls every link is evaluated at most once per evaluation and in order, on exactly the value the link before it yielded and, for a call, with the call's own other arguments. The path yields the value of its last link; a null before a link ends the evaluation with a fresh zero value, or reaches the method as its null receiver. Evaluating a path never writes to the compiled template.",
  ["programs", "inputs", "schedules"], "chains of up to 3 (thorough: 4) links of every kind x nine types of the values in between; every value, null or not; written paths of up to 3 fields, indexes and calls of 0 to 3 arguments on variables, functions and namespaces",
  "the level of indirection at which a link hands over its value depends on the kinds and types of two adjacent links; tests use a few of the combinations",
  ["est/op/upstream.go", "planner.go"],
  [("evaluation of a path", "est/op/upstream.go"), ("compilation of a path", "planner.go")],
  ENGINE + " of the closure a path compiles to, per combination of links and types; on every path through it the sequence of calls and look-ups, their receivers and the place returned are compared with the chain; the compilation of written paths is interpreted likewise and the receiver type, name, arguments and order of every call are compared with the path",
  "What a single call or index does is C22, C24 and C29. Chains longer than the bound run the same loop." + TRUST)

P("C27", "An integer is printed as exactly its decimal digits",
  "Every integer from the least to the greatest 64-bit value is printed as a minus sign if it is negative, followed by all of its decimal digits without leading zeros. The length that is reported is the length of this text, and printing never touches memory outside of the room it was given.",
  ["inputs"], "all 2^64 values, as 39 classes of sign and number of digits, each decided as an interval; any room of at least 20 bytes",
  "a wrong digit may appear only for values of a certain length, digit or sign, such as the least integer; tests print a few small numbers",
  ["utils/itoa.go", "est/buffer.go"],
  [("digits of an integer", "utils/itoa.go"), ("call from the buffer", "est/buffer.go")],
  "abstract interpretation of the SSA form with intervals of the printed number, quotients and remainders of it by constants, and tables over the values of a remainder; the bytes at the start of the destination are compared with the digits symbolically, a class is split where a condition depends on the number",
  "The room of 20 bytes and the base 10 are C15's. A 64-bit platform is assumed; known functions of strconv are trusted." + TRUST)

P("C28", "A called name reaches the function registered or declared under it",
  "A call on a value reaches the method its own type declares (unless a function was registered in its place), else the function registered for values of its kind, else the function registered under that name, else the one registered for exactly its type (another type of the same name has its own); a call on nothing reaches the function registered under that name, and a name nobody registered is an error. Registering a standalone function, a namespace or a function of a type under a taken name is refused, so is whatever is no function of one result or of one result and an error; the last function registered under a plain name counts, and looking a function up changes nothing. The type of a call is the one the function declares or, for those that tell it, the one it tells.",
  ["histories"], "every history of two (thorough: three) registrations and look-ups of five kinds under two names with two types of one name; seven result lists per kind of registration; written paths of up to 3 links with calls of 0 to 3 arguments",
  "what a name reaches depends on everything registered and looked up before; tests register a function or two and call them",
  ["est/op/func.go", "functions/func.go", "planner.go"],
  [("function registry", "est/op/func.go"), ("calls in paths", "planner.go"), ("functions of kinds", "est/op/func.go")],
  "abstract interpretation of the registry's functions over sequences of calls from the constructor on, comparing every look-up of the final states with a reference registry",
  "Functions that are found by their Go type (called without reflection) are C22's; registering a function for a type under the name of one of its methods is not decided; names other than the two are assumed to behave like them." + TRUST)

P("C29", "Calls of any function pass the operands in order and report its error",
  "A function or method of any signature is called at most once per evaluation, with the values of its operands in order (the receiver first, variadic arguments one by one), and only when their number and types fit. Its first result is the call's value; a non-nil error result, or operands that do not fit, are reported once as an error of the template and the result is not used.",
  ["programs", "inputs"], "functions of 0 to 3 parameters, variadic or not, with or without an error result, methods of values and interfaces x operand values",
  "tests call well-typed functions that succeed; failing, variadic and wrongly called functions of each arity are not sampled",
  ["est/op/func.go", "selector.go", "est/op/expr.go"],
  [("call of a function", "est/op/func.go"), ("argument check", "est/op/func.go"), ("call compilation", "selector.go")],
  ENGINE + " of call compilation and evaluation with an opaque function of each arity, symbolic reflect types and operands",
  "Arities above the bound follow the same loops, whose bodies are analysed for an arbitrary iteration." + TRUST)

P("C32", "A path in a template reads exactly the field or element it names",
  "However structs nest in a variable (by value, by pointer, embedded, in slices, in maps, or pointers to those), every path of fields and indexes reads the field or element at its own place, with its own type, whether the variable or its holders are addressed by their own name or promoted. A null on the way yields a fresh zero value and never a read through it; names given by field tags (name, names, prefix, -) and by the variable's definition are the only names a field or variable is known by.",
  ["programs", "inputs"], "every nesting of nine kinds of holders up to depth 2 (thorough: 3) below every kind of variable, every field, holder and element path of each, the documented tag forms, recursive types; symbolic offsets and memory",
  "tests use a handful of struct types; an offset added twice or a missing dereference only shows for particular combinations of nestings and field positions",
  ["planner.go", "selector.go", "cyclic.go", "tag.go", "est/op/selector.go", "est/op/selectors.go", "est/op/upstream.go", "est/op/expr.go"],
  [("type walk", "planner.go"), ("path resolution", "planner.go"), ("evaluation of paths", "est/op/upstream.go"), ("field tags", "tag.go")],
  "per type shape: " + ENGINE + " of variable definition, path compilation and path evaluation with symbolic field offsets; the address reached is compared with the one of the named field",
  "Shapes are bounded in depth; what an index returns is C24." + TRUST)

P("C33", "Every variable has a place of its own that nothing moves",
  "Every variable, unnamed slot and embedded value of a template has its own field of exactly its type, found by its own name only; adding more of them, or deriving a scope for a dynamic template and adding to that, never moves, renames or retypes an earlier one in either scope. Embedding a value into a state stores the whole value in the slot embedded for exactly its type (or the type it points to) and writes nothing else; a value of any other type, also of the same name or text, is an error.",
  ["histories"], "every history of three (thorough: four) additions out of ten and copies of the scope; thirteen types of embedded values",
  "an offset that moves or a name that leads elsewhere shows only after a certain sequence of definitions, as another variable's overwritten memory",
  ["est/type.go", "est/state.go"],
  [("layout of a scope", "est/type.go"), ("embedding a value", "est/state.go")],
  "abstract interpretation of the scope type's functions over sequences of calls from the constructor on, with reflect.StructOf modelled as the layout of the fields given; every slot, name and holder of the final states is compared with a reference",
  "reflect.StructOf lays fields out in order. Variable names other than the sampled ones are assumed to behave like them." + TRUST)

P("C19", "A failing step of compilation surfaces as an error and is never swallowed",
  "When any step of reading a directive or an expression, compiling a template, resolving a path, defining a variable or running a library function fails, the function that needed it fails too and hands the error to its caller; no step goes on with the missing result as if it had succeeded, on any path and in any loop. Only these failures have no consequences: text that turns out to be no directive, no variable or no parenthesised operand is read as what it is instead, and a name that is no known function is looked up as a variable.",
  ["inputs", "programs"], "every function of the parser, the planner, the statement and expression compilers and the function library that calls a step that can fail, every path through it",
  "each dropped error needs its own failing template, type or operand; tests render templates that compile, so most error paths never run",
  ["parser/*.go", "compile.go", "planner.go", "stmt.go", "binary.go", "unary.go", "literal.go", "range.go", "block.go", "est/stmt/*.go", "est/op/*.go", "est/expr/*.go", "functions/*.go"],
  [("reading of directives and expressions", "parser/*.go"), ("compile steps", "*.go"), ("statement and expression compilers", "est/**"), ("library functions", "functions/*.go")],
  "per function that can fail: " + ENGINE + " with the functions it calls opaque; on every path with a non-nil error of a call the function's own error must be non-nil, loops for an arbitrary iteration",
  "Decides that errors propagate; which text an unreadable directive becomes is decided by C10, C12 and C13, errors while rendering by C04, C18 and C29." + TRUST)

P("C34", "A literal stands for the value it is written as, a range for its numbers",
  "A number, boolean or text written in a template compiles to a constant of its own type (64-bit integer or float, boolean, text) that holds exactly the value that is written, integers always read as decimal. A range [a...b] stands for the whole numbers from a towards b in steps of one, upwards or downwards, with a and without b, so for none if both are equal. A number that cannot be read is an error.",
  ["programs", "inputs"], "literals of every kind with any text; ranges from any first bound, the second up to 12 (thorough: 40) above or below",
  "which digits, signs, distances and directions go wrong depends on the literal; tests use one or two ranges and a few small numbers",
  ["literal.go", "range.go", "expr.go"],
  [("literals", "literal.go"), ("ranges", "range.go")],
  ENGINE + " of compiling a literal with a symbolic text, and a range with a symbolic first bound per distance of the second; the memory the constant points to is compared with the value read from the text and with the numbers of the range",
  "Which text is a literal of which kind is C10 and C13's, that an operand yields the constant C04's. Functions of strconv are trusted to read numbers." + TRUST)

P("C23", "The built-in functions do what their names say",
  "Every function of the built-in namespaces (math, strings, strconv, slices, maps, types, errors, json, time) and the HasKey and IndexBy methods return the result of the operation they are named for, applied to their arguments in order, and the functions that can fail return an error for a value of a type they do not handle. A null map or key, a key the map cannot hold and a missing entry all count as absent; a raised error carries the given text as it is, never as a format; and IndexBy stores every element under the normalized value of its field, found by name or by the name in its tag.",
  ["inputs"], "every function of the library, every dynamic type of its arguments that can matter, arbitrary values; lists of arbitrary elements up to a length",
  "most functions have no test, and those that have are tried with one argument",
  ["functions/*.go"],
  [("functions of the namespaces", "functions/*.go"), ("registration under names", "functions/init.go")],
  ENGINE + "; the results of every path are compared with the operation the function is named for, per dynamic type of the arguments; the registry is read from the interpreted package initialisers",
  "Decides the library's own code against calls of the Go standard library; lists are tried up to a length (4, 8 in the thorough tier), not for every length; which overload a template call reaches is C22 and C29." + TRUST)

P("C24", "An index yields the element it names, or null, and never memory outside the list",
  "An index of a list, of a pointer to a list, of a map or of an interface value holding either yields exactly the element or entry at that index or key, with the element's own type. A null index, a null map, a missing entry, a key the map cannot hold and an interface value that holds neither a list nor a map yield null, and an index that is negative or not below the length stops the rendering instead of reading other memory. A template that indexes a value of another type, or a list with something that is no number, does not compile.",
  ["inputs", "programs"], "lists, pointers to lists and maps of twelve kinds of elements and interface values; every container, index, key and state",
  "the bounds test must hold on every path for every index and length; tests index a few small lists and maps with valid indexes",
  ["est/op/slice.go", "est/op/map.go", "est/op/iface.go", "est/op/selector.go", "planner.go"],
  [("elements of lists", "est/op/slice.go"), ("entries of maps", "est/op/map.go"), ("interface values", "est/op/iface.go"), ("compilation of indexes", "planner.go")],
  ENGINE + " of compiling the index per kind of container and then of the compiled index; on every path the facts must prove the index within the length read from the same list before an element is addressed",
  "The value of the index operand is C04, the preparation of map keys C25, what follows an index C32." + TRUST)

P("C25", "A map key finds its entry whatever integer type it was written in",
  "Before a map is indexed, an integer of any width, also behind a pointer, counts as the int of the same value, bytes count as text and a null pointer as null. A key then finds the entry exactly if its value can be represented in the type of the map's keys: numbers that do not fit, values of another kind and values that cannot be compared find nothing, and no key crashes the lookup.",
  ["inputs"], "every type of key and of map keys among the integer, text, boolean, float, struct, pointer and interface types; every value",
  "the pairs of types and the values at the edges of their ranges are too many to try, and a wrong conversion finds another entry silently",
  ["keys/normalize.go"],
  [("normalization and conversion", "keys/normalize.go")],
  ENGINE + ", once per pair of key type and map key type; the decision is compared with representability for every valuation of the conditions that integer conversion allows",
  "Decides the two functions that prepare keys; that indexing, HasKey, IndexBy and the maps functions use them is C23 and C24. Pointers to floats only as far as null goes." + TRUST)

P("C35", "Parsing ends for every text",
  "Parsing ends for every text, whatever its length, nesting and errors: a part of a template is never read again as the same text it is a part of, so every call that leads back to the reading of the same kind of part has consumed a character before or works on a strictly shorter text. Every round of a loop that reads consumes at least one character, or counts towards a fixed limit.",
  ["inputs"], "every production of the parser and every loop of the parser and its matchers, all choices of matching tokens, loops for an arbitrary round",
  "a text that makes the parser spin or recurse without end is a special one, and a test that meets it doesn't return",
  ["parser/*.go", "parser/matcher/*.go"],
  [("productions and their recursion", "parser/*.go"), ("splitting loop", "parser/parser.go"), ("matchers of the repository", "parser/matcher/*.go")],
  ENGINE + " of every production with the others opaque over all token choices; the position is followed in a two-valued domain (consumed or not), a cycle of calls without consumption, or a round without it, is a violation; counting loops are recognised on their SSA form",
  "That a matched token is at least one character long and that the library's matchers end is trusted; time and stack used are not bounded by this, only finite." + TRUST)

P("C36", "Rendering a warm state does not allocate",
  "Executing a template without function calls again on a state whose buffer has grown to the size of its text allocates no memory.",
  ["programs", "inputs"], "all templates without calls", "benchmarks sample two templates",
  ["est/*.go"], [("execution", "est/**")], "none", "none",
  na="where Go allocates is decided by the escape analysis of one compiler version and by its run-time library, not by the source; a verdict from the source would be neither sound nor stable")

