
GRID = "exhaustive enumeration of a bounded operand space on the real functions, each result compared with a reference model"
prop("C13", "Decimal arithmetic is exact, or an error",
     "In the decimal context `+`, `-`, `*`, `mod`, integer powers, sums, products, minimum, maximum and the roundings give the exact decimal result when the type can represent it, and quotients and averages the result correct to the precision of the type. "
     "A result out of range and a division by zero are errors, never a wrong value or a panic, and a literal means exactly the number written.",
     ["inputs"], "every pair and list of decimals",
     "Which operands lose digits or leave the 96 bit range depends on both scales; the tests use a few short literals.",
     [DE + "mod.rs", DE + "decimal_ext.rs"], [("decimal operators", DE + "mod.rs ops"), ("decimal context", DE + "mod.rs DefaultContext::new_decimal")],
     ["Function::call", "BinaryFunction::call", "UnaryFunction::call", "Evaluator::eval"], GRID,
     "All pairs of a grid over mantissas and scales, all short lists and each position of long ones, against 256 bit scaled integer arithmetic; values next to the limits of the type.")
prop("C14", "Decimal functions give the mathematical value",
     "Every function of the decimal context gives the value of the mathematical function it is named after, to at least 18 digits (a value closer than 1e-16 to an integer may be that integer, and a factorial of a non integer has 12), at each argument of its domain with a representable value: trigonometric functions take and inverse ones return degrees, hyperbolic ones are raw. "
     "Outside of the domain the result is an error, never a wrong value or a panic.",
     ["inputs"], "every decimal argument of every function",
     "The implementations are series, identities and range reductions which fail at particular ranges (large, negative, near a pole, near zero); the tests check about one argument per function.",
     [DE + "mod.rs", DE + "decimal_ext.rs"], [("series and identities", DE + "decimal_ext.rs"), ("wrappers", DE + "mod.rs ops")],
     ["Function::call", "BinaryFunction::call", "UnaryFunction::call"], GRID,
     "Every function over a grid of the whole range (multiples of 1/2, degrees, powers of ten, neighbours of the special points), against a 320 bit fixed point reference (1e-19 relative, plus the rounding of the intermediate values to 28 decimals).")
prop("C15", "Float and integer functions give the mathematical value",
     "Every function and operator of the float context gives the value of the mathematical function it is named after, at each argument of its domain (to 12 digits; a value within 2e-10 of an integer may be that integer; trigonometric functions take, and inverse ones return, degrees), and an error or a non finite number outside of it; the same functions in an integer context give that value truncated. "
     "A function called with a number of arguments it does not accept is an error.",
     ["inputs"], "every argument and argument list of every provided function; builds with and without documentation",
     "Reciprocal, inverse and multi argument functions are built from others, and a wrong one differs only in a range; the tests check about one argument per function.",
     ["prexel/src/ops/mod.rs", "prexel/src/ops/unchecked.rs", "prexel/src/utils/gamma.rs", CX], [("functions", "prexel/src/ops/mod.rs math"), ("registration", CX + " with_config_unchecked")],
     ["Function::call", "BinaryFunction::call", "UnaryFunction::call", "Evaluator::eval"], GRID,
     "Every function over a dense grid with the special points and their neighbours in f64, and i8 (all), i32, i64; lists of up to 40 values; builds with and without docs. The arithmetic, literals and roundings are compared exactly.")
prop("C16", "The binary context computes two's complement bit operations",
     "In the binary context every operator (`& | ^ ~ << >> == != < > <= >=` and its named aliases) gives the result over 128 bit two's complement integers, comparisons give 1 or 0, and a shift by less than 0 or more than 127 is an error. "
     "A literal such as b1010 or 10 means that number, a value prints as its binary digits, and operators group from the shifts (tightest) over comparisons, equalities, `&`, `^` to `|`.",
     ["inputs"], "every pair of operands, every literal and every expression",
     "The tests use operands below 16 and two operators.",
     ["prexel/src/binary/mod.rs"], [("operators", "prexel/src/binary/mod.rs ops"), ("literals", "prexel/src/binary/mod.rs binary_number_splitter / FromStr")],
     ["BinaryFunction::call", "Evaluator::eval"], STATELESS,
     "All pairs of a grid of small, boundary and single bit values, all ordered operator pairs over operand triples, and all expressions up to the bound over one operator of each precedence, against reference arithmetic and grammar.")
prop("C17", "Complex arithmetic and functions give the mathematical value",
     "Every operator and function of the complex context gives the value of the complex function it is named after (any branch next to a cut), with angles in radians; a real or imaginary literal such as 3 or 2i means that number. "
     "Dividing by zero gives an error or a non finite number, and a real logarithm base must be positive and not 1.",
     ["inputs"], "every complex argument of every function, and every expression",
     "An identity with a wrong sign or component holds on the axes and fails elsewhere; the tests check about one argument per function.",
     ["prexel/src/complex/mod.rs", "prexel/src/utils/splitter.rs"], [("functions", "prexel/src/complex/mod.rs ops"), ("literals", "prexel/src/utils/splitter.rs"),],
     ["Function::call", "BinaryFunction::call", "Evaluator::eval"], GRID,
     "Every function over a grid of the complex plane, all pairs of a smaller grid for the operators (`mod` is what remains of the quotient truncated by component), short and long lists, all expressions up to the bound over imaginary literals, and operands of all the magnitudes against a fixed point reference of 96 digits.")
prop("C19", "A wrapper number type behaves like the type it wraps",
     "A number type produced by any of the `impl_*_num_traits` macros, for a tuple or a named field, computes with every operation, conversion, comparison and evaluation exactly what the wrapped type computes, and fails exactly when it fails.",
     ["inputs", "programs"], "every macro form, wrapped type and operand pair",
     "The tests instantiate one form and evaluate one expression.",
     ["prexel/src/num.rs", "prexel/src/numeric_traits/"], [("macros", "prexel/src/num.rs impl_*_num_traits*")],
     ["the traits implemented by the macros", "Evaluator::eval"], GRID,
     "All pairs of i8 (boundary grids of i16, i64, i128, f64) by all operations for each macro form, all conversions and formatting options, and evaluation in the contexts, compared with the wrapped type.")
prop("C25", "Checked and unchecked contexts agree wherever both give a value",
     "For every name defined in both the checked and the unchecked context of a number type, whenever the checked operation gives a value the unchecked one gives the same value, with any operands and any number of arguments. "
     "Over floats both also fail on the same arguments.",
     ["inputs", "configurations"], "every operation and operand tuple of every number type",
     "The two families are separate implementations; the tests compare neither with the other.",
     ["prexel/src/ops/checked.rs", "prexel/src/ops/unchecked.rs", CX], [("checked operations", "prexel/src/ops/checked.rs"), ("unchecked operations", "prexel/src/ops/unchecked.rs")],
     ["Function::call", "BinaryFunction::call", "UnaryFunction::call"],
     "exhaustive differential enumeration of a bounded operand space on both real implementations",
     "All pairs of i8 and the full products of grids for the other types, with 0 to 6 arguments; floats must agree on errors too, integers wherever the checked operation succeeds.")

SPL = "prexel/src/utils/splitter.rs"
prop("C21", "A splitter applies its rules in order, and the tokenizer uses its lexemes",
     "A splitter built from any sequence of rules, provided or user defined, applies at each position of any text the first rule that accepts it: the lexeme is what the rule gives, or nothing if it skips, and a character that no rule accepts is a lexeme of its own. "
     "Rules are tried in the order they were added, or at the index where they were inserted, and the removal of whitespace (if it was asked for) last. "
     "A tokenizer with a custom splitter makes its tokens of exactly these lexemes.",
     ["inputs", "configurations"], "every sequence of rules, whitespace option and text",
     "The tests use the default splitter and one custom rule; which rule wins depends on the order, on what an earlier rule consumed and on the next character.",
     [SPL, TK, "prexel/src/binary/mod.rs"], [("rule application", SPL + " DefaultSplitter::split_into_tokens"), ("construction", SPL + " DefaultSplitterBuilder"), ("tokens", TK + " Tokenizer::tokenize")],
     ["Splitter::split_into_tokens", "Tokenizer::tokenize"], STATELESS,
     "Every sequence of up to 3 of 14 rules by each way to build it, over every text up to the bound, against an independent model of each rule; the provided splitters, and tokenizers over custom splitters.")

RP = "eval/src/repl/"
prop("C20", "A REPL session does what its lines and keys say",
     "In the REPL, each submitted line shows the value of its expression, defines its variable, or shows an error and changes nothing; `$result` and the variables keep the last values given, and the last line of the screen is always the prompt and the text being edited. "
     "Up and Down visit the last N different lines submitted (N: the history size, consecutive repetitions kept once), at any point and beyond both ends, and the session ends only with exit, Esc or Ctrl+C.",
     ["histories", "configurations"], "every sequence of keys and events, of every number type and history size",
     "The REPL has no test; what a key does depends on the history, its cursor, the edited line and the definitions made before.",
     [RP + "mod.rs", RP + "repl.rs", RP + "repl_writer.rs", "eval/src/collections/carray.rs"],
     [("event loop", RP + "repl.rs Repl::run"), ("history", "eval/src/collections/carray.rs CircularArray"), ("line evaluation", RP + "mod.rs eval_loop")],
     ["the terminal contents of `eval repl`"],
     "stateless exploration of all event sequences up to a depth on the real program (forked at each choice), compared with a model of the session at each step",
     "Every sequence of the bounded action alphabets (whole lines, keys, resizes, Ctrl+C) for the five number types and history sizes 0 to 3 and 100; the screen is reconstructed from the bytes written.",
     state=[("history", "lines submitted and the cursor", RP + "repl.rs Repl::run"), ("definitions", "variables of the session", RP + "mod.rs eval_loop")])

prop("C22", "The command line shows what the library computes",
     "`eval eval EXPRESSION` prints exactly the value that the library computes for the expression in the context of the chosen number type (decimal by default) with implicit multiplication, or only an error on the error stream. "
     "`constants`, `operators` and `functions` list exactly what the context of the type defines, however the options are written, and an unknown type is refused.",
     ["inputs", "configurations"], "every expression, number type and way to write the options",
     "The command line program has no test.",
     ["eval/src/main.rs", "eval/src/eval_expr.rs", "eval/src/list.rs", "eval/src/writer.rs"],
     [("arguments", "eval/src/main.rs main"), ("evaluation", "eval/src/eval_expr.rs EvalExpr::eval"), ("listings", "eval/src/list.rs list")],
     ["standard output, standard error and exit code of `eval`"],
     "exhaustive enumeration of bounded inputs to the real program, each run compared with the library",
     "Every sequence of 3 fragments (thorough: 4) of 18 for each type, 70 texts with each way to write the options, and every listing.")

prop("C18", "Random stays in its range for every outcome of the generator",
     "`random()`, `random(max)` and `random(min, max)` give a value from 0 to 1, from 0 to max and from min to max (in each component, for complex numbers) whatever the random generator returns, never an error, and not always the same one when the range is wide. "
     "A negative maximum, a minimum above the maximum, bounds that are not real and more than two arguments are always errors.",
     ["inputs", "schedules"], "every outcome of the generator and every range of every number type",
     "The tests draw a few values of small ranges; the outcomes that matter (next to 0 and 1) have probability 2^-53, and bounds that are not exact as floats are not tested.",
     ["prexel/src/ops/mod.rs", "prexel/src/complex/mod.rs"], [("random", "prexel/src/ops/mod.rs math::RandFunction"), ("complex random", "prexel/src/complex/mod.rs RandFunction")],
     ["Function::call"], "exhaustive enumeration of the outcomes of the random generator (replaced by the explorer) and of a bounded operand space on the real functions",
     "Every pair of 16 words of the generator (thorough: about 400) for every range of boundary grids of i8 to i128, f32, f64, decimal and complex numbers, against the bounds of the range.")

SV = "prexel-server/src/"
prop("C23", "The HTTP service answers each request by its own content only",
     "`POST /eval` gives the value of the expression in the context of the requested type (decimal by default) with exactly the variables of the request, as JSON or (`only_result=true`) as plain text, or a JSON error; a body that is not such a JSON object is refused with 400. "
     "`/operators`, `/functions` and `/constants` list what the context of the type defines, other paths and methods are refused. "
     "No answer depends on other requests of any client, and no request ends the service.",
     ["inputs", "histories", "schedules"], "every request, and every history of requests of any number of clients",
     "The service has no test.",
     [SV + "endpoints/mod.rs", SV + "services/evaluator.rs", SV + "services/info.rs", SV + "models/mod.rs", SV + "main.rs"],
     [("request decoding", SV + "endpoints/mod.rs eval"), ("evaluation", SV + "services/evaluator.rs"), ("listings", SV + "services/info.rs")],
     ["HTTP responses of the server"],
     "exhaustive enumeration of bounded requests and of all bounded request histories over two clients on the real server, compared with a stateless model",
     "Every expression up to the bound for each type, names by JSON values, objects of bounded members, every body next to a valid one, and every sequence of 3 (thorough: 4) of 11 requests by every assignment to two clients. The values are those of prexel 0.1.9, which the server depends on.")
prop("C24", "The HTTP service refuses a client connection after 100 requests a minute",
     "The requests 1 to 100 that a connection makes within 60 seconds of its first one are answered, whatever they ask, and later ones are refused with 429; after that time they are answered again. "
     "Each answer tells the limit, the requests that remain and the time left, and what a client does never changes what another one may do.",
     ["histories", "schedules"], "every history of requests of any number of clients",
     "The service has no test.",
     [SV + "main.rs", SV + "middlewares/rate_limiter.rs"],
     [("limit", SV + "main.rs get_rate_limit_middleware"), ("identification", SV + "middlewares/rate_limiter.rs get_rate_limit_identifier")],
     ["status and x-ratelimit-* headers of the responses"],
     "exhaustive enumeration of bounded request histories of interleaved clients on the real server, compared with a counter model at each step",
     "Every alternation of two of 11 requests (all kinds and outcomes) over 103 requests of a client with another one in between; thorough: the end of the time too.")

prop("C26", "Each operation is applied once, left to right, and the first error ends it",
     "An evaluation applies each operation of the expression exactly once, with the operands of its left before those of its right and before itself; a malformed expression applies nothing. "
     "The first operation that fails ends the evaluation: nothing after it is applied, and the evaluation gives exactly its error, with its kind and message (a panic of an operation propagates). "
     "Nothing of a failed evaluation remains for the following ones.",
     ["inputs", "fault_sequences"], "every expression, and every operation of it that fails in any way",
     "The tests define no operation that fails or that has an effect, so which operations are applied after an error, twice or in another order is not seen.",
     [EV, TK], [("RPN evaluation", EV + " rpn::rpn_eval"), ("conversion", EV + " rpn::infix_to_rpn")],
     ["Evaluator::eval", "Evaluator::eval_tokens"],
     "exhaustive bounded enumeration of executions of the real code with a fault injected at every operation, each compared with a reference model",
     "Every well formed expression up to the bounds, without faults and with each kind of error, an error without message and a panic at each of its operations; the applied operations must be a prefix of those of the reference parser. Malformed sequences must apply none.")
prop("C28", "The kind of an error tells what was wrong",
     "A blank expression is `Empty`, a malformed one `InvalidInput` or `InvalidExpression`, a wrong number of arguments `InvalidArgumentCount`, a division or modulo by zero `DivisionByZero`, the factorial of a negative number `NegativeValue`, and an integer or decimal result that the type cannot represent `Overflow`, as is a binary shift by less than 0 or more than 127. "
     "The error of an evaluation is the one of its first operation that fails. "
     "An `Error` keeps its kind and message, and equals those of its kind.",
     ["inputs"], "every expression and every operand of the operations of every provided context",
     "The tests compare the kind of one or two errors; each operation, type and family of contexts builds its errors on its own.",
     ["prexel/src/error.rs", EV, TK, "prexel/src/ops/checked.rs", "prexel/src/ops/mod.rs", DE + "mod.rs", "prexel/src/binary/mod.rs", "prexel/src/complex/mod.rs"],
     [("errors", "prexel/src/error.rs"), ("malformed expressions", TK + " tokenize / " + EV + " rpn"), ("integer operations", "prexel/src/ops/checked.rs"), ("decimal operations", DE + "mod.rs math_ops")],
     ["Error::kind", "Function::call", "BinaryFunction::call", "UnaryFunction::call", "Evaluator::eval"], STATELESS,
     "Every malformed lexeme sequence up to the bound, every wrong argument count of every function of seven contexts, all pairs of i8 and boundary grids of i16 to i64, decimal and binary limits, and every expression up to the bound over operations that fail, against the operations applied by a reference parser. The kinds for functions outside of their domain are left open.")
prop("C29", "Every build configuration compiles and computes the same",
     "Every combination of the cargo features `complex`, `decimal`, `binary`, `docs` and `linked-hashmap` compiles, in debug and in release builds. "
     "In each of them a provided context defines the same names, and every expression, operation and definition (with a valid name) has the same outcome: the value, or the kind and message of the error. "
     "`docs` only adds the descriptions, and `linked-hashmap` the order of the lists, which is the one of definition.",
     ["inputs", "configurations"], "every feature combination and profile, with every expression, operation and definition",
     "The tests run in one configuration, always a debug one.",
     ["prexel/Cargo.toml", CX, "prexel/src/lib.rs", "prexel/src/ops/", "prexel/src/function.rs"],
     [("features", "prexel/Cargo.toml"), ("maps and validation", CX + " Map / DefaultContext"), ("conditional code", "prexel/src/lib.rs and the `cfg` attributes of the operations")],
     ["compilation", "Evaluator::eval", "Tokenizer::tokenize", "DefaultContext", "Function::call"],
     "exhaustive enumeration of all the build configurations, with a bounded enumeration of executions of the real code in each, compared with each other",
     "All 64 configurations (32 feature combinations, debug and release): a probe runs every sequence of up to 3 of 16 fragments, a grid of operands for every operation and every history of up to 3 of 14 definitions; all must give the same lines.")
prop("C30", "Any sequence of tokens has the value of its grammar or is an error",
     "Evaluating a sequence of tokens, whether or not a tokenizer would produce it, gives the value of the expression that the tokens spell (each token being what it says it is: a binary operator is binary wherever it is) or an error if they spell none; it never panics. "
     "Unknown tokens, argument counts, undefined names, operators that are not of the kind of their token and symbols that do not group are errors. "
     "Whenever it gives a value, the conversion to reverse polish notation is one of the same expression.",
     ["inputs", "configurations"], "every sequence of tokens, in each configuration of implicit multiplication and call brackets",
     "The tests convert and evaluate the tokens of a few texts; tokens made by a program (or by the user's own tokenizer) are not restricted to what the tokenizer yields.",
     [EV, "prexel/src/token.rs"], [("checks of the conversion", EV + " check_token_position, push_*"), ("evaluation of the converted tokens", EV + " rpn_eval")],
     ["Evaluator::eval_tokens", "infix_to_rpn"], STATELESS,
     "All the sequences up to the bounds over 27 tokens, among them a binary token with a postfix name, argument counts, unknown names and brackets, against a reference grammar of tokens.")
prop("C31", "Each configuration option has its own effect, however it is set",
     "Each option of a configuration has the last value it was given, by its method or its field, whatever else was set before or after; and every context built with the configuration keeps it and evaluates accordingly: implicit products and call brackets are accepted exactly when they are enabled, and nothing else depends on any option. "
     "Two configurations are equal exactly when their options and grouping symbols are. "
     "Every character is reported as an opening or closing symbol, with its pair, exactly as an evaluation treats it.",
     ["histories", "configurations"], "every sequence of changes of a configuration, every constructor of a context and every character",
     "The tests build two or three configurations; an option that is lost, or that affects another, needs a particular combination, order or context.",
     [CX, EV, "prexel/src/decimal/mod.rs", "prexel/src/complex/mod.rs", "prexel/src/binary/mod.rs"],
     [("options", CX + " Config::with_*"), ("grouping symbols", CX + " Config::get_group_*, Grouping"), ("constructors", CX + " DefaultContext::with_config*")],
     ["Config", "Grouping", "DefaultContext::with_config*", "Evaluator::eval"],
     "stateless exploration of all the histories of changes up to a depth and of all the reachable configurations, each executed on the real contexts and compared with a model",
     "All the histories of up to 4 (5) of 16 changes; in each of the 64 configurations every raw sequence up to the bound over symbolic numbers, and the provided contexts by probes; every Unicode scalar.",
     state=[("options", "the three options and the set of grouping symbols", CX + " Config")])
prop("C32", "Evaluation works alike over any implementation of a context",
     "An evaluation learns the names, operators and configuration from its context only through the methods of `Context`: any implementation that answers them as the provided one does gives the same result for every expression, for the text and for its tokens. "
     "A name is a variable, constant, function or operator of a context exactly when its definition can be obtained from it.",
     ["inputs", "configurations"], "every expression and every implementation of `Context`",
     "The tests only use the provided context.",
     [CX, EV, TK], [("interface", CX + " Context"), ("evaluation", EV), ("tokenization", TK)],
     ["Context", "Evaluator::with_context / eval / eval_tokens", "Tokenizer::tokenize"], STATELESS,
     "A context of lists and nested scopes (the definitions divided in 8 ways between them, the outer one with another configuration) evaluate every raw sequence up to the bound, in each configuration, against the reference grammar.")
prop("C33", "An error keeps its kind, message and causes wherever it goes",
     "An error has the kind and the message it was made with, and the causes of the error it wraps, by every accessor, after being boxed, and when an operation fails with it inside of any evaluation. "
     "An error made of a kind alone shows the message of the kind, and no two kinds share one; changing the wrapped error in place is seen afterwards; errors are equal exactly when their kinds are.",
     ["inputs", "programs"], "every kind, message and wrapped error, by every accessor",
     "The tests make one error.",
     ["prexel/src/error.rs", EV], [("errors", "prexel/src/error.rs"), ("propagation", EV + " rpn_eval")],
     ["Error", "ErrorKind", "Evaluator::eval"], STATELESS,
     "All the kinds by all the ways to make an error (kinds alone, strings, other, wrapped errors with 0 to 3 causes, errors of the crate inside of others) by all the accessors and 12 expressions with failing operations.")
