#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, tech, note))


TK = "prexel/src/tokenizer.rs"
EV = "prexel/src/evaluator.rs"
CX = "prexel/src/context.rs"
DE = "prexel/src/decimal/"
STATELESS = "exhaustive bounded enumeration of executions of the real code, each compared with a reference model"

prop("C01", "Expressions are grouped by precedence, associativity and notation",
     "A well formed expression evaluates to the value of the tree that the documented precedence (`^` over `* / mod` over `+ -`), "
     "associativity (`^` right, the others left), postfix and prefix notation, grouping and calls give to it. "
     "A prefix operator takes the whole operand on its right that binds tighter than the sums, products and powers around it require, "
     "and a postfix operator takes only the operand at its left.",
     ["inputs", "programs"], "every well formed expression, of any length and nesting",
     "The tests evaluate a few dozen fixed expressions; which operators are neighbours, and at what depth, is unbounded.",
     [EV, TK], [("shunting-yard conversion", EV + " rpn::infix_to_rpn"), ("unary/binary classification", TK + " next_operator / is_unary"), ("RPN evaluation", EV + " rpn::rpn_eval")],
     ["Evaluator::eval"], STATELESS,
     "Every well formed lexeme sequence within the bounds is evaluated over symbolic numbers (the value identifies the tree) and compared with an independent precedence climbing parser; and every chain and nest made of repetitions of short patterns, up to 1100 levels. Trusts the 64 bit tree hash and the reference grammar.")
prop("C02", "Malformed expressions are rejected and well formed ones accepted",
     "Evaluation returns an error for every expression that the grammar does not produce (misplaced operands or operators, unbalanced or mismatched grouping symbols, misplaced commas, unknown names or symbols), and a value for every expression it produces. "
     "No malformed expression yields a value, and no well formed one yields an error.",
     ["inputs"], "every sequence of operands, operators, grouping symbols, commas, functions and unknown symbols, in each configuration of implicit multiplication and call brackets",
     "The tests check about twenty malformed strings; the malformed ones are the overwhelming majority of all the sequences.",
     [EV, TK, CX], [("syntax checks of the conversion", EV + " rpn::infix_to_rpn"), ("lexing errors", TK + " Tokenizer::tokenize"), ("leftover check", EV + " rpn::rpn_eval")],
     ["Evaluator::eval"], STATELESS,
     "All lexeme sequences over a 14 symbol alphabet (and a bracket alphabet, longer) up to the bound, in all four configurations, and one altered lexeme at every position of deep nests, are compared (accept/reject and tree) with the reference grammar.")
prop("C03", "No input makes parsing or evaluation panic, overflow the stack or hang",
     "Evaluating any string, in any of the provided checked contexts (floats, integers, decimal, complex, binary) and configurations, finishes in bounded time with a value or an error. "
     "The same holds for calling any operator or function registered in those contexts with any operands and any number of arguments.",
     ["inputs", "configurations"], "every string; every tuple of operands of every provided operator and function",
     "A panic needs a specific combination (an extreme operand of one function, a depth, a run of operators); the tests only use ordinary operands.",
     [EV, TK, "prexel/src/num.rs", "prexel/src/ops/", DE, "prexel/src/complex/", "prexel/src/binary/"],
     [("error propagation", "prexel/src/error.rs"), ("checked arithmetic", "prexel/src/num.rs"), ("overflow handling of the decimal functions", DE + "ops.rs")],
     ["Evaluator::eval", "Function::call", "BinaryFunction::call", "UnaryFunction::call"],
     "exhaustive bounded enumeration of executions of the real code under a panic monitor and a hang watchdog",
     "All strings of up to 4 (5) fragments over a 26 fragment alphabet in nine contexts, all operand tuples of grids of extreme values for every registered operation, and long repetitive inputs.")
prop("C04", "Checked integer arithmetic is exact or an error",
     "In a checked context over an integer type `+`, `-`, `*`, `/` (truncated), `mod` (the remainder of the truncated division, with the sign of the dividend), `!`, the signs, and every sum, product, average, minimum, maximum and absolute value return the exact mathematical result when the type can represent it, and an error otherwise; a list operation may also report the overflow of a partial result. "
     "A wrapped, saturated or otherwise wrong value is never returned, and a division or modulo by zero is always an error.",
     ["inputs"], "every pair of operands of every integer type, and every argument list",
     "The tests use small operands; a wrong overflow boundary shows at a handful of the 2^16 to 2^256 operand pairs.",
     ["prexel/src/ops/checked.rs", "prexel/src/num.rs", "prexel/src/numeric_traits/", CX],
     [("checked operators", "prexel/src/ops/checked.rs"), ("checked number traits", "prexel/src/numeric_traits/checked.rs")],
     ["BinaryFunction::call", "UnaryFunction::call", "Function::call", "Evaluator::eval"],
     "exhaustive enumeration of the operand space (all i8 pairs; boundary grids of the wider types), each compared with arbitrary precision arithmetic",
     "All pairs of i8 (thorough: all pairs of i16 for + - * / mod) and the full product of boundary grids for i16 to i128; lists of up to 6 small values and each position of lists of up to 40; against 256 bit reference arithmetic.")
prop("C05", "Whitespace between lexemes never changes the result",
     "Adding, removing or changing the whitespace (spaces, tabs, line breaks, any other white space character, any amount of them) between two lexemes that remain separate lexemes, or around the expression, never changes the result of an evaluation: neither its value nor whether it is an error.",
     ["inputs"], "every lexeme sequence and every choice of separators between its lexemes",
     "The lexer looks at neighbouring characters and tokens, so a dependency on whitespace shows only at particular pairs of lexemes; the tests space their expressions uniformly.",
     [TK, "prexel/src/utils/splitter.rs"], [("whitespace handling of the tokenizer", TK + " Tokenizer::tokenize"), ("splitting", "prexel/src/utils/splitter.rs")],
     ["Evaluator::eval"], STATELESS,
     "For every lexeme sequence up to the bound all 2^n separator patterns, the exotic separators, every white space character of Unicode and separators up to a million characters are executed and compared with the canonical spacing.")
prop("C06", "The lexer splits any text into the right numbers, names and operators",
     "Any text is split into maximal numbers (with at most one decimal point), identifiers and grouping symbols, and a run of adjacent operator characters into the operators that compose it, losing, duplicating or inventing no character other than whitespace. "
     "A number followed by an identifier is two lexemes, and an identifier may contain digits and underscores.",
     ["inputs"], "every string", "The tests list about thirty strings, and the character classes interact at every boundary.",
     ["prexel/src/utils/splitter.rs", TK], [("default splitter", "prexel/src/utils/splitter.rs DefaultSplitter"), ("operator run splitting", TK + " split_operators")],
     ["Splitter::split", "Tokenizer::tokenize"], STATELESS,
     "All the strings over a character alphabet with one or more representatives of each class, up to the bound, and every ASCII and some Unicode characters next to the classes, and lexemes up to 65537 characters, against an independent reference lexer.")
prop("C07", "Names in a context resolve to one definition, ignoring case, in every build",
     "A function, operator or alias can be defined only if no other one of its kind has its name in any case, a variable only if no constant has it and vice versa, and any of them only if its name is valid (checked in debug builds); otherwise the definition is refused and nothing changes. "
     "Every defined name resolves, in any case (a variable in its own case), to the definition that was accepted for it, and every name that the standard contexts document is defined in each build configuration.",
     ["histories", "configurations"], "every sequence of definitions, with any names and aliases; builds with and without the documentation feature",
     "The tests define one or two names each; conflicts between aliases, kinds and cases need particular sequences.",
     [CX, "prexel/src/utils/string.rs", "prexel/src/ops/", "prexel/src/descriptions.rs"],
     [("registration", CX + " DefaultContext::add_*"), ("case folding names", "prexel/src/utils/string.rs")],
     ["DefaultContext::add_function / add_unary_function / add_binary_function / set_variable / add_constant", "Context::get_*", "Evaluator::eval"],
     "explicit state search (BFS) of a namespace model, every transition executed on the real context",
     "All the reachable model states up to the depth; each transition replays its history on a real context and compares the outcome and everything observable. Run in both builds.",
     state=[("namespace", "variables, constants, functions, unary and binary operators by case folded name", CX + " DefaultContext")])
prop("C08", "Case insensitive names are equal exactly when they fold equally, and hash alike",
     "Two names compare equal exactly when they are equal ignoring case; the comparison is reflexive, symmetric and transitive, equal names have the same hash, and a lookup by any case variant finds the entry.",
     ["inputs"], "every pair of strings, including any Unicode scalar", "Unicode case folding has special cases in a few hundred of 1.1 million scalars; the tests use ASCII.",
     ["prexel/src/utils/string.rs"], [("case folding equality and hash", "prexel/src/utils/string.rs")],
     ["IgnoreCaseStr / IgnoreCaseString comparison, hash and map lookup"],
     "exhaustive enumeration of all Unicode scalars and of all short string pairs",
     "All scalars against their case variants, all pairs and triples of short strings over a case-tricky alphabet.")
prop("C09", "Implicit multiplication joins exactly the adjacent values",
     "When implicit multiplication is enabled, a number directly followed by a variable, constant, group or call, and a closed group or call directly followed by any value, mean their product: it takes on its left only that value (with its signs), whatever operator precedes it (`1/2x` is `1/(2*x)`), and on its right what an explicit `*` would take. "
     "Nothing else changes; any other two adjacent values, and all of them when it is disabled, are an error.",
     ["inputs", "configurations"], "every expression with adjacent values",
     "The tests cover a few adjacent pairs; which token pairs insert a product depends on both neighbours and on the surrounding operators.",
     [EV, CX], [("implicit product insertion", EV + " rpn::infix_to_rpn"), ("configuration", CX + " Config")],
     ["Evaluator::eval"], STATELESS, "Every well formed sequence with implicit products within the bounds, and long products of repeated patterns, against the reference grammar.")
prop("C10", "A call passes exactly the arguments written, in order, at any nesting",
     "A function call passes to the function exactly the values of the expressions written between its brackets, as many as were written (none for empty brackets) and in the order written, whatever they contain and however deep the calls are nested. "
     "A call whose brackets, commas or arguments are missing or misplaced is an error.",
     ["inputs"], "every nesting of calls with any number of arguments", "Argument counts are kept on a stack that interacts with nested calls, groups and operators; the tests use a few fixed calls.",
     [EV], [("argument count tracking", EV + " rpn::infix_to_rpn"), ("argument passing", EV + " rpn::rpn_eval")],
     ["Evaluator::eval", "Function::call"], STATELESS, "Every well formed nesting of calls within the bounds and argument counts 0 to 520, 1000 and around 65536, nesting up to 300, against the reference grammar.")
prop("C11", "User defined operators obey their declared precedence and associativity",
     "For any set of user defined operators, symbolic or named, an expression is grouped by the precedence, associativity and notation that the operators declare, for any precedence values and whichever of its names (aliases included) is written. A symbol defined both as a prefix and a binary operator is told apart by its position.",
     ["inputs", "configurations"], "every operator table (uniform associativity per precedence level) and every expression over it",
     "The tests use the built in tables.",
     [EV, TK, "prexel/src/function.rs"], [("operator comparison", EV + " rpn::infix_to_rpn"), ("precedence", "prexel/src/function.rs Precedence")],
     ["Evaluator::eval"], STATELESS, "All weak orders of three binary operators, associativity per level and three unary sets, and every expression up to the bound; each occurrence by each name and alias; up to 257 (300) levels of precedence in many orders; against the reference grammar.")
prop("C12", "Evaluating never changes the evaluator",
     "The result of an evaluation depends only on the expression and on the current definitions: it is not affected by the expressions evaluated or tokenized before, whether they succeeded or failed, and it changes no definition. Redefining a variable affects exactly the later evaluations.",
     ["histories"], "every history of evaluations, failed evaluations and definitions on one evaluator",
     "The tests use a fresh evaluator for nearly every expression.",
     [EV, CX], [("evaluation over a shared context", EV + " Evaluator::eval"), ("variables", CX + " DefaultContext::set_variable")],
     ["Evaluator::eval", "Evaluator::eval_tokens", "Evaluator::mut_context"], "stateless exploration of all operation histories up to a depth on the real evaluator, compared with a model at each step",
     "All the histories of the bounded operation alphabet, each on a fresh evaluator.",
     state=[("definitions", "what evaluation may depend on", CX + " DefaultContext")])
prop("C27", "Tokenizing, converting to RPN and evaluating agree with each other",
     "Evaluating a text gives the same result as tokenizing it and evaluating the tokens, and as converting the tokens to reverse polish notation and applying that from left to right. "
     "The conversion yields only operands, operators and functions with argument counts, in a valid order, each of the input exactly once, and it fails for the malformed expressions only.",
     ["inputs"], "every token sequence", "The tests compare a handful of fixed conversions.",
     [EV, TK], [("conversion", EV + " rpn::infix_to_rpn"), ("evaluation", EV + " Evaluator::eval_tokens")],
     ["Tokenizer::tokenize", "infix_to_rpn", "Evaluator::eval_tokens", "Evaluator::eval"], STATELESS,
     "All sequences up to the bound; the RPN is executed by an independent stack machine.")

exec(open(os.path.join(V, "tools/more.py")).read()) if os.path.exists(os.path.join(V, "tools/more.py")) else None

CLAIMED = set(open(os.path.join(V, "tools/claimed")).read().split())
ORDER = sorted(P, key=lambda p: p[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in ORDER:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": t, "level": "model_checking", "level_note": n, "evidence_file": "evidence/%s.json" % p["id"]}
               for p, t, n in ORDER if p["id"] in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p, _, _ in ORDER if p["id"] not in CLAIMED],
    "notes": "No hooks: every check uses only the public interface of the crates (or runs the binaries). See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
