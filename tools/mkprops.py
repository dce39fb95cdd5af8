#!/usr/bin/env python3-vt
"""Regenerates /verif/properties.jsonl (kept as code so the text stays reviewable)."""
import json, os
P = []
MS = "src/macro_set/mod.rs"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(d)

STATE = [("definition store", "the variable-like and function-like macros that are live right now", MS + " struct MacroSet")]

p("P01", "Lookups and expansions see exactly the live definitions",
  "At every point of any history of define, redefine, undefine, clone and expand operations issued by any number of clients, the result of expanding a macro or a token list depends only on the definitions live at that moment: it is identical to what a newly created set holding just those definitions returns. A name that is not live is reported as not found, and each name is at any moment a variable-like macro or a function-like macro or neither, never both, the most recent definition winning.",
  ["histories", "schedules"], "all operation histories and client interleavings over a bounded set of names, including kind changes, redefinitions, undefinitions of absent names and chains of macros that refer to each other",
  "Unit tests define a handful of macros once and expand them once; none undefines a macro, changes its kind, or expands in the middle of a history, so stale state left by an earlier definition cannot show.",
  [MS], [("define/undefine keep one live entry per name", MS + " define_var_macro, define_fn_macro, undefine_var_macro, undefine_fn_macro"), ("names are looked up when expanded, not when defined", MS + " expand_macro_body")],
  STATE, ["MacroSet::expand_var_macro", "MacroSet::expand_fn_macro", "MacroSet::expand"])

p("P02", "Define and undefine report truthfully what they changed",
  "Defining a macro reports a redefinition exactly when a live macro of that name was replaced by a different one, where two definitions are the same only if they have the same kind, the same parameter list and the same body after removing whitespace and comment tokens. Undefining reports success exactly when a live macro of that kind and name was removed, and removes nothing else.",
  ["histories", "inputs"], "all operation histories, with definitions that are equal, differ only in whitespace or comments, are a prefix or an extension of one another, or differ in a parameter, a body token or the kind",
  "Three tests compare bodies of equal length in a fresh set; prefixes, parameter changes, kind changes after an undefine, and the undefine results are not tested at all.",
  [MS], [("comparison of the old and new definition", MS + " define_var_macro, define_fn_macro, is_whitespace"), ("removal result", MS + " undefine_var_macro, undefine_fn_macro")], STATE,
  ["return values of MacroSet::define_var_macro, define_fn_macro, undefine_var_macro, undefine_fn_macro"])

p("P03", "A define that fails part-way leaves the old or the new definition",
  "If defining a macro is cut short because the caller's source of names, parameters or body tokens fails part-way, or because memory runs out at any allocation, the name afterwards still has exactly its old definition or exactly its new one, never none, both kinds, or a mixture. No other macro is affected and the set stays fully usable.",
  ["crash_points", "histories", "fault_sequences"], "every failing point (each item pulled from the caller's iterators, each text conversion, each allocation) of every define in a random history, in sets of any size",
  "No test makes a source fail or an allocation fail; a definition that is dropped before the new one is complete is invisible without a fault in between.",
  [MS], [("the new definition is collected before the store changes", MS + " define_var_macro, define_fn_macro")], STATE,
  ["MacroSet::define_var_macro and define_fn_macro, then any expansion"])

p("P04", "Expanding, parsing and generating never change the set; readers can share it",
  "Expansion, parsing and code generation leave the macro set unchanged, whether they succeed, fail or are aborted part-way, so any number of clients may read one shared set at once, under every interleaving and from any thread, and each gets the result a lone sequential reader would get. A macro set can be shared and sent between threads.",
  ["schedules", "histories", "crash_points"], "all interleavings, at allocation and callback granularity, of concurrent readers with each other and (behind a reader-writer lock) with writers, with readers aborted at arbitrary points",
  "Every test uses one thread and one reader, so hidden shared state, caches and aborted reads are never exercised.",
  [MS, "src/fn_macro.rs", "src/var_macro.rs"], [("reads borrow the set immutably and build their own token lists", MS + " expand_macro_body, expand_fn_macro_body, expand_arguments")], STATE,
  ["MacroSet::expand*", "FnMacro::generate", "VarMacro::generate"])

p("P05", "Clones of a macro set are independent snapshots",
  "A clone of a macro set behaves exactly like the original at the moment of cloning, and from then on no operation on either one, including failed ones, has any effect on the other.",
  ["histories", "schedules"], "all histories over a tree of clones of clones, with interleaved operations on all of them and originals dropped before their clones",
  "No test clones a set.", [MS], [("deep copy of the stored definitions", MS + " derive(Clone) on MacroSet")], STATE, ["MacroSet::clone"])

p("P06", "Results do not depend on hash seeds, threads, order, time or memory layout",
  "The same set of live definitions gives byte-identical expansions, parse results, generated code and errors in every process, thread, hash seed, memory layout, clock reading and schedule, and regardless of the order in which the definitions were made.",
  ["schedules", "configurations", "histories"], "the same workload executed under differently seeded hash maps, clocks, allocation layouts, thread interleavings and definition orders",
  "The store is a randomly seeded hash map; a test executes one seed per process and compares with a constant, so an order dependence shows only by chance and cannot be replayed.",
  [MS, "src/context.rs"], [("lookup by key only, no iteration over the hash maps", MS + " expand_macro_body")], STATE,
  ["MacroSet::expand*", "FnMacro::generate", "VarMacro::generate"])

p("P07", "Generating code again, or after a failed attempt, gives the first-time result",
  "Generating code for a parsed macro any number of times gives the same result each time under the same context, and after an attempt that failed or was aborted part-way by the context, a later attempt gives exactly what a freshly parsed macro gives. What one context answered never shows in code generated later under another context.",
  ["histories", "fault_sequences", "crash_points"], "all sequences of generation attempts on one macro object under contexts that answer, decline, change their answers, return unusable types, or abort at any callback",
  "Every test generates each macro object once, under one context that never fails.",
  ["src/fn_macro.rs", "src/var_macro.rs", "src/ast/expr.rs", "src/ast/ty.rs", "src/ast/statement.rs"], [("type inference and folding rewrite the macro's expression tree during generation", "src/macro_body.rs finish; src/ast/expr.rs finish; src/ast/ty.rs finish")],
  [("expression tree", "the parsed macro body, rewritten in place while generating", "src/fn_macro.rs FnMacro.body; src/var_macro.rs VarMacro.body")],
  ["FnMacro::generate", "VarMacro::generate"])

p("P08", "Expansion follows the C rules for nested and self-referential macros",
  "At every point of any definition history, expanding a macro or token list built from variable-like and function-like macros yields the token sequence the C standard prescribes: arguments are split at top-level commas, checked against the parameter count and fully expanded before substitution, results are rescanned together with the tokens that follow, and a name met again while its own expansion is in progress is left alone for good. Function-like names that are not followed by an argument list are left as they are.",
  ["histories", "inputs", "fault_sequences"], "all histories of definitions over a bounded set of mutually referring macros, including definitions that arrive late, out of order, twice, or not at all",
  "The tests are the standard's examples; interactions of redefinition, mutual recursion, partial calls and missing definitions form a space they sample in a dozen points.",
  [MS], [("expansion and rescanning", MS + " expand_macro_body, expand_fn_macro_body, expand_var_macro_body"), ("argument collection and substitution", MS + " collect_args, expand_arguments"), ("painting of self-references", MS + " Token::NonReplacable")], STATE,
  ["MacroSet::expand", "MacroSet::expand_var_macro", "MacroSet::expand_fn_macro"])

p("P09", "Stringification, pasting and variable arguments follow the C rules",
  "At every point of any definition history, expanding macros that use the paste operator, the stringification operator or variable arguments yields what the C standard prescribes: their operands are used unexpanded, empty operands vanish, pasted tokens form one token that is rescanned, and the variable argument stands for all remaining arguments with their commas. Misuse (pasting at either end of a body, stringifying something that is not a parameter, variable arguments in a macro that takes none, a paste that forms no token) is reported as an error.",
  ["histories", "inputs", "fault_sequences"], "all histories of definitions whose bodies use the operators on parameters and plain tokens, with macro names among the operands, and with damaged operator placement",
  "The tests cover the standard's examples and use operands that are mostly not macros themselves.",
  [MS], [("paste", MS + " expand_concat, Token::concat"), ("stringification", MS + " stringify"), ("variable arguments", MS + " expand_arguments, detokenize")], STATE,
  ["MacroSet::expand", "MacroSet::expand_var_macro", "MacroSet::expand_fn_macro"])

p("P10", "Expansion of damaged or incomplete definitions never panics or runs away",
  "Whatever token texts, parameter lists and bodies have been delivered, including truncated, duplicated, reordered or corrupted ones and sets in which some definitions were lost, every define, undefine and expand returns within a bound on work and memory set by the size of the fully expanded result, and fails only with one of the documented expansion errors. The set stays usable afterwards.",
  ["fault_sequences", "inputs", "histories"], "all token streams obtained by damaging well-formed definitions, plus random token soup, in sets with missing and cyclic definitions",
  "Tests feed well-formed input; five error cases are tested.",
  [MS, "src/ast/literal.rs", "src/ast/identifier.rs", "src/ast/punctuation.rs", "src/ast/comment.rs"], [("error returns instead of panics", MS + " enum ExpansionError"), ("termination by painting", MS + " non_replaced_names")], STATE,
  ["MacroSet::define_*", "MacroSet::expand*"])

p("P11", "Parsing and generating from damaged tokens never panics or runs away",
  "Whatever macro name, parameter tokens and body tokens are delivered, including truncated, duplicated, reordered or corrupted ones, and whatever the context answers, parsing and code generation return within a bound on work and memory set by the size of the input (nested at most 63 levels, the minimum C guarantees) and of the generated code, and fail only with one of the documented errors.",
  ["fault_sequences", "inputs", "configurations"], "all token sequences obtained by damaging well-formed macro bodies, plus random token soup, combined with arbitrary, missing, unusable or inconsistent context answers",
  "Tests feed well-formed bodies and cooperative contexts; the error paths are hardly exercised.",
  ["src/fn_macro.rs", "src/var_macro.rs", "src/ast/expr.rs", "src/ast/statement.rs", "src/ast/asm.rs", "src/ast/ty.rs", "src/ast/literal.rs"], [("parser errors", "src/error.rs; src/macro_body.rs parse"), ("code generation errors", "src/error.rs; finish methods in src/ast")], None,
  ["FnMacro::parse", "FnMacro::generate", "VarMacro::parse", "VarMacro::generate"])

p("P12", "A broken, lost or changed definition affects only macros that reach it",
  "If one definition is corrupted, lost or replaced, every macro and token list from which that name cannot be reached through live definitions expands, parses and generates exactly as before, and the damage disappears without trace once the definition is restored.",
  ["fault_sequences", "histories"], "all single and multiple damages to a random set of definitions, and their repair, with all untouched macros compared before, during and after",
  "No test damages a definition in a populated set and looks at the others.",
  [MS], [("names are looked up one at a time while expanding", MS + " expand_macro_body")], STATE,
  ["MacroSet::expand*", "FnMacro::generate", "VarMacro::generate"])

p("P13", "A typed function is generated only from complete type knowledge",
  "A function-like macro becomes a typed function only if the context supplied a usable type for every parameter, the macro is not variadic, no function of that name is known, and the value's type is known; the function then has exactly those parameter types, in order. With anything missing the result is a macro with the same parameters or a documented error, and an unusable type from the context always yields an error, never an invented type.",
  ["fault_sequences", "configurations"], "all combinations of answered, missing, unusable and failing context answers for a macro's parameters, functions, types and variables, over random macro bodies",
  "Tests use the empty context or a context that knows everything.",
  ["src/fn_macro.rs", "src/context.rs", "src/ast/ty.rs", "src/ast/var.rs"], [("choice between function and macro", "src/fn_macro.rs generate"), ("conversion of supplied types", "src/ast/ty.rs from_rust_ty")], None,
  ["FnMacro::generate"])

p("P14", "Generated code is well-formed under every sequence of context answers",
  "Whenever code generation succeeds, the result is well-formed Rust: a value expression and, where given, a type for a variable-like macro; for a function-like macro, items that define the macro's own name with its own parameters in order. This holds whatever subset of names the context resolves or declines to resolve.",
  ["fault_sequences", "configurations"], "all answer patterns of the context (each name resolved, unresolved, or resolved differently over time), prefix and target settings, over random macro bodies",
  "Tests compare a fixed output text for a fixed context; answer patterns are not varied.",
  ["src/fn_macro.rs", "src/var_macro.rs", "src/ast"], [("code emission", "to_tokens methods in src/ast; src/codegen/mod.rs")], None,
  ["FnMacro::generate", "VarMacro::generate"])

p("P15", "Damaged token streams lose nothing and invent nothing",
  "If a macro body with lost, duplicated, reordered or foreign tokens still parses and generates, the generated code mentions every identifier of the delivered tokens, apart from C keyword phrases and the pointee type of a null pointer constant, and no identifier that was neither delivered, supplied by the context, nor part of the fixed Rust vocabulary. Parsing never succeeds by silently ignoring part of the delivered tokens.",
  ["fault_sequences", "inputs"], "all single and multiple token losses, duplications, swaps and insertions applied to random macro bodies with distinct identifiers",
  "Tests parse intact bodies; a parser that stops early or skips tokens on damaged input is not observed.",
  ["src/macro_body.rs", "src/ast/expr.rs", "src/ast/statement.rs", "src/fn_macro.rs"], [("whole input must be consumed", "src/macro_body.rs parse; src/fn_macro.rs parse_args")], None,
  ["FnMacro::parse + generate", "VarMacro::parse + generate"])

p("P16", "The context decides only what it is asked about",
  "Changing what the context answers about names that do not occur in a macro never changes the code or error generated for it, passing a context by reference is the same as passing it by value, and a context that uses the library itself while answering (even on the same macro set) gets and causes the same results as one that does not. A failure raised inside the context reaches the caller unchanged.",
  ["fault_sequences", "schedules", "configurations"], "all context faults limited to non-occurring names, re-entrant contexts, and contexts that abort at any of their callbacks, over random macros and interleavings",
  "No test varies answers for unrelated names, re-enters the library from a callback, or aborts in one.",
  ["src/context.rs", "src/fn_macro.rs", "src/var_macro.rs"], [("callbacks are forwarded with the name asked about", "src/context.rs impl CodegenContext for LocalContext, for &T")], None,
  ["CodegenContext", "FnMacro::generate", "VarMacro::generate"])

p("P22", "Memory is given back: nothing accumulates across operations",
  "Once everything a caller has made or got from the library (macro sets, clones, parsed macros, results, errors) is dropped, the library holds on to no more memory than after the first time: repeating any history of definitions, expansions, parsing and code generation, with the same or with other names, texts and contexts, on one thread or on new ones, does not make the memory in use grow from one repetition to the next. This includes histories with operations that fail, or that are cut short by the caller's token source, by the context or, while defining and expanding, by running out of memory.",
  ["histories", "fault_sequences", "crash_points", "schedules"], "any number of repetitions of random histories (definitions, lookups, expansions, parsing, generation; complete, failing and cut short; by one client or several), with the same or fresh names each time",
  "A test makes each thing once in a process that ends right after it; what stays behind in a static, a thread-local, a leaked box or a reference cycle is invisible without repetition and without weighing the heap.",
  [MS, "src/fn_macro.rs", "src/var_macro.rs", "src/macro_body.rs"], [("sets, tokens and parsed macros own what they hold, there is no global state", MS + " struct MacroSet; src/fn_macro.rs struct FnMacro; src/var_macro.rs struct VarMacro")], None,
  ["MacroSet", "FnMacro::generate", "VarMacro::generate", "drop of what they return"])

# Pure functions of their input: listed for breadth, not claimed.
def na(id, title, statement, text, why, files, mech):
    p(id, title, statement, ["inputs"], text, why, files, mech)
na("P17", "Literal values survive the translation",
   "Every C integer, floating-point, character and string literal is read with the value and type the C standard gives it, and the generated Rust literal has the same value and the corresponding type.",
   "all literals: bases, suffixes, digit separators, escapes, encodings, sizes", "Tests sample a few dozen literals.",
   ["src/ast/literal.rs", "src/ast/literal/"], [("literal parsing and emission", "src/ast/literal")])
na("P18", "Constant folding agrees with C arithmetic",
   "An expression made of literals only is replaced by the literal C would compute for it, with C's types, signedness, division, remainder and shift rules.",
   "all constant expressions", "Tests fold a handful of expressions.",
   ["src/ast/expr.rs", "src/ast/literal/"], [("folding", "src/ast/expr.rs finish")])
na("P19", "Generated expressions keep C's precedence and grouping",
   "The generated Rust expression groups its operands exactly as the C expression does, for every combination of operators, casts, member accesses and parentheses.",
   "all expression trees", "Tests cover pairs of operators.",
   ["src/ast/binary_expr.rs", "src/ast/unary_expr.rs", "src/ast/cast.rs"], [("parenthesisation by precedence", "precedence methods in src/ast")])
na("P20", "C types map to their Rust counterparts",
   "Every spelling of a C type (order of specifiers, qualifiers, pointers) maps to the Rust type with the same size, signedness and mutability.",
   "all type spellings", "Tests cover common spellings.",
   ["src/ast/ty.rs"], [("type parsing", "src/ast/ty.rs parse, int_ty, ty")])
na("P21", "Statements and assembly keep C's control flow and operands",
   "Generated statements (blocks, conditionals, loops, declarations, inline assembly) perform the same effects in the same order, with the same operands, as the C statements.",
   "all statement and inline assembly forms", "Tests cover one or two of each form; the header fixture test does not run here.",
   ["src/ast/statement.rs", "src/ast/asm.rs"], [("statement translation", "src/ast/statement.rs, src/ast/asm.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
