#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description (run after editing; both files are committed)."""
import json
E_ = "amzn-smt-eager-arithmetic/src/"
U_ = "amzn-smt-string-fct-updater/src/"
T_ = "amzn-smt-string-transformer/src/"
P_ = "amzn-smt-prediction/src/"


def P(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))


PROPS = [
    P("C01", "A model returned for an integer formula satisfies it",
      "Whenever solving a script of linear integer arithmetic (comparisons and their chains, sums, differences, variables multiplied by constants, distinct, Boolean connectives, let, ite, integer and Boolean symbols) answers sat, the returned model gives every symbol it mentions a value of its sort, and every assertion of the script evaluates to true under it, whatever values are chosen for symbols it leaves out. "
      "This holds whichever satisfying assignment the SAT solver picks, and no script of that fragment is rejected or crashes the solver.",
      "all scripts of the fragment, all constants (of any size), and every satisfying assignment a SAT solver may return",
      "the tests solve a few dozen fixed scripts with one SAT solver and never evaluate the model they get; a wrong bit order, sign, carry or coefficient shows only for particular constants and particular assignments",
      [E_ + "lib.rs", E_ + "encoding.rs", E_ + "canonicalize.rs"],
      [("normalisation of linear constraints", E_ + "canonicalize.rs"), ("bit-level encoding and decoding", E_ + "encoding.rs"), ("preprocessing passes and model reconstruction", E_ + "lib.rs")],
      observe=["result of solve"]),
    P("C02", "An integer formula declared unsat has no solution",
      "Whenever solving a script of linear integer arithmetic answers unsat, no assignment of unbounded integers and Booleans to its symbols satisfies all of its assertions. "
      "In particular the finite range chosen for the integer variables never cuts off all solutions, for equality systems, difference systems and general linear systems alike.",
      "all scripts of the fragment and all integer assignments, without bound",
      "a missed solution can be larger than anything a test tries; the tests check the verdict of fixed scripts only, and the bound depends on the constants, coefficients and the number of constraints",
      [E_ + "stats.rs", E_ + "encoding.rs", E_ + "canonicalize.rs", E_ + "lib.rs"],
      [("solution bound per class of constraints", E_ + "stats.rs"), ("two's complement width of variables", E_ + "encoding.rs")], observe=["result of solve"]),
    P("C03", "Bit-vector comparisons are decided exactly",
      "For scripts of unsigned less-or-equal comparisons between bit-vector symbols and binary, hexadecimal or decimal literals of any width, a sat answer comes with a value of the declared width for each bit-vector symbol of the model that makes every assertion true, and an unsat answer means no values do.",
      "all literals and widths, all values of the symbols, every satisfying assignment of the SAT solver",
      "the tests use two small scripts; errors in bit order, literal radix or width only show for asymmetric literals",
      [E_ + "encoding.rs", E_ + "lib.rs"], [("bit-vector encoding and decoding", E_ + "encoding.rs")], observe=["result of solve"]),
    P("C04", "Uninterpreted functions behave as functions",
      "For scripts that apply uninterpreted functions and predicates to integer terms, a sat answer comes with function definitions under which every assertion evaluates to true, and an unsat answer means no choice of functions satisfies them: equal arguments always give equal results, different arguments are never forced to.",
      "all scripts with applications, all argument and result values, every satisfying assignment of the SAT solver",
      "the tests check the sat/unsat verdict of a handful of scripts and never evaluate a returned function definition",
      [E_ + "lib.rs", E_ + "encoding.rs"], [("Ackermann expansion and reconstruction of function definitions", E_ + "lib.rs")], observe=["result of solve"]),
    P("C05", "Inputs beyond the supported fragment never get a wrong answer",
      "An input that uses operations, sorts or constructs the solver does not support (non-linear terms, division, quantifiers, reals, strings, arrays, other bit-vector operations, definitions) is either rejected with an error or answered correctly: it never crashes the solver, and is never reported sat when it is unsatisfiable or unsat when it is satisfiable.",
      "all inputs outside the fragment",
      "the space of unsupported inputs is open-ended and the tests contain almost none of it; a construct that is silently dropped or mistaken for another gives a confident wrong answer",
      [E_ + "lib.rs", E_ + "encoding.rs", E_ + "canonicalize.rs"], [("conversion to the reduced logic", E_ + "encoding.rs"), ("linearity check", E_ + "canonicalize.rs")], observe=["result of solve"]),
    P("C06", "The DIMACS export is well formed and equisatisfiable",
      "The problem written by the encoder is well-formed DIMACS whose header states the number of clauses and covers every variable used, and it is satisfiable exactly when the script is.",
      "all supported scripts",
      "the tests never read the exported text", [E_ + "lib.rs", E_ + "encoding.rs"], [("CNF export", E_ + "lib.rs")], observe=["bytes written by encode"]),
    P("C07", "The in-process SAT route answers as the external one",
      "Solving with the built-in SAT solver gives the guarantees of solving with an external one: a model it returns satisfies the script, and unsat means the script has no solution.",
      "all supported scripts and every satisfying assignment of the built-in solver",
      "the tests exercise this route on fixed scripts and look at the verdict only",
      [E_ + "lib.rs"], [("in-process solving and decoding", E_ + "lib.rs")], observe=["result of solve_with_varisat"]),
    P("C10", "Old escape sequences are converted and other text is kept",
      "Modernizing a script replaces, in every string literal, each escape sequence of the old notation (\\a \\b \\f \\n \\r \\t \\v and \\xHH) by the modern form \\u{HH} of the same character, in place, wherever it occurs. Every other character of the literal stays as it is, and modernizing a second time changes nothing.",
      "all string literals",
      "the tests convert a few literals with one escape each; what follows an incomplete sequence, sequences side by side, at the ends or after multi-byte characters are combinations nobody lists",
      [U_ + "transpiler.rs"], [("scanner for escape sequences", U_ + "transpiler.rs")], observe=["result of modernize_string_fcts"]),
    P("C11", "Modernizing keeps the meaning of every command",
      "Modernizing a script turns each old string function (str.to.re, str.in.re, str.to.int, int.to.str, re.nostr and the three-argument re.loop) into its modern counterpart applied to the same arguments in the same order, wherever it occurs, and keeps the order and text of all other commands and terms. The output is a script of the modern notation: it parses, and modernizing it again changes nothing.",
      "all scripts",
      "the tests compare a few converted scripts with expected files; an argument lost or swapped under a quantifier, a let or a nested loop is not among them",
      [U_ + "transpiler.rs"], [("rewriting of old function names and loops", U_ + "transpiler.rs")], observe=["result of modernize_string_fcts"]),
    P("C12", "A missing logic is set where and as the script needs it",
      "If a script sets no logic, modernizing it adds exactly one set-logic command, after the leading set-option commands and before everything else, which names a logic with integer arithmetic when the script uses arithmetic and the plain string logic otherwise. If the script sets a logic, none is added and the script's own is kept.",
      "all scripts and positions of the commands",
      "the tests contain one position and one way to use arithmetic; where arithmetic hides in a script is open-ended",
      [U_ + "transpiler.rs"], [("guess and placement of the logic", U_ + "transpiler.rs")], observe=["result of modernize_string_fcts"]),
    P("C20", "The one-to-one mode replaces characters one to one",
      "In the mode that replaces character by character, all literals of a transformed script keep their length, two characters anywhere in the literals are replaced by the same character exactly when they are the same, digits stay digits where numbers matter, and characters inside (outside) of a range stay inside (outside). "
      "The recorded map undoes the replacement of every character outside of ranges.",
      "all literals of all supported scripts",
      "the tests transform fixed scripts and rarely compare two literals; a clash of two replacements shows only for characters that meet in a particular order",
      [T_ + "string_mappings.rs", T_ + "transpiler.rs", T_ + "mapping_tools.rs"],
      [("character to character map", T_ + "string_mappings.rs"), ("reverse map", T_ + "mapping_tools.rs")], observe=["transformed script and mapping"]),
    P("C21", "Different literals stay different and lengths survive",
      "Transforming a script keeps equality of literals: two literals of the result are equal exactly when the original ones are, the empty literal stays the only empty one, and only plain printable characters without quotes or backslashes are produced. Where the script looks at lengths (str.len, bounded repetition), the affected literals keep theirs, also through chains of equal variables.",
      "all literals of all supported scripts",
      "two replacements collide only for particular literals in a particular order, and the tests check the text of a few fixed outputs",
      [T_ + "string_mappings.rs", T_ + "transpiler.rs", T_ + "string_fct_properties.rs"],
      [("made-up strings and their uniqueness", T_ + "string_mappings.rs"), ("properties each function needs", T_ + "string_fct_properties.rs"), ("groups of variables and literals that meet", T_ + "transpiler.rs")], observe=["transformed script"]),
    P("C22", "Relations between substrings survive the transformation",
      "Where a script relates literals by containment, prefix, suffix, concatenation or positions (str.contains, str.prefixof, str.suffixof, str.++, str.indexof, str.at, str.substr, regular expressions), the transformed literals stand in the same relation exactly when the original ones do; occurrences stay at the same positions where positions matter.",
      "all literals of all supported scripts",
      "whether one made-up string contains another by accident depends on the characters; the tests contain a handful of fixed literals",
      [T_ + "string_mappings.rs", T_ + "transpiler.rs", T_ + "string_fct_properties.rs"],
      [("substring-preserving replacement", T_ + "string_mappings.rs"), ("grouping of related literals", T_ + "transpiler.rs")], observe=["transformed script"]),
    P("C23", "Numbers and ranges survive the transformation",
      "Where a script converts between strings and numbers, literals that are numbers keep their value and no other literal becomes one; where it asks for digits, digits stay digits and nothing else becomes one. Characters of related literals stay inside or outside of the range a script uses.",
      "all literals of all supported scripts",
      "digits next to other characters and characters at the ends of a range are the cases no fixed script lists",
      [T_ + "string_mappings.rs", T_ + "string_fct_properties.rs", T_ + "transpiler.rs"],
      [("digits kept in place", T_ + "string_mappings.rs"), ("ranges", T_ + "string_mappings.rs")], observe=["transformed script"]),
    P("C24", "Scripts that depend on character codes are refused",
      "A script that compares literals by order or converts between characters and codes (str.<, str.<=, str.to_code, str.from_code), directly or through variables equal to each other, is reported as not transformable instead of being changed in its meaning.",
      "all literals and all ways of reaching them",
      "the tests try one function each, next to the literal",
      [T_ + "string_fct_properties.rs", T_ + "transpiler.rs"],
      [("properties each function needs", T_ + "string_fct_properties.rs"), ("groups of variables and literals that meet", T_ + "transpiler.rs")], observe=["mapping of a transformed script"]),
    P("C25", "The transformation changes nothing but names and literals",
      "A transformed script has the same commands, functions, sorts and constants as the original one, with declarations first; every declared name is replaced everywhere by one new name, different names by different ones even if they look like new names, and equal literals by equal ones. The mapping tells the original of every name.",
      "all supported scripts, names and literals",
      "the tests use names that never look like the new ones",
      [T_ + "transpiler.rs", T_ + "subformula_parser.rs", T_ + "mapping_tools.rs"],
      [("renaming", T_ + "transpiler.rs"), ("order of the commands", T_ + "subformula_parser.rs")], observe=["transformed script and mapping"]),
    P("C26", "A model is taken back to the original script",
      "From the original script, the written mapping and a solver's answer to the script transformed one to one, reconstruction writes the original script with the values of the model, in original names and characters, asserted before every check-sat. Answers other than a model, and missing files, are reported as what they are and write no script.",
      "all literals, models and answers",
      "the tests take back one or two models with fixed characters",
      [T_ + "reconstruct_tools.rs", T_ + "mapping_tools.rs"],
      [("reconstruction", T_ + "reconstruct_tools.rs"), ("mapping written and read", T_ + "mapping_tools.rs")], observe=["written script and result"]),
    P("C28", "Subformulas are listed with numbered variables",
      "The list of subformulas of a script contains every application of a function or operator, in order of appearance, arguments before the application they belong to, with the variables of each numbered in the order they appear in it and everything else as in the script.",
      "all scripts and names",
      "the tests compare the lists of a few scripts",
      [T_ + "subformula_parser.rs"], [("collection and numbering", T_ + "subformula_parser.rs")], observe=["list of subformulas"]),
    P("C30", "The offline features count every string function",
      "For every benchmark of its list, the prediction program writes one row, in order, with one number per column of the data set: how often the string function the column stands for occurs in the asserted terms of the benchmark, nested occurrences and those under let, quantifiers and other operations included. "
      "What literals contain and what other commands and other benchmarks look like has no influence. The data set other has a column for every string function, kepler those for str.++ and str.len, smtcomp the seventeen that occur there.",
      "all benchmarks, lists and data sets",
      "the crate has no tests at all; the counts feed a trained model, where a wrong number goes unnoticed",
      [P_ + "main.rs"], [("counting visitor", P_ + "main.rs"), ("columns per data set", P_ + "main.rs")], observe=["table written by the program"]),
]

TECH = "symbolic execution of the LLVM IR of the real code with z3"
CLAIMED = {}
NOT_APPLICABLE = {}

import checks
man = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the harness crates use the public API of /repo's crates", source_commits=[]),
           checks=[], not_applicable=[])
for p in PROPS:
    i = p["id"]
    if i in checks.CHECKS:
        man["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                                  technique=TECH, level="model_checking",
                                  level_note="Holds for every value of the symbolic inputs within the bounds: " + checks.CHECKS[i]["bounds"] + ". Trusted: rustc, LLVM, z3 and the engine; the stubs and assumptions listed in the evidence."))
    else:
        man["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet")))
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
json.dump(man, open("MANIFEST.json", "w"), indent=1)
