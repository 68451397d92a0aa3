"""What each check runs: harness entries, the assertions that belong to the property, bounds and assumptions."""

SOLVED = "the SAT solver is replaced by a stub that reads the DIMACS problem the code wrote and returns any assignment satisfying it (all of them at once, symbolically) or, when none exists, unsat"
UNSHARED = "while an answer is decoded, terms are created without hash-consing: decoding does not depend on two equal terms being the same allocation"
BASE = [
    "the harness is compiled with the dev profile (overflow checks and debug assertions on) to LLVM IR by rustc and optimised by LLVM; rustc, LLVM, z3 and the engine are trusted, the counterexamples and some passing paths are replayed on the native binary",
    "memory allocation does not fail; a single thread; hash maps are seeded from VERIF_SEED",
]

EAGER_NOINLINE = [
    "noinline:^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new",
    "noinline:^_RNvM*6InternINt*7WrapperINt*logic3all2OpNt*4TermEEE3new",
]

CRATES = {
    "eager": dict(
        prep=["noinline:^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new", "noinline:^_RNvM*6InternINt*7WrapperINt*logic3all2OpNt*4TermEEE3new",
              "7CnfTerm10solve_with", "7CnfTerm18solve_with_varisat", "3std2io5stdio6__print",
              "types*Wrapper*concrete8Constant*4hash4Hash4hash", "types*Wrapper*logic3all2Op*4hash4Hash4hash"],
        run=["redirect=7CnfTerm18solve_with_varisat:vrfx_varisat", "redirect=7CnfTerm10solve_with:vrfx_solve",
             "redirect=^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new:vrfx_iconst",
             "redirect=^_RNvM*6InternINt*7WrapperINt*logic3all2OpNt*4TermEEE3new:vrfx_iop",
             "nop=types*Wrapper*concrete8Constant*4hash4Hash4hash", "nop=types*Wrapper*logic3all2Op*4hash4Hash4hash"],
        pattern="amzn_smt_eager",
        assumptions=BASE + [SOLVED, UNSHARED, "hashing of interned constants and operations is a no-op (hash codes only choose buckets)"],
    ),
    "updater": dict(
        prep=["noinline:^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new"],
        run=["redirect=^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new:vrfx_iconst"],
        pattern="amzn_smt_string_fct",
        assumptions=BASE + ["constants are created without hash-consing: the conversion does not compare them"],
    ),
    "transformer": dict(
        prep=["types*Wrapper*concrete8Constant*4hash4Hash4hash", "^_RINv*11RandomState*11BuildHasher8hash_one*"],
        run=["nop=types*Wrapper*concrete8Constant*4hash4Hash4hash", "zero=^_RINv*11RandomState*11BuildHasher8hash_one*"],
        pattern="amzn_smt_string_transformer",
        assumptions=BASE,
    ),
    "prediction": dict(
        prep=["noinline:^_RNv*3std3env4args", "noinline:^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new", "types*Wrapper*concrete8Constant*4hash4Hash4hash"],
        run=["redirect=^_RNv*3std3env4args:vrfx_args", "nop=types*Wrapper*concrete8Constant*4hash4Hash4hash",
             "redirect=^_RNvM*6InternINt*7WrapperNt*8ConstantEE3new:vrfx_iconst"],
        pattern="program",
        assumptions=BASE,
    ),
}

ARITH = ["h_small", "h_cmp", "h_chain", "h_sum", "h_bool", "h_let", "h_ite", "h_eql", "h_diff", "h_gen", "h_wide"]
SHAPES = ("the shapes are those of the families in harness/eager/src/fams.rs and misc.rs (every comparison operator; chains; sums, differences, "
          "two multiples of one variable in every notation, repeated and cancelling variables; and/or/xor/=>/=/not/ite; let with shadowing; integer ite; difference and equality systems; "
          "general linear systems; trivial scripts)")
VALUES = "every constant digit, the SAT solver's answer and the values of all symbols are symbolic; the values of the symbols are unbounded mathematical integers. Larger formulas are outside the claim"
SUB = ["h_small", "h_chain", "h_bool", "h_ite", "h_let", "h_uf"]
ROUTE = lambda n: ["fix=route:%d" % n]

LITS = "literal characters are symbolic: any printable ASCII except the quote and the backslash"

CHECKS = {
    "C01": dict(crate="eager", entries=ARITH + ["h_mult"], args=ROUTE(0), ids=["a model satisfies the formula", "is accepted", "model "],
                bounds="formulas of 1 to 4 assertions over at most five integer and two Boolean symbols; " + SHAPES + "; constants of one digit and around 2^32, 2^63 and 2^64; " + VALUES),
    "C02": dict(crate="eager", entries=["h_far"] + ARITH, args=ROUTE(0), ids=["an unsat formula has no solution"], panics=False,
                bounds="formulas of 1 to 4 assertions over at most five integer and two Boolean symbols; " + SHAPES + "; 48 satisfiable systems whose smallest solutions are far away "
                "(coefficients up to 91, constants up to 911 and their products and sums; groups of variables joined late; strict orders), of which only an unsat answer is examined; " + VALUES),
    "C03": dict(crate="eager", entries=["h_bv"], args=ROUTE(0), bounds=(
        "one or two unsigned comparisons, possibly negated, over two bit-vector symbols and literals: widths 1, 3 (binary), 4, 8 (hexadecimal) and 5 (decimal); "
        "literal digits, the SAT solver's answer and the values of the symbols are symbolic (of two-digit hexadecimal literals the first digit is one of 0, 7, 8, f)")),
    "C04": dict(crate="eager", entries=["h_uf"], args=ROUTE(0), bounds=(
        "nine shapes with a unary and a binary integer function and a unary predicate: equal and different arguments, nested applications, applications under let and ite; "
        "constant digits 0..2, the SAT solver's answer, the values of symbols and of every function application are symbolic; the quick tier pins some arguments to constants")),
    "C05": dict(crate="eager", entries=["h_reject"], bounds=(
        "36 inputs at or beyond the edge of the supported fragment (non-linear arithmetic, div/mod/abs, quantifiers, reals, strings, arrays, sorts, definitions, other bit-vector operations, Boolean distinct, annotations), "
        "each with a symbolic digit and any SAT solver answer")),
    "C06": dict(crate="eager", entries=SUB, args=ROUTE(1),
                bounds="scripts of up to four assertions of the families h_small, h_chain, h_bool, h_let, h_ite and h_uf of harness/eager/src (Boolean structure, chains, let, ite, uninterpreted functions, scripts without variables or assertions); all assignments of the written problem; " + VALUES),
    "C07": dict(crate="eager", entries=SUB + ["h_bv"], args=ROUTE(2),
                bounds="scripts of up to four assertions of the families h_small, h_chain, h_bool, h_let, h_ite, h_uf and h_bv of harness/eager/src; the in-process solver is a stub returning any satisfying assignment, or unsat when there is none; " + VALUES),
    "C10": dict(crate="updater", entries=["h_esc"], bounds=(
        "literals of up to six (thorough: eight) arbitrary printable ASCII characters, alone or after a prefix with multi-byte characters or an incomplete sequence")),
    "C11": dict(crate="updater", entries=["h_names", "h_same"], bounds=(
        "16 terms with old or modern functions in 19 contexts (assertions, arguments of declared functions, negation, connectives, quantifiers, let, ite, function definitions, nested applications) "
        "and 20 commands without old notation, each with a symbolic digit and letter")),
    "C12": dict(crate="updater", entries=["h_logic"], bounds=(
        "scripts of up to three (thorough: four) commands, each one of 14 with a symbolic digit and letter: options, infos, set-logic, declarations, definitions, assertions with and without arithmetic in various places")),
    "C20": dict(crate="transformer", entries=["c_mix", "c_range", "c_mix2", "c_truth", "c_trange", "c_all"], bounds=(
        "a script with all printable characters and another one among them; 35 scripts with one to three literals of up to three characters in the one-to-one mode (equality, length, containment, concatenation, positions, numbers, digits, replacement, several of these at once, regular expressions, ite, ranges at most ten wide); " + LITS)),
    "C21": dict(crate="transformer", entries=["h_eq", "h_len", "h_len2", ("h_lits", dict(args=["steps=4000000000"]))], bounds=(
        "scripts with 16 and 112 literals of which two (one, of two values) are symbolic; 20 scripts with up to four literals of up to three characters (equalities, disequalities, distinct, push/pop, ite, lengths, lengths together with numbers, chains of variables, bounded repetition); " + LITS)),
    "C22": dict(crate="transformer", entries=["h_sub", "h_cat", "h_pos", "h_sub2", "h_truth"], bounds=(
        "42 scripts with two or three literals of up to three characters (containment, prefixes, suffixes, replacement, regular expressions, concatenations, positions, chains of variables, several of these at once); " + LITS)),
    "C23": dict(crate="transformer", entries=["h_int", "h_range", "h_int2", "h_range2", "h_trange"], bounds=(
        "19 scripts with two to four literals of up to three characters (conversion to and from numbers, digits, one range at most 50 wide or two disjoint ones at most three wide per script); " + LITS)),
    "C24": dict(crate="transformer", entries=["h_refuse", "h_refuse2"], bounds=(
        "14 scripts in both modes with one or two literals of up to two characters; " + LITS)),
    "C25": dict(crate="transformer", entries=["h_shape", "h_names"], bounds=(
        "a script with 13 names, two of them symbolic, and 13 bound ones; 17 scripts with two to four names (of variables, functions, parameters and bound variables) and up to two literals in both modes; names of one of two letters (one of them that of the new names) and a digit up to 2 (3 with four names; thorough: 9), pairwise different; "
        "either the names or the literals are symbolic; " + LITS)),
    "C26": dict(crate="transformer", entries=["h_recon", "h_outcome"], bounds=(
        "three scripts with two string variables, literals of up to two characters and a model whose values are built from the image of a literal and one more arbitrary printable character; eight other outcomes with and without check-sat; "
        "files are read and written in a model of the file system that never fails; characters are any printable ASCII except the quote")),
    "C28": dict(crate="transformer", entries=["h_subs", "h_vars"], bounds=(
        "a subformula with 13 variables; six scripts with up to twelve subformulas; names of one of two letters and a digit up to 2 (thorough: 9), pairwise different, or symbolic literals of one character")),
    "C30": dict(crate="prediction", entries=["h_count"], bounds=(
        "lists of three benchmarks (one with two of 20 commands, the second up to 16 further on, one with one, one without) in three data sets; characters of literals are any printable ASCII except the backslash, quotes doubled; "
        "digits are symbolic (of regular expression indices 1 and 2, thorough: 1 to 9), letters of names a to c (thorough: a to z)"),
        assumptions=["files are read and written in a model of the file system that never fails; the arguments of the program are given by the harness",
                     "constants are created without hash-consing: the program does not look at them"]),
}
