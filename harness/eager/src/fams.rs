//! Families of formulas: the shape is enumerated, the constants, the SAT solver's answer and the values of
//! the variables are symbolic.
use crate::gen::*;
use crate::vrf;

const OPS: [&str; 6] = [">=", ">", "<=", "<", "=", "distinct"];
fn op(name: &str) -> &'static str {
    OPS[vrf::choose(6, name) as usize]
}
fn ch(n: u64, name: &str) -> u64 {
    vrf::choose(n, name)
}
fn n(x: u64) -> RT {
    k(K::of(x))
}

/// One comparison between two linear terms, and an anchor that pins part of it down.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_cmp() {
    let d = Decls::ints(&["x", "y"]);
    let o = op("op");
    let c = K::dig(0, 3, "c");
    let l = match ch(4, "l") {
        0 => v("x"),
        1 => neg(v("x")),
        2 => sub(vec![v("x"), v("y")]),
        _ => kmul(K::of(3), v("x")),
    };
    let (f1, f2) = match ch(3, "r") {
        0 => (cmp(o, vec![l, k(c)]), cmp("<", vec![v("x"), k(K::dig(0, 3, "b"))])),
        1 => (cmp(o, vec![k(c), l]), cmp("=", vec![v("y"), v("x")])),
        _ => (cmp(o, vec![l, add(vec![v("y"), k(c)])]), cmp(">=", vec![v("y"), neg(n(2))])),
    };
    decide(&d, &[f1, f2]);
}

/// Chained comparisons of three and four arguments, pairwise `distinct`.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_chain() {
    let d = Decls::ints(&["x", "y"]);
    let o = op("op");
    let c = k(K::dig(0, 2, "c"));
    let e = k(K::dig(0, 2, "e"));
    let f1 = match ch(4, "s") {
        0 => cmp(o, vec![v("x"), v("y"), c]),
        1 => cmp(o, vec![c, v("x"), e]),
        2 => cmp(o, vec![v("x"), c, v("y"), e]),
        _ => not(cmp(o, vec![v("x"), v("y"), c])),
    };
    let f2 = match ch(2, "f2") {
        0 => cmp("<=", vec![v("y"), v("x")]),
        _ => cmp("=", vec![v("x"), n(1)]),
    };
    decide(&d, &[f1, f2]);
}

/// Sums, differences and multiples, repeated and cancelling variables and constants.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_sum() {
    let d = Decls::ints(&["x", "y"]);
    let o = ["=", ">=", "<", "distinct"][ch(4, "op") as usize];
    let c = || k(K::dig(0, 2, "c"));
    let (x, y) = (v("x"), v("y"));
    let l = match ch(12, "l") {
        0 => add(vec![x, y, v("x")]),
        1 => sub(vec![x, y, c()]),
        2 => neg(neg(x)),
        3 => add(vec![x, neg(y), n(3), add(vec![v("x"), c()])]),
        4 => sub(vec![add(vec![x, c()]), sub(vec![y, n(2)])]),
        5 => add(vec![kmul(K::of(2), x), mulk(v("x"), K::dig(0, 2, "c"))]),
        6 => sub(vec![kmul(K::of(2), x), kmul(K::dig(0, 2, "c"), v("x"))]),
        7 => add(vec![nmul(K::of(2), x), y]),
        8 => sub(vec![x, v("x")]),
        9 => neg(add(vec![x, neg(y), c()])),
        10 => sub(vec![n(1), x, add(vec![y, n(1)])]),
        _ => sub(vec![kmul(K::of(2), x), kmul(K::of(3), v("x")), c()]),
    };
    let r = match ch(2, "r") {
        0 => k(K::dig(0, 2, "d")),
        _ => add(vec![v("y"), v("x"), neg(n(1))]),
    };
    let f2 = cmp("=", vec![v("y"), n(2)]);
    decide(&d, &[cmp(o, vec![l, r]), f2]);
}

/// Boolean structure over comparisons and Boolean constants.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bool() {
    let mut d = Decls::ints(&["x"]);
    d.bools = vec!["p", "q"];
    let a = cmp(">=", vec![v("x"), k(K::dig(0, 2, "c"))]);
    let b = cmp("<", vec![v("x"), k(K::dig(0, 2, "e"))]);
    let o = ["and", "or", "xor", "=>", "="][ch(5, "op") as usize];
    let f1 = match ch(6, "s") {
        0 => con(o, vec![a, bv("p")]),
        1 => con(o, vec![a, bv("p"), b]),
        2 => not(con(o, vec![a, b])),
        3 => con(o, vec![not(bv("p")), not(a), b]),
        4 => iteb(con(o, vec![bv("p"), bv("q")]), a, b),
        _ => con(o, vec![iteb(bv("p"), bv("q"), a), tt(), not(ff()), b]),
    };
    let f2 = match ch(2, "f2") {
        0 => con("or", vec![not(bv("p")), bv("q")]),
        _ => con("xor", vec![bv("p"), cmp("=", vec![v("x"), n(1)])]),
    };
    decide(&d, &[f1, f2]);
}

/// `let`: shadowing, parallel bindings, nesting, Boolean and integer bindings.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_let() {
    let mut d = Decls::ints(&["x", "y"]);
    d.bools = vec!["p"];
    let c = k(K::dig(0, 2, "c"));
    let (x, y) = (v("x"), v("y"));
    let o = [">=", "<", "="][ch(3, "op") as usize];
    let f1 = match ch(7, "s") {
        0 => leti(vec![("x", add(vec![x, c]))], cmp(o, vec![v("x"), n(2)])),
        1 => leti(vec![("x", y), ("y", add(vec![x, c]))], cmp(o, vec![v("x"), v("y")])),
        2 => leti(vec![("z", add(vec![x, c]))], leti(vec![("x", v("y"))], cmp(o, vec![v("x"), v("z")]))),
        3 => letb("p", cmp(o, vec![x, c]), con("and", vec![not(bv("p")), cmp("<=", vec![y, v("x")])])),
        4 => cmp(o, vec![lett(vec![("y", sub(vec![x, c]))], add(vec![v("y"), v("x")])), v("y")]),
        5 => leti(vec![("z", x)], con("or", vec![cmp(o, vec![v("z"), c]), leti(vec![("z", v("y"))], cmp("<", vec![v("z"), v("x")]))])),
        _ => letb("q", bv("p"), letb("p", cmp(o, vec![x, c]), con("xor", vec![bv("q"), bv("p")]))),
    };
    let f2 = match ch(2, "f2") {
        0 => con("and", vec![cmp("<", vec![v("y"), n(2)]), bv("p")]),
        _ => con("=", vec![cmp("=", vec![v("x"), n(1)]), bv("p")]),
    };
    decide(&d, &[f1, f2]);
}

/// Integer `ite`.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_ite() {
    let mut d = Decls::ints(&["x", "y"]);
    d.bools = vec!["p"];
    let c = k(K::dig(0, 2, "c"));
    let (x, y) = (v("x"), v("y"));
    let o = op("op");
    let f1 = match ch(4, "s") {
        0 => cmp(o, vec![ite(bv("p"), x, y), c]),
        1 => cmp(o, vec![c, ite(cmp(">=", vec![x, y]), v("x"), v("y"))]),
        2 => not(cmp(o, vec![add(vec![ite(bv("p"), x, neg(y)), v("x")]), c])),
        _ => cmp(o, vec![ite(bv("p"), ite(cmp("<", vec![x, c]), n(1), n(2)), y), n(2)]),
    };
    let f2 = match ch(2, "f2") {
        0 => cmp("<", vec![v("x"), v("y")]),
        _ => con("xor", vec![bv("p"), cmp("=", vec![v("x"), n(1)])]),
    };
    decide(&d, &[f1, f2]);
}

/// Systems whose solutions grow with the number of variables and constraints: difference constraints.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_diff() {
    let d = Decls::ints(&["x", "y", "z", "w"]);
    let c = || k(K::dig(4, 6, "c"));
    let step = |a, b, e: RT| cmp(">=", vec![sub(vec![v(b), v(a)]), e]);
    let fs = match ch(6, "s") {
        // x < y < z < w by c each, anchored from below and above
        0 => vec![step("x", "y", k(K::dig(8, 9, "c"))), step("y", "z", n(9)), step("z", "w", n(9)), cmp(">=", vec![v("x"), n(9)])],
        1 => vec![step("x", "y", c()), step("y", "z", n(9)), cmp("<=", vec![v("z"), neg(n(9))])],
        2 => vec![cmp(">", vec![v("y"), add(vec![v("x"), c()])]), cmp(">", vec![v("z"), add(vec![v("y"), n(7)])]), cmp("<", vec![v("z"), add(vec![v("x"), k(K::dig(8, 9, "e"))])])],
        // two partitions that a later constraint joins
        3 => vec![cmp(">=", vec![v("x"), n(40)]), cmp(">=", vec![v("y"), c()]), cmp("<", vec![v("x"), v("y")])],
        4 => vec![cmp("=", vec![v("z"), v("y")]), cmp("<", vec![v("y"), v("x")]), cmp("<=", vec![v("x"), neg(k(K::dig(1, 3, "e")))])],
        _ => vec![con("or", vec![cmp("=", vec![v("x"), n(31)]), cmp("=", vec![v("x"), neg(n(33))])]), cmp("=", vec![sub(vec![v("y"), v("x")]), c()]), cmp("distinct", vec![v("z"), v("y")])],
    };
    decide(&d, &fs);
}

/// Equality logic: how many values are needed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_eql() {
    let d = Decls::ints(&["x", "y", "z", "w", "u"]);
    let e = |a, b| cmp("=", vec![v(a), v(b)]);
    let mut fs = match ch(4, "s") {
        0 => vec![cmp("distinct", vec![v("x"), v("y"), v("z"), v("w"), v("u")])],
        1 => vec![cmp("distinct", vec![v("x"), v("y"), v("z")]), con("or", vec![e("w", "x"), e("w", "y")]), cmp("distinct", vec![v("w"), v("z")])],
        2 => vec![e("x", "y"), e("z", "w"), not(e("y", "w")), con("or", vec![e("x", "z"), e("u", "z")])],
        _ => vec![e("x", "y"), e("y", "z"), cmp("distinct", vec![v("x"), v("z")])],
    };
    if ch(2, "t") == 1 {
        fs.push(e("u", "w"));
    }
    decide(&d, &fs);
}

/// General linear systems: solutions grow with coefficients, widths and the number of constraints.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_gen() {
    let d = Decls::ints(&["x", "y", "z"]);
    let a = K::of([2, 3, 6][ch(3, "a") as usize]);
    let c = || k(K::dig(4, 6, "c"));
    let fs = match ch(6, "s") {
        0 => vec![cmp("=", vec![v("y"), kmul(a, v("x"))]), cmp(">=", vec![v("x"), c()])],
        1 => vec![cmp("=", vec![v("y"), mulk(v("x"), a)]), cmp("=", vec![v("z"), kmul(K::of(3), v("y"))]), cmp("=", vec![v("x"), k(K::dig(3, 4, "c"))])],
        2 => vec![cmp("=", vec![v("x"), add(vec![v("y"), v("z")])]), cmp(">=", vec![v("y"), c()]), cmp(">=", vec![v("z"), n(9)])],
        3 => vec![cmp("=", vec![kmul(a, v("x")), c()])],
        4 => vec![cmp("<", vec![v("x"), neg(c())]), cmp("<=", vec![v("y"), sub(vec![v("x"), kmul(a, v("y"))])])],
        _ => vec![cmp("=", vec![add(vec![kmul(K::of(2), v("x")), kmul(K::of(2), v("y"))]), c()]), cmp(">", vec![v("x"), n(3)])],
    };
    decide(&d, &fs);
}

/// Constants and solutions wider than machine words.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_wide() {
    let d = Decls::ints(&["x"]);
    let (big, neg_) = match ch(3, "w") {
        0 => (K::lit("922337203685477580"), false), // 2^63-8.. and up
        1 => (K::lit("1844674407370955161"), false), // around 2^64
        _ => (K::lit("429496729"), false),           // around 2^32
    };
    let _ = neg_;
    let mut t = big;
    t.0.push(b'0' + 5 + vrf::below(4, "c") as u8);
    let f = match ch(3, "s") {
        0 => vec![cmp(">=", vec![v("x"), k(t.clone())]), cmp("<=", vec![v("x"), k(t)])],
        1 => vec![cmp("=", vec![v("x"), neg(k(t))])],
        _ => vec![cmp("<", vec![v("x"), neg(k(t.clone()))]), cmp(">", vec![v("x"), neg(add(vec![k(t), n(2)]))])],
    };
    decide(&d, &f);
}

/// Two terms over the same variable in every form a multiple can take.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_mult() {
    let d = Decls::ints(&["x", "y"]);
    let deep = vrf::deep();
    let o = ["=", ">=", "<"][ch(if deep { 3 } else { 2 }, "op") as usize];
    let term = |kind, c: K| match kind {
        0 => v("x"),
        1 => neg(v("x")),
        2 => kmul(c, v("x")),
        3 => mulk(v("x"), c),
        4 => nmul(c, v("x")),
        _ => neg(kmul(c, v("x"))),
    };
    let a = term(ch(6, "a"), K::of(2));
    let b = term(ch(6, "b"), if deep { K::dig(0, 5, "c") } else { K::dig(1, 3, "c") });
    let l = match ch(4, "l") {
        0 => add(vec![a, b]),
        1 => sub(vec![a, v("y"), b]),
        2 => sub(vec![v("y"), a, b]),
        _ => neg(add(vec![b, neg(a), v("y")])),
    };
    let f2 = cmp("=", vec![v("y"), n(12)]);
    decide(&d, &[cmp(o, vec![l, k(K::dig(6, 6, "d"))]), f2]);
}

/// Where the smallest solutions are far away: large coefficients, large constants, many constraints, joined groups.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_far() {
    let d = Decls::ints(&["x", "y", "z", "w"]);
    let x = |i: usize| v(["x", "y", "z", "w"][i]);
    let at_least = |t, c| cmp(">=", vec![t, c]);
    // a number 9c1, and a coefficient 9c
    let big = || {
        let mut b = K::lit("9");
        b.0.push(b'0' + vrf::below(2, "c") as u8);
        k(b.cat("1"))
    };
    let bigk = || {
        let mut b = K::lit("9");
        b.0.push(b'0' + vrf::below(2, "c") as u8);
        b
    };
    // the same constraint in several notations: a >= c*b
    let mult = |form: u64, a: RT, c: K, b: RT| match form {
        0 => cmp(">=", vec![a, kmul(c, b)]),
        1 => cmp("<=", vec![sub(vec![mulk(b, c), a]), n(0)]),
        2 => cmp(">=", vec![add(vec![a, nmul(c, b)]), n(0)]),
        _ => not(cmp(">", vec![kmul(c, b), a])),
    };
    let form = ch(4, "f");
    let fs = match ch(12, "s") {
        0 => vec![at_least(x(0), n(1)), mult(form, x(1), bigk(), x(0))],
        1 => vec![cmp("<=", vec![x(0), neg(n(1))]), match form {
            0 => cmp("<=", vec![x(1), kmul(bigk(), x(0))]),
            1 => cmp(">=", vec![sub(vec![mulk(x(0), bigk()), x(1)]), n(0)]),
            2 => cmp("<=", vec![add(vec![x(1), nmul(bigk(), x(0))]), n(0)]),
            _ => not(cmp(">", vec![x(1), kmul(bigk(), x(0))])),
        }],
        2 => vec![at_least(x(0), n(1)), mult(form, x(1), K::of(19), x(0)), mult(form, x(2), K::of(19), x(1)), mult(form, x(3), K::lit("1").dig2(8, 9, "c"), x(2))],
        3 => vec![at_least(x(0), big()), mult(form, x(1), K::of(2), x(0)), mult(form, x(2), K::of(2), x(1))],
        // groups of variables that are joined later: one with a large constant, one with large coefficients
        4 => {
            let a = at_least(x(0), big());
            let b = mult(0, x(2), K::of(3), x(1));
            let j = cmp("=", if form & 1 == 0 { vec![x(0), x(1)] } else { vec![x(1), x(0)] });
            if form & 2 == 0 { vec![a, b, j] } else { vec![b, a, j] }
        }
        5 => {
            let a = mult(0, x(1), bigk(), x(0));
            let b = at_least(x(2), n(7));
            let j = cmp(">=", if form & 1 == 0 { vec![x(0), x(2)] } else { vec![x(0), add(vec![x(2), n(0)])] });
            if form & 2 == 0 { vec![a, b, j] } else { vec![b, a, j] }
        }
        // difference constraints: chains in both directions, in several notations
        6 => {
            let c = big();
            let s = |a: RT, b: RT| match form {
                0 => at_least(sub(vec![b, a]), n(911)),
                1 => cmp("<=", vec![add(vec![a, n(911)]), b]),
                2 => cmp("<", vec![sub(vec![a, b]), neg(n(910))]),
                _ => cmp(">=", vec![add(vec![neg(a), b]), n(911)]),
            };
            vec![at_least(x(0), c), s(x(0), x(1)), s(x(1), x(2)), s(x(2), x(3))]
        }
        7 => {
            let s = |a: RT, b: RT| match form {
                0 => cmp("<=", vec![sub(vec![b, a]), neg(n(911))]),
                1 => cmp(">", vec![a, add(vec![b, n(910)])]),
                2 => cmp("=", vec![a, add(vec![b, n(911)])]),
                _ => not(cmp("<=", vec![add(vec![a, neg(b)]), n(910)])),
            };
            vec![at_least(neg(x(0)), big()), s(x(0), x(1)), s(x(1), x(2)), s(x(2), x(3))]
        }
        // strict orders: constants are all zero
        8 => match form {
            0 => vec![cmp("<", vec![x(0), x(1), x(2), x(3)])],
            1 => vec![cmp(">", vec![x(0), x(1), x(2), x(3), n(0)])],
            2 => vec![cmp("<", vec![x(0), x(1), x(2), x(3), n(0)])],
            _ => vec![cmp(">", vec![x(3), x(1)]), cmp(">", vec![x(1), x(2), x(0)]), cmp("=", vec![x(2), n(0)])],
        },
        // only equalities
        9 => match form {
            0 => vec![cmp("distinct", vec![x(0), x(1), x(2), x(3), n(0)])],
            1 => vec![cmp("distinct", vec![x(0), x(1), x(2), x(3)]), cmp("=", vec![x(0), n(0)])],
            2 => vec![cmp("distinct", vec![x(0), x(1), x(2), n(0)]), cmp("=", vec![x(3), big()])],
            _ => vec![cmp("distinct", vec![x(0), n(0)]), cmp("distinct", vec![x(1), n(0), x(0)])],
        },
        // wide sums
        10 => vec![at_least(x(0), big()), at_least(x(1), big()), at_least(x(2), n(911)), cmp("=", vec![x(3), match form {
            0 => add(vec![x(0), x(1), x(2)]),
            1 => neg(add(vec![x(0), x(1), x(2)])),
            2 => sub(vec![x(0), neg(x(1)), neg(x(2))]),
            _ => add(vec![x(0), neg(neg(x(1))), add(vec![x(2), n(911)])]),
        }])],
        // alternatives: only the far one is possible
        _ => vec![con("or", vec![cmp("=", vec![x(0), n(3)]), mult(form, x(0), bigk(), x(1))]), at_least(x(1), n(2)), cmp("distinct", vec![x(0), n(3)])],
    };
    decide_unsat(&d, &fs);
}

/// Uninterpreted functions and predicates.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_uf() {
    let mut d = Decls::ints(&["x", "y"]);
    d.funs = vec![("f", 1, false), ("g", 2, false), ("r", 1, true)];
    let f = |t: RT| app("f", vec![t]);
    let g = |a: RT, b: RT| app("g", vec![a, b]);
    let c = || k(K::dig(0, 2, "c"));
    let open = vrf::deep();
    let s = ch(9, "s");
    let mut fs = match s {
        0 => vec![cmp("=", vec![v("x"), add(vec![v("y"), c()])]), cmp("distinct", vec![f(v("x")), f(v("y"))])],
        1 => vec![cmp("=", vec![f(v("x")), c()]), cmp("=", vec![f(n(1)), n(2)]), cmp("=", vec![v("x"), n(1)])],
        2 => vec![cmp("=", vec![f(f(v("x"))), v("x")]), cmp(">", vec![f(v("x")), add(vec![v("x"), c()])])],
        3 => vec![cmp("<", vec![g(v("x"), v("y")), g(v("y"), v("x"))]), cmp(">=", vec![v("x"), add(vec![v("y"), c()])])],
        4 => vec![pred("r", vec![v("x")]), not(pred("r", vec![add(vec![v("y"), c()])])), cmp("<=", vec![v("y"), v("x")])],
        5 => vec![cmp("=", vec![g(f(v("x")), v("y")), c()]), cmp("=", vec![g(v("y"), f(v("x"))), n(1)])],
        6 => vec![leti(vec![("y", f(v("x")))], cmp(">", vec![f(v("y")), c()])), cmp("=", vec![f(n(0)), n(1)]), cmp("=", vec![v("x"), n(0)])],
        7 => vec![con("or", vec![cmp("=", vec![v("x"), n(1)]), cmp("=", vec![v("x"), n(2)])]), cmp("=", vec![f(n(1)), n(1)]), cmp("=", vec![f(n(2)), c()]), cmp("distinct", vec![f(v("x")), n(1)])],
        _ => vec![cmp("=", vec![ite(pred("r", vec![v("x")]), f(v("x")), f(v("y"))), c()]), cmp("=", vec![v("x"), v("y")]), cmp(">", vec![f(v("y")), n(0)])],
    };
    if !open {
        // keep the arguments of the functions within few values
        match s {
            0 => fs.push(cmp("=", vec![v("y"), n(1)])),
            3 => fs.extend(vec![cmp("=", vec![v("y"), n(1)]), cmp("<=", vec![v("x"), n(2)])]),
            2 => fs.push(cmp("=", vec![v("x"), neg(n(1))])),
            4 => fs.push(cmp("=", vec![v("y"), n(2)])),
            5 => fs.extend(vec![cmp("=", vec![v("x"), n(0)]), cmp("=", vec![v("y"), c()]), cmp("=", vec![f(n(0)), n(2)])]),
            _ => (),
        }
    }
    decide(&d, &fs);
}
