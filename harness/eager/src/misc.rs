//! Bit-vectors, inputs outside the fragment, the DIMACS output and the in-process route.
use crate::gen::*;
use crate::{sat, vrf};
use aws_smt_ir::{Constant, Symbol, Term};

/// A bit-vector operand: a symbol or a literal, most significant bit first.
#[derive(Clone)]
enum B {
    V(&'static str),
    Bin(Vec<u8>),
    Hex(Vec<u8>),
    Dec(u8, u64),
}
fn put(o: &mut Vec<u8>, b: &B, w: usize) {
    match b {
        B::V(n) => o.extend_from_slice(n.as_bytes()),
        B::Bin(d) => {
            o.extend_from_slice(b"#b");
            for x in d {
                o.push(b'0' + x)
            }
        }
        B::Hex(d) => {
            o.extend_from_slice(b"#x");
            for &x in d {
                // no branch on the symbolic digit
                let a = (x >= 10) as u8;
                o.push(b'0' + x + a * (b'a' - b'0' - 10))
            }
        }
        B::Dec(d, _) => {
            o.extend_from_slice(b"(_ bv");
            o.push(b'0' + d);
            o.push(b' ');
            o.extend_from_slice(w.to_string().as_bytes());
            o.push(b')')
        }
    }
}
fn val(b: &B, env: &[(&'static str, u64)]) -> u64 {
    match b {
        B::V(n) => env.iter().find(|(a, _)| a == n).unwrap().1,
        B::Bin(d) => d.iter().fold(0, |v, &x| v << 1 | x as u64),
        B::Hex(d) => d.iter().fold(0, |v, &x| v << 4 | x as u64),
        B::Dec(d, _) => *d as u64,
    }
}
/// Unsigned comparison of bit-vectors: symbols and binary, hexadecimal and decimal literals of several widths.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bv() {
    let names: [&'static str; 2] = ["x", "y"];
    let (w, lit): (usize, fn(&'static str, usize) -> B) = match vrf::choose(5, "w") {
        0 => (1, |n, w| B::Bin(bits(n, w))),
        1 => (3, |n, w| B::Bin(bits(n, w))),
        2 => (4, |n, _| B::Hex(vec![vrf::bits(4, n) as u8])),
        3 => (8, |n, _| B::Hex(vec![[0, 7, 8, 15][vrf::choose(4, "h1") as usize], vrf::bits(4, n) as u8])),
        _ => (5, |n, w| B::Dec(vrf::below(10, n) as u8, w as u64)),
    };
    let x = || B::V("x");
    let y = || B::V("y");
    // (negated, left, right)
    let cs: Vec<(bool, B, B)> = match vrf::choose(if w <= 3 { 5 } else { 4 }, "s") {
        0 => vec![(false, x(), lit("c", w))],
        1 => vec![(false, lit("c", w), x()), (false, x(), y())],
        2 => vec![(true, x(), lit("c", w)), (false, y(), x())],
        3 => vec![(true, x(), y()), (true, y(), lit("c", w))],
        _ => vec![(false, lit("c", w), x()), (false, x(), lit("d", w))],
    };
    let mut o = vec![];
    for n in names {
        o.extend_from_slice(["(declare-const ", n, " (_ BitVec ", &w.to_string(), "))"].concat().as_bytes());
    }
    for (neg, l, r) in &cs {
        o.extend_from_slice(if *neg { b"(assert (not (bvule " } else { b"(assert (bvule " });
        put(&mut o, l, w);
        o.push(b' ');
        put(&mut o, r, w);
        o.extend_from_slice(if *neg { b")))" } else { b"))" });
    }
    let text = unsafe { String::from_utf8_unchecked(o) };
    vrf::note(&text);
    let holds = |env: &[(&'static str, u64)]| {
        let mut r = 1u8;
        for (neg, a, b) in &cs {
            r &= (val(a, env) <= val(b, env)) as u8 ^ *neg as u8;
        }
        r
    };
    let r = if sat::route() == sat::BUILTIN { sat::run_builtin(&text) } else { sat::run_solve(&text) };
    match r {
        Ok(Some(m)) => {
            vrf::cover("sat");
            let mut env = vec![];
            for n in names {
                match m.get_const_value(&Symbol(n.to_string()).into()) {
                    Some(Term::Constant(c)) => match c.as_ref() {
                        Constant::Binary(b) => {
                            vrf::check(b.len() == w, "a bit-vector value has the declared width");
                            env.push((n, b.iter().fold(0u64, |v, &x| v << 1 | x as u64)));
                        }
                        _ => vrf::fail("a bit-vector symbol has a bit-vector value"),
                    },
                    Some(_) => vrf::fail("a bit-vector symbol has a bit-vector value"),
                    None => env.push((n, vrf::bits(w as u32, ["any.x", "any.y"][(n == "y") as usize]))),
                }
            }
            vrf::check8(holds(&env), "a bit-vector model satisfies the formula");
        }
        Ok(None) => {
            vrf::cover("unsat");
            let env = [("x", vrf::bits(w as u32, "w.x")), ("y", vrf::bits(w as u32, "w.y"))];
            vrf::check8(holds(&env) ^ 1, "an unsat bit-vector formula has no solution");
        }
        Err(_) => vrf::fail("a bit-vector comparison is accepted"),
    }
}
fn bits(n: &'static str, w: usize) -> Vec<u8> {
    (0..w).map(|i| vrf::bit(&[n, ".", ["0", "1", "2", "3", "4", "5", "6", "7"][i]].concat())).collect()
}

/// Inputs at and beyond the edge of the supported fragment, with what they mean: an answer, if any is given,
/// is the right one, and there is no crash.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_reject() {
    const I: &str = "(declare-const x Int)(declare-const y Int)(declare-const p Bool)(declare-const a (_ BitVec 4))(declare-const b (_ BitVec 4))(declare-const s String)(declare-const u Real)";
    let d = vrf::below(3, "d") as u8 + 1;
    // ('s' satisfiable, 'u' unsatisfiable) for every value 1..3 of the digit @
    const CASES: [(char, &str); 36] = [
        ('u', "(assert (= (* x x) 2))(assert (> x @))"),
        ('u', "(assert (= (* x y) @))(assert (= x 0))"),
        ('u', "(assert (= (* 2 (+ x 1)) 7))(assert (= y @))"),
        ('s', "(assert (= (* 2 (+ x 1)) (* 2 @)))"),
        ('s', "(assert (= (* 2 @ x) (* 6 @)))"),
        ('u', "(assert (= (div x 2) @))(assert (= x (- 1)))"),
        ('u', "(assert (= (mod x 2) 1))(assert (= x (* 2 @)))"),
        ('u', "(assert (= (abs x) (- @)))"),
        ('u', "(assert (forall ((z Int)) (>= z (+ x @))))"),
        ('s', "(assert (exists ((z Int)) (>= z (+ x @))))"),
        ('u', "(assert (= a b))(assert (not (bvule a b)))(assert (= x @))"),
        ('u', "(assert (bvult a a))(assert (= x @))"),
        ('u', "(assert (bvslt a #b1000))(assert (= x @))"),
        ('u', "(assert (not (bvsle #b1000 a)))(assert (= x @))"),
        ('u', "(assert (bvule (bvadd a #b0001) #b0000))(assert (bvule a #b0111))(assert (= x @))"),
        ('u', "(assert (bvule #b0010 #b0001))(assert (= x @))"),
        ('s', "(assert (bvule #b0001 #b0010))(assert (= x @))"),
        ('u', "(assert (bvuge a b))(assert (not (bvule b a)))(assert (= x @))"),
        ('u', "(assert (distinct a a))(assert (= x @))"),
        ('u', "(assert (distinct p p))(assert (= x @))"),
        ('u', "(assert (distinct p (not p) (= x @)))"),
        ('u', "(assert (= s \"a\"))(assert (= s \"b\"))(assert (= x @))"),
        ('u', "(assert (str.< s s))(assert (= x @))"),
        ('u', "(assert (> (str.len s) (+ x 0)))(assert (= (str.len s) x))(assert (= x @))"),
        ('u', "(assert (> u 1.5))(assert (< u 1.25))(assert (= x @))"),
        ('u', "(assert (> u @))(assert (< u @))"),
        ('u', "(define-fun f ((z Int)) Int (+ z 1))(assert (= (f x) x))(assert (= x @))"),
        ('s', "(define-fun f ((z Int)) Int (+ z 1))(assert (= (f x) @))"),
        ('u', "(declare-sort S 0)(declare-const m S)(declare-const o S)(assert (= m o))(assert (distinct m o))(assert (= x @))"),
        ('u', "(declare-const q (Array Int Int))(assert (= (select q x) 1))(assert (= (select q x) 2))(assert (= x @))"),
        ('s', "(assert (or p (not p)))"),
        ('s', "(assert true)(assert (or p true))"),
        ('u', "(assert (and p (not p)))"),
        ('u', "(assert false)(assert (>= x @))"),
        ('s', "(assert (>= x (- x @)))"),
        ('s', "(assert (! (>= x @) :named foo))"),
    ];
    let (want, t) = CASES[vrf::choose(CASES.len() as u64, "i") as usize];
    let mut o = I.as_bytes().to_vec();
    for &c in t.as_bytes() {
        o.push(if c == b'@' { b'0' + d } else { c });
    }
    let text = unsafe { String::from_utf8_unchecked(o) };
    vrf::note(&text);
    match sat::run_solve(&text) {
        Ok(Some(_)) => {
            vrf::cover("sat");
            vrf::check(want == 's', "an unsatisfiable input is not reported satisfiable");
        }
        Ok(None) => {
            vrf::cover("unsat");
            vrf::check(want == 'u', "a satisfiable input is not reported unsatisfiable");
        }
        Err(_) => vrf::cover("rejected"),
    }
}

/// Small scripts of every kind, down to those without variables, assertions or clauses.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_small() {
    let mut d = Decls::ints(&["x", "y"]);
    d.bools = vec!["p"];
    d.funs = vec![("f", 1, false)];
    let c = || k(K::dig(0, 2, "c"));
    let n = |i| k(K::of(i));
    let (x, y) = (|| v("x"), || v("y"));
    let fs = match vrf::choose(20, "s") {
        0 => vec![cmp(">=", vec![add(vec![x(), y()]), c()]), cmp("<", vec![x(), n(1)])],
        1 => vec![cmp("=", vec![kmul(K::of(2), x()), c()]), bv("p")],
        2 => vec![con("xor", vec![bv("p"), cmp("<", vec![x(), c()])]), cmp("<=", vec![x(), neg(n(2))])],
        3 => vec![cmp("distinct", vec![x(), y(), c()]), cmp("=", vec![x(), n(1)])],
        4 => vec![cmp("=", vec![app("f", vec![x()]), c()]), cmp("=", vec![app("f", vec![n(1)]), n(1)]), cmp("=", vec![x(), n(1)])],
        5 => vec![cmp("=", vec![ite(bv("p"), x(), c()), n(1)]), cmp(">", vec![x(), n(1)])],
        6 => vec![con("and", vec![cmp(">", vec![x(), c()]), not(bv("p"))]), cmp("<", vec![x(), n(2)]), con("or", vec![bv("p"), tt()])],
        7 => vec![],
        8 => vec![tt()],
        9 => vec![ff(), bv("p")],
        10 => vec![cmp(">=", vec![x(), x()])],
        11 => vec![cmp("=", vec![n(1), c()])],
        12 => vec![cmp("<", vec![c(), n(1), n(2)]), cmp("distinct", vec![n(0), n(1), n(2)])],
        13 => vec![bv("p"), con("=", vec![bv("p"), cmp("=", vec![n(1), c()])])],
        14 => vec![cmp(">", vec![sub(vec![x(), x()]), sub(vec![c(), n(1)])])],
        15 => vec![con("or", vec![not(bv("p")), bv("p")])],
        16 => vec![iteb(bv("p"), cmp(">", vec![x(), c()]), cmp("<", vec![x(), n(1)])), cmp("=", vec![x(), n(1)])],
        17 => vec![con("=>", vec![bv("p"), cmp("=", vec![x(), c()]), cmp("=", vec![y(), n(1)])]), bv("p"), cmp("=", vec![x(), n(1)]), cmp("<", vec![y(), x()])],
        18 => vec![cmp("=", vec![x(), neg(c())]), cmp("=", vec![add(vec![x(), n(1)]), y()]), cmp(">", vec![add(vec![x(), x(), y()]), n(0)])],
        _ => vec![not(con("xor", vec![bv("p"), tt(), cmp("=", vec![x(), c()])])), not(cmp("distinct", vec![x(), n(1)]))],
    };
    decide(&d, &fs);
}
