//! Whole scripts: old function names, everything else unchanged, the guessed logic.
use crate::vrf;
use amzn_smt_string_fct_updater::transpiler::{modernize_string_fcts, parse};

fn modernize(text: &[u8]) -> Option<String> {
    let cmds = match parse(text) {
        Ok(c) => c,
        Err(_) => return None,
    };
    let out = modernize_string_fcts(cmds);
    let mut s = String::new();
    for c in &out {
        s.push_str(&c.to_string());
        s.push('\n');
    }
    Some(s)
}
fn same(a: &[u8], b: &[u8]) -> u8 {
    if a.len() != b.len() {
        return 0;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    (d == 0) as u8
}
/// replaces @ and % by the characters, ~ by the text
fn fill(t: &str, d: u8, l: u8, sub: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len() + sub.len());
    for &c in t.as_bytes() {
        match c {
            b'@' => o.push(d),
            b'%' => o.push(l),
            b'~' => o.extend_from_slice(sub),
            _ => o.push(c),
        }
    }
    o
}

const DECLS: &str = "(declare-const s String)\n(declare-const t String)\n(declare-fun x () Int)\n(declare-fun f (String) RegLan)\n(declare-fun g (RegLan Int) Bool)\n(declare-fun h (Int) Bool)\n(declare-fun k (String) String)\n(declare-fun q (Bool) Int)\n";
/// (kind, old, new): r a regular expression, b a Boolean, i an integer, s a string
const SUBS: [(u8, &str, &str); 16] = [
    (b'r', "(str.to.re \"%\")", "(str.to_re \"%\")"),
    (b'r', "(str.to_re s)", "(str.to_re s)"),
    (b'r', "re.nostr", "re.none"),
    (b'r', "(re.++ re.nostr (str.to.re t) re.all)", "(re.++ re.none (str.to_re t) re.all)"),
    (b'r', "(re.loop (str.to.re \"%\") @ 12)", "((_ re.loop @ 12) (str.to_re \"%\"))"),
    (b'r', "(re.loop (re.loop (f s) 1 @) @ 17)", "((_ re.loop @ 17) ((_ re.loop 1 @) (f s)))"),
    (b'r', "(re.union (f t) (re.* (str.to.re s)))", "(re.union (f t) (re.* (str.to_re s)))"),
    (b'b', "(str.in.re s (re.range \"a\" \"%\"))", "(str.in_re s (re.range \"a\" \"%\"))"),
    (b'b', "(str.in.re (str.++ s \"%\" t) (str.to.re t))", "(str.in_re (str.++ s \"%\" t) (str.to_re t))"),
    (b'b', "(str.prefixof s t)", "(str.prefixof s t)"),
    (b'i', "(str.to.int s)", "(str.to_int s)"),
    (b'i', "(str.to.int (str.++ t (int.to.str x)))", "(str.to_int (str.++ t (str.from_int x)))"),
    (b'i', "(str.indexof s t @)", "(str.indexof s t @)"),
    (b's', "(int.to.str x)", "(str.from_int x)"),
    (b's', "(int.to.str (str.to.int (str.at s @)))", "(str.from_int (str.to_int (str.at s @)))"),
    (b's', "(str.substr s @ (str.len t))", "(str.substr s @ (str.len t))"),
];
const CTXS: [(u8, &str); 19] = [
    (b'r', "(assert (g ~ @))"),
    (b'b', "(assert (h (q ~)))"),
    (b'i', "(assert (h ~))"),
    (b's', "(assert (= s (k ~)))"),
    (b'i', "(assert (g (re.++ (f \"%\") re.all) ~))"),
    (b'r', "(assert (str.in_re s ~))"),
    (b'r', "(assert (not (str.in_re t (re.opt ~))))"),
    (b'r', "(define-fun gg ((y String)) RegLan ~)"),
    (b'r', "(assert (let ((r ~)) (str.in_re s r)))"),
    (b'b', "(assert ~)"),
    (b'b', "(assert (or (= s t) ~ (and ~ true)))"),
    (b'b', "(assert (forall ((s String)) (=> ~ (= t s))))"),
    (b'b', "(assert (= \"%\" (ite ~ s t)))"),
    (b'i', "(assert (= ~ @))"),
    (b'i', "(assert (distinct x ~ (str.len s)))"),
    (b'i', "(assert (exists ((y Int)) (= y ~)))"),
    (b's', "(assert (= ~ \"%\"))"),
    (b's', "(assert (str.contains (str.++ s ~) t))"),
    (b's', "(assert (let ((y ~) (z t)) (= y z)))"),
];
/// Old function names become the modern ones, with the same arguments, wherever they occur; all the rest stays.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_names() {
    let (k, ctx) = CTXS[vrf::choose(CTXS.len() as u64, "ctx") as usize];
    let mut idx: Vec<usize> = vec![];
    for i in 0..SUBS.len() {
        if SUBS[i].0 == k {
            idx.push(i);
        }
    }
    let i = idx[vrf::choose(idx.len() as u64, "sub") as usize];
    let d = b'0' + vrf::below(10, "d") as u8;
    let l = b'a' + vrf::below(26, "l") as u8;
    let (_, old, new) = SUBS[i];
    let body = |t: &str| fill(ctx, d, l, &fill(t, d, l, b""));
    let mut text = DECLS.as_bytes().to_vec();
    text.extend_from_slice(&body(old));
    text.extend_from_slice(b"\n(check-sat)\n");
    let mut want = b"(set-logic QF_S)\n".to_vec();
    want.extend_from_slice(DECLS.as_bytes());
    want.extend_from_slice(&body(new));
    want.extend_from_slice(b"\n(check-sat)\n");
    vrf::note(unsafe { std::str::from_utf8_unchecked(&text) });
    match modernize(&text) {
        Some(got) => {
            vrf::cover("converted");
            vrf::check8(same(got.as_bytes(), &want), "old functions become modern ones and everything else is kept");
            match modernize(got.as_bytes()) {
                Some(again) => vrf::check8(same(again.as_bytes(), &want), "modernizing a modern script changes nothing"),
                None => vrf::fail("the output parses"),
            }
        }
        None => vrf::fail("an input script parses"),
    }
}

/// Commands the conversion has no business with.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_same() {
    const CMDS: [&str; 20] = [
        "(declare-sort S@ 0)",
        "(define-sort D@ () String)",
        "(declare-fun g% (Int String) Bool)",
        "(define-fun h% ((a Int) (b String)) Int a)",
        "(declare-const c% (_ BitVec @1))",
        "(push @)",
        "(pop @)",
        "(check-sat-assuming (p%))",
        "(get-value (s%))",
        "(get-model)",
        "(set-info :status sat)",
        "(set-option :random-seed @)",
        "(echo \"a% @\")",
        "(assert (= #b1@ #x%f))",
        "(assert (exists ((a Int) (b Int)) (= a @)))",
        "(assert (= \"\" \"%\"\"@\"))",
        "(assert (= ((_ re.loop @ 3) re.all) re.allchar))",
        "(assert (= (str.replace s% \"@\" t) (str.from_int @)))",
        "(get-assertions)",
        "(exit)",
    ];
    let i = vrf::choose(CMDS.len() as u64, "i") as usize;
    let mut d = b'1' + vrf::below(9, "d") as u8;
    let l = b'a' + vrf::below(6, "l") as u8;
    if i == 13 {
        d = b'0' + (d & 1);
    }
    let mut want = b"(set-logic ALL)\n".to_vec();
    want.extend_from_slice(&fill(CMDS[i], d, l, b""));
    want.extend_from_slice(b"\n");
    vrf::note(unsafe { std::str::from_utf8_unchecked(&want) });
    match modernize(&want) {
        Some(got) => {
            vrf::cover("converted");
            vrf::check8(same(got.as_bytes(), &want), "commands without old notation are kept");
        }
        None => vrf::fail("an input script parses"),
    }
}

/// Where the logic is set, and which one is guessed.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_logic() {
    // (text, text afterwards, uses arithmetic)
    const CMDS: [(&str, &str, bool); 14] = [
        ("(set-option :o@ true)", "(set-option :o@ true)", false),
        ("(set-info :source x%)", "(set-info :source x%)", false),
        ("(set-logic QF_@)", "(set-logic QF_@)", false),
        ("(declare-const s% String)", "(declare-const s% String)", false),
        ("(assert (= (str.len s%) @))", "(assert (= (str.len s%) @))", false),
        ("(assert (> x% @))", "(assert (> x% @))", true),
        ("(assert (str.in.re s% (re.loop r @ 9)))", "(assert (str.in_re s% ((_ re.loop @ 9) r)))", false),
        ("(assert (or p% (= x (+ (str.to.int s%) @))))", "(assert (or p% (= x (+ (str.to_int s%) @))))", true),
        ("(define-fun f% ((a Int)) Bool (<= a @))", "(define-fun f% ((a Int)) Bool (<= a @))", true),
        ("(assert (let ((y (- @))) (= x% y)))", "(assert (let ((y (- @))) (= x% y)))", true),
        ("(assert (forall ((a Int)) (= a (* a @))))", "(assert (forall ((a Int)) (= a (* a @))))", true),
        ("(assert (ite (>= x y) p% q))", "(assert (ite (>= x y) p% q))", true),
        ("(assert (= s% \"(+ @ 2)\"))", "(assert (= s% \"(+ @ 2)\"))", false),
        ("(check-sat)", "(check-sat)", false),
    ];
    let n = vrf::choose(if vrf::deep() { 4 } else { 3 }, "n") as usize + 1;
    let d = b'1' + vrf::below(3, "d") as u8;
    let l = b'a' + vrf::below(2, "l") as u8;
    let (mut text, mut rest, mut opts) = (vec![], vec![], vec![]);
    let (mut leading, mut arith, mut set) = (true, false, false);
    for i in 0..n {
        // the last of several commands is one of a few
        let m = if i == 2 { vrf::choose(6, "c2") as usize } else { vrf::choose(14, ["c0", "c1", "c2", "c3"][i]) as usize };
        let (a, b, ar) = CMDS[m];
        text.extend_from_slice(&fill(a, d, l, b""));
        text.push(b'\n');
        leading &= m == 0;
        arith |= ar;
        set |= m == 2;
        let o = if leading { &mut opts } else { &mut rest };
        o.extend_from_slice(&fill(b, d, l, b""));
        o.push(b'\n');
    }
    let mut want = opts;
    if !set {
        want.extend_from_slice(if arith { b"(set-logic QF_SLIA)\n" } else { b"(set-logic QF_S)\n" });
    }
    want.extend_from_slice(&rest);
    vrf::note(unsafe { std::str::from_utf8_unchecked(&text) });
    match modernize(&text) {
        Some(got) => {
            vrf::cover(if set { "set" } else if arith { "arithmetic" } else { "strings" });
            vrf::check8(same(got.as_bytes(), &want), "a missing logic is set after the options and fits the script");
        }
        None => vrf::fail("an input script parses"),
    }
}
