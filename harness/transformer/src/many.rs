//! Scripts with many names and many literals: most of them are given, some are symbolic.
use crate::map::{same, transform};
use crate::vrf;
use amzn_smt_string_transformer::{subformula_parser, transpiler};

const MANY: usize = 13;

/// names of a letter and a number; the first and the last one are symbolic
fn names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for k in 0..MANY {
        v.push(format!("k{}", k).into_bytes());
    }
    for k in [0, MANY - 1] {
        let d = vrf::byte(if k == 0 { "first" } else { "last" });
        vrf::assume8((d >= b'0') as u8 & (d <= b'9') as u8);
        v[k] = vec![b'a', b'1', d];
    }
    vrf::assume8((v[0][2] != v[MANY - 1][2]) as u8);
    v
}
fn put(o: &mut Vec<u8>, parts: &[&[u8]]) {
    for p in parts {
        o.extend_from_slice(p);
    }
}
fn script(n: &[Vec<u8>], bound: &[Vec<u8>]) -> Vec<u8> {
    let mut o = Vec::with_capacity(1024);
    for x in n {
        put(&mut o, &[b"(declare-const ", x, b" Bool)\n"]);
    }
    put(&mut o, &[b"(assert (or"]);
    for x in n {
        put(&mut o, &[b" ", x]);
    }
    put(&mut o, &[b"))\n(assert (forall ("]);
    for (k, x) in bound.iter().enumerate() {
        put(
            &mut o,
            &[if k > 0 { b" " } else { b"" }, b"(", x, b" Bool)"],
        );
    }
    put(&mut o, &[b") (=> ", &n[0], b" (and"]);
    for x in bound {
        put(&mut o, &[b" ", x]);
    }
    put(&mut o, &[b")))\n)"]);
    o.pop();
    o.pop();
    put(
        &mut o,
        &[b")\n(assert (not ", &n[n.len() - 1], b"))\n(check-sat)\n"],
    );
    o
}
fn numbered(c: char, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|k| format!("{}{}", c, k).into_bytes()).collect()
}
/// thirteen constants and as many bound variables
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_names() {
    let n = names();
    let input = script(&n, &numbered('q', MANY));
    vrf::note(unsafe { std::str::from_utf8_unchecked(&input) });
    let d = match transform(&input, vrf::choose(2, "c2c") == 1) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    vrf::note(unsafe { std::str::from_utf8_unchecked(&d.text) });
    let new = numbered('a', MANY);
    vrf::check8(
        same(&d.text, &script(&new, &numbered('b', MANY))),
        "everything but names and literals is kept",
    );
    let back = d.mapping.get_un_alpha_map();
    for k in 0..MANY {
        match back.get(std::str::from_utf8(&new[k]).unwrap()) {
            Some(x) => vrf::check8(
                same(x.as_bytes(), &n[k]),
                "the mapping tells the original names",
            ),
            None => vrf::fail("the mapping tells the original names"),
        }
    }
    vrf::cover("transformed");
}
/// a subformula with thirteen variables
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_vars() {
    let n = names();
    let mut o = Vec::with_capacity(1024);
    for x in &n {
        put(&mut o, &[b"(declare-const ", x, b" Bool)\n"]);
    }
    let or = |n: &[Vec<u8>]| {
        let mut o = b"(or".to_vec();
        for x in n {
            put(&mut o, &[b" ", x]);
        }
        o.push(b')');
        o
    };
    put(
        &mut o,
        &[b"(assert (=> ", &n[MANY - 1], b" ", &or(&n), b"))\n"],
    );
    vrf::note(unsafe { std::str::from_utf8_unchecked(&o) });
    let cmds = match transpiler::parse(&o[..]) {
        Ok(c) => c,
        Err(_) => return vrf::fail("the input parses"),
    };
    let terms = subformula_parser::find_string_subforumlas(false, cmds);
    let list = subformula_parser::SubFormulaJson::new(&terms).sub_formula_list;
    let v = numbered('v', MANY);
    let mut first = v[..].to_vec();
    // the last one comes first in the implication
    let mut w = vec![];
    put(&mut w, &[b"(=> v0 "]);
    first.rotate_left(1);
    first[MANY - 1] = b"v0".to_vec();
    put(&mut w, &[&or(&first), b")"]);
    let want = [or(&v), w];
    vrf::check(list.len() == 2, "every application is listed");
    if list.len() == 2 {
        for k in 0..2 {
            vrf::check8(
                same(list[k].as_bytes(), &want[k]),
                "variables are numbered in order",
            );
        }
    }
    vrf::cover("listed");
}
fn literals(n: usize, len: usize) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        // different ones, many of which are short
        let mut s = vec![b'!' + 2 + (k % 40) as u8];
        if k >= 40 {
            s.push(b'a' + (k / 40) as u8);
        }
        l.push(s);
    }
    for k in [n - 1, n / 2] {
        if n > 100 && k < n - 1 {
            continue;
        }
        let mut s = vec![];
        for _ in 0..len {
            let c = vrf::byte("char");
            vrf::assume8(
                (c >= 32) as u8 & (c < 127) as u8 & (c != b'"') as u8 & (c != b'\\') as u8,
            );
            // (the more literals, the fewer characters: every one is compared with all of them)
            if n > 100 {
                vrf::assume8((c >= b'J') as u8 & (c <= b'K') as u8);
            }
            s.push(c);
        }
        l[k] = s;
    }
    l
}
fn compared(l: &[Vec<u8>]) -> Vec<u8> {
    let mut o = Vec::with_capacity(8192);
    put(&mut o, &[b"(declare-const x String)\n"]);
    for s in l {
        put(&mut o, &[b"(assert (not (= x \"", s, b"\")))\n"]);
    }
    o
}
fn images(t: &[u8]) -> Vec<Vec<u8>> {
    let (mut o, mut at) = (vec![], None);
    for p in 0..t.len() {
        if t[p] == b'"' {
            at = match at {
                None => Some(p + 1),
                Some(s) => {
                    o.push(t[s..p].to_vec());
                    None
                }
            };
        }
    }
    o
}
/// many literals, two of which are symbolic
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lits() {
    let (n, len) = [(16, 1), (112, 1)][vrf::choose(2, "how many") as usize];
    let l = literals(n, len);
    let input = compared(&l);
    let d = match transform(&input, false) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    vrf::note(unsafe { std::str::from_utf8_unchecked(&d.text) });
    let im = images(&d.text);
    vrf::check(im.len() == n, "every literal is there");
    if im.len() != n {
        return;
    }
    for k in 0..n {
        for j in 0..k {
            vrf::check8(
                same(&l[k], &l[j]) ^ same(&im[k], &im[j]) ^ 1,
                "equal literals stay equal and different ones different",
            );
        }
    }
    vrf::cover("transformed");
}
/// all printable characters, character by character
#[no_mangle]
#[inline(never)]
pub extern "C" fn c_all() {
    let mut l: Vec<Vec<u8>> = vec![vec![]];
    for c in 32..127u8 {
        if c != b'"' && c != b'\\' {
            let k = l.len() - 1;
            l[k].push(c);
            if l[k].len() == 12 {
                l.push(vec![]);
            }
        }
    }
    let at = vrf::choose(2, "where") as usize * (l.len() - 1);
    let c = vrf::byte("char");
    vrf::assume8((c >= 32) as u8 & (c < 127) as u8 & (c != b'"') as u8 & (c != b'\\') as u8);
    l[at].insert(3, c);
    let input = compared(&l);
    vrf::note(unsafe { std::str::from_utf8_unchecked(&input) });
    let d = match transform(&input, true) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    vrf::note(unsafe { std::str::from_utf8_unchecked(&d.text) });
    let im = images(&d.text);
    vrf::check(im.len() == l.len(), "every literal is there");
    // (there are not enough printable characters, so some images are others)
    let a: Vec<u8> = l.concat();
    let b: Vec<char> = match String::from_utf8(im.concat()) {
        Ok(b) => b.chars().collect(),
        Err(_) => return vrf::fail("the result is text"),
    };
    vrf::check(a.len() == b.len(), "every literal keeps its length");
    if a.len() != b.len() {
        return;
    }
    for k in 0..a.len() {
        for j in 0..k {
            vrf::check8(
                ((a[k] == a[j]) as u8) ^ ((b[k] == b[j]) as u8) ^ 1,
                "characters are replaced one to one",
            );
        }
    }
    vrf::cover("transformed");
}
