//! From a model of the transformed script back to the original one, through the files.
use crate::map::{same, transform};
use crate::vrf;
use amzn_smt_string_transformer::reconstruct_tools::{
    reconstruct_and_add_assertions, ReconstructErr, ReconstructResult,
};

fn ch(n: &str) -> u8 {
    let c = vrf::byte(n);
    vrf::assume8((c >= 32) as u8 & (c < 127) as u8 & (c != b'"') as u8);
    c
}
fn put(parts: &[&[u8]]) -> Vec<u8> {
    let mut o = Vec::with_capacity(256);
    for p in parts {
        o.extend_from_slice(p);
    }
    o
}
/// the original script, its end is given
fn script(l: &[u8], m: &[u8], end: &str) -> Vec<u8> {
    put(&[b"(declare-const xx String)\n(declare-const ii Int)\n(declare-fun yy () String)\n(assert (= xx \"", l, b"\"))\n(assert (not (= yy \"", m, b"\")))\n", end.as_bytes()])
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_recon() {
    let shape = vrf::choose(4, "lens") as usize;
    let (a, b) = [(1, 1), (2, 0), (0, 1), (2, 1)][shape];
    if shape == 3 && !vrf::deep() {
        return;
    }
    let mut l = vec![];
    let mut m = vec![];
    for k in 0..a {
        l.push(ch(["l0", "l1"][k]));
    }
    for k in 0..b {
        m.push(ch(["m0", "m1"][k]));
    }
    let end = [
        "(check-sat)\n",
        "(check-sat)\n(get-model)\n",
        "(push 1)\n(check-sat)\n(pop 1)\n(check-sat)\n",
    ][vrf::choose(3, "end") as usize];
    let input = script(&l, &m, end);
    vrf::note(unsafe { std::str::from_utf8_unchecked(&input) });
    let d = match transform(&input, true) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    vrf::file("q.smt2", &input);
    if d.mapping.print_json_to_file("q_mapping.json").is_err() {
        return vrf::fail("the mapping is written");
    }
    // a model that gives the image of the first literal to one variable, and one more character to the other
    let (q, ox) = match find(&d.text, b"(= a0 \"") {
        Some(p) => (&d.text, p),
        None => return vrf::fail("the literal is there"),
    };
    let mut e = ox;
    while q[e] != b'"' {
        e += 1;
    }
    let img = q[ox..e].to_vec();
    let other = ch("v");
    vrf::assume8((other != b'\\') as u8);
    let model = put(&[
        b"sat\n(\n(define-fun a0 () String \"",
        &img,
        b"\")\n(define-fun a1 () Int 3)\n(define-fun a2 () String \"",
        &img,
        &[other],
        b"\")\n)\n",
    ]);
    vrf::file("q_transformed.out", &model);
    vrf::note(unsafe { std::str::from_utf8_unchecked(&model) });
    match reconstruct_and_add_assertions("q".to_string(), "smt2".to_string()) {
        Ok(ReconstructResult::SatModelBuilt) => {}
        _ => return vrf::fail("a model is taken back to the original script"),
    }
    let got = match std::fs::read("q_recon_check.smt2") {
        Ok(g) => g,
        Err(_) => return vrf::fail("the reconstructed script is written"),
    };
    vrf::note(unsafe { std::str::from_utf8_unchecked(&got) });
    vrf::cover("reconstructed");
    // the second variable: the image goes back to the literal, the other character to what is mapped to it (or stays)
    let mut back = other;
    let re = d.mapping.get_re_map();
    if let Some(c) = re.get(&(other as char)) {
        back = *c as u8;
        vrf::cover("a mapped character");
    }
    let eqs = put(&[
        b"(assert (= xx \"",
        &l,
        b"\"))\n(assert (= yy \"",
        &l,
        &[back],
        b"\"))\n(check-sat)\n",
    ]);
    let mut want = script(&l, &m, "");
    let mut p = 0;
    let eb = end.as_bytes();
    while p < eb.len() {
        if eb[p..].starts_with(b"(check-sat)\n") {
            want.extend_from_slice(&eqs);
            p += 12;
        } else {
            want.push(eb[p]);
            p += 1;
        }
    }
    want.pop();
    vrf::check8(
        same(&got, &want),
        "the original script with the values asserted before it is checked",
    );
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    let mut p = 0;
    while p + n.len() <= h.len() {
        if same(&h[p..p + n.len()], n) == 1 {
            return Some(p + n.len());
        }
        p += 1;
    }
    None
}
/// outcomes other than a model
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_outcome() {
    let l = [ch("l0")];
    let m = [ch("m0")];
    let sat = vrf::choose(2, "check-sat") == 1;
    let input = script(&l, &m, if sat { "(check-sat)\n" } else { "" });
    let d = match transform(&input, true) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    vrf::file("q.smt2", &input);
    let k = vrf::choose(8, "outcome");
    let _ = d.mapping.print_json_to_file("q_mapping.json");
    let out: &[u8] = match k {
        0 => b"unsat\n",
        1 => b"timeout\n",
        2 => b"unknown\n",
        3 => b"sat\n",
        4 => b"unsat\n(error \"model is not available\")\n",
        5 => b"sat\n(\n)\n",
        _ => b"segfault\n",
    };
    if k != 7 {
        vrf::file("q_transformed.out", out);
    }
    let r = reconstruct_and_add_assertions("q".to_string(), "smt2".to_string());
    vrf::cover("outcome");
    let ok = match k {
        0 | 4 => r == Ok(ReconstructResult::Unsat),
        1 => r == Ok(ReconstructResult::Timeout),
        2 => r == Ok(ReconstructResult::Unknown),
        3 => r == Ok(ReconstructResult::SatNoModel),
        5 if sat => r == Ok(ReconstructResult::SatModelBuilt),
        5 => r == Err(ReconstructErr::CheckSatNotFound),
        6 => r == Err(ReconstructErr::UnexpectedTransformedModelParse),
        _ => r == Err(ReconstructErr::TransformOutputFileReadError),
    };
    vrf::check(ok, "the outcome is reported as it is");
    vrf::check(
        std::fs::read("q_recon_check.smt2").is_ok() == (k == 5 && sat),
        "a script is written for models only",
    );
}
