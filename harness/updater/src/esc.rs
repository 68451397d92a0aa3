//! Escape sequences in string literals.
use crate::vrf;
use amzn_smt_string_fct_updater::transpiler::modernize_string_fcts;
use aws_smt_ir::logic::all::ALL;
use aws_smt_ir::{Command, Constant, CoreOp, IConst, Term};

/// constants are not shared: their contents are symbolic, and nothing compares them by address
#[no_mangle]
#[inline(never)]
pub fn vrfx_iconst(c: Constant) -> IConst {
    if vrf::native() {
        IConst::new(c)
    } else {
        unsafe { std::mem::transmute::<&'static Constant, IConst>(Box::leak(Box::new(c))) }
    }
}

fn hex(c: u8) -> bool {
    matches!(c, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F')
}
/// what the documentation of the conversion says, as a function on the text
fn reference(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(8 * s.len());
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c != b'\\' || i + 1 == s.len() {
            o.push(c);
            i += 1;
            continue;
        }
        let n = s[i + 1];
        let code: Option<&[u8]> = match n {
            b'a' => Some(b"07"),
            b'b' => Some(b"08"),
            b'f' => Some(b"0C"),
            b'n' => Some(b"0A"),
            b'r' => Some(b"0D"),
            b't' => Some(b"09"),
            b'v' => Some(b"0B"),
            _ => None,
        };
        if let Some(h) = code {
            o.extend_from_slice(b"\\u{");
            o.extend_from_slice(h);
            o.push(b'}');
            i += 2;
        } else if n == b'x' && i + 3 < s.len() && hex(s[i + 2]) && hex(s[i + 3]) {
            o.extend_from_slice(b"\\u{");
            o.push(s[i + 2]);
            o.push(s[i + 3]);
            o.push(b'}');
            i += 4;
        } else {
            // not an escape sequence: unchanged
            o.push(c);
            o.push(n);
            i += 2;
        }
    }
    o
}
fn modernize(text: String) -> Option<String> {
    let lit = Term::Constant(Constant::String(text).into());
    let cmd = Command::Assert { term: CoreOp::Eq([Term::<ALL>::from(true), lit].into()).into() };
    let out = modernize_string_fcts(std::iter::once(cmd));
    match out.into_iter().last() {
        Some(Command::Assert { term: Term::CoreOp(op) }) => match op.as_ref() {
            CoreOp::Eq(args) => match &args[1] {
                Term::Constant(c) => match c.as_ref() {
                    Constant::String(s) => Some(s.clone()),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
fn same(a: &[u8], b: &[u8]) -> u8 {
    if a.len() != b.len() {
        return 0;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    (d == 0) as u8
}
/// Every string of up to six (eight) characters, possibly after a fixed prefix.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_esc() {
    let deep = vrf::deep();
    let n = vrf::choose(if deep { 9 } else { 7 }, "len") as usize;
    let mut t: Vec<u8> = vec![];
    // characters beyond ASCII take several bytes
    let pre: &str = ["", "\u{e9}\\", "\\x4\u{20ac}", "\\x"][vrf::choose(if n < 4 { 4 } else { 1 }, "pre") as usize];
    t.extend_from_slice(pre.as_bytes());
    for i in 0..n {
        let b = vrf::bits(7, ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"][i]) as u8;
        vrf::assume(b >= 32);
        t.push(b);
    }
    let want = reference(&t);
    let text = unsafe { String::from_utf8_unchecked(t) };
    vrf::note(&text);
    match modernize(text) {
        Some(got) => {
            vrf::cover("converted");
            vrf::check8(same(got.as_bytes(), &want), "escape sequences are converted and everything else is kept");
            match modernize(got) {
                Some(again) => vrf::check8(same(again.as_bytes(), &want), "converting escape sequences again changes nothing"),
                None => vrf::fail("a string literal stays a string literal"),
            }
        }
        None => vrf::fail("a string literal stays a string literal"),
    }
}
