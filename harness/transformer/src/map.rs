//! Transformation of the string literals of whole scripts.
use crate::vrf;
use amzn_smt_string_transformer::{mapping_tools::Mapping, subformula_parser, transpiler};

/// one script: `~k` stands for the k-th literal (without quotes), the variables x y z i b are declared first and become a0...
pub struct Script {
    pub text: &'static str,
    /// properties of the literals that have to survive: l length, s substring relations, d digits stay digits, i digits stay, r ranges,
    /// p positions of occurrences, c whether the first two make up the third; R: the script must be refused
    pub keep: &'static str,
    /// lengths of the literals (quick tier, thorough tier)
    pub lens: &'static [&'static [usize]],
    /// what the constraints say about the literals, to be the same before and after
    pub truth: Option<fn(&[Vec<u8>]) -> u8>,
}
const NAMES: [&str; 5] = ["x", "y", "z", "i", "b"];
const DECLS: &str = "(declare-const x String)\n(declare-const y String)\n(declare-fun z () String)\n(declare-const i Int)\n(declare-const b Bool)\n";

fn is_sym(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"._+-*<>=!".contains(&c)
}
/// fills in the literals and renames the variables if `renamed`
fn fill(t: &str, lits: &[Vec<u8>], renamed: bool) -> Vec<u8> {
    let b = t.as_bytes();
    let (mut o, mut i) = (Vec::with_capacity(256), 0);
    let mut quoted = false;
    while i < b.len() {
        if b[i] == b'"' {
            quoted = !quoted;
        }
        if b[i] == b'~' {
            o.extend_from_slice(&lits[(b[i + 1] - b'0') as usize]);
            i += 2;
        } else if !quoted && is_sym(b[i]) {
            let mut e = i;
            while e < b.len() && is_sym(b[e]) {
                e += 1;
            }
            let w = &t[i..e];
            match NAMES.iter().position(|n| renamed && *n == w) {
                Some(k) => {
                    o.push(b'a');
                    o.push(b'0' + k as u8)
                }
                None => o.extend_from_slice(w.as_bytes()),
            }
            i = e;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub struct Done {
    pub text: Vec<u8>,
    pub mapping: Mapping,
}
/// what `convert` writes
pub fn transform(text: &[u8], c2c: bool) -> Option<Done> {
    let cmds = match transpiler::parse(text) {
        Ok(c) => c,
        Err(_) => return None,
    };
    let (out, mapping) = transpiler::transform_ast(cmds, false, c2c);
    let out = subformula_parser::reconstruct_orig_query_shape(out);
    let mut s = String::new();
    for c in &out {
        s.push_str(&c.to_string());
        s.push('\n');
    }
    Some(Done {
        text: s.into_bytes(),
        mapping,
    })
}
pub fn same(a: &[u8], b: &[u8]) -> u8 {
    if a.len() != b.len() {
        return 0;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    (d == 0) as u8
}
fn at(h: &[u8], n: &[u8], p: usize) -> u8 {
    if p + n.len() > h.len() {
        return 0;
    }
    same(&h[p..p + n.len()], n)
}
fn contains(h: &[u8], n: &[u8]) -> u8 {
    let mut r = 0;
    let mut p = 0;
    while p + n.len() <= h.len() {
        r |= at(h, n, p);
        p += 1;
    }
    r
}
fn suffix(h: &[u8], n: &[u8]) -> u8 {
    if n.len() > h.len() {
        return 0;
    }
    at(h, n, h.len() - n.len())
}
fn digit(c: u8) -> u8 {
    (c >= b'0') as u8 & (c <= b'9') as u8
}
fn name(l: usize, p: usize) -> String {
    let b = [b'c', b'0' + l as u8, b'_', b'0' + p as u8];
    String::from_utf8(b.to_vec()).unwrap()
}
/// any printable character except the quote and the escape character
fn ch(n: &str) -> u8 {
    let c = vrf::byte(n);
    vrf::assume8((c >= 32) as u8 & (c < 127) as u8 & (c != b'"') as u8 & (c != b'\\') as u8);
    c
}
/// the images of the literals, read off the output by walking along the template
fn images(t: &str, n: usize, out: &[u8]) -> Option<Vec<Vec<u8>>> {
    let b = t.as_bytes();
    let mut im: Vec<Option<Vec<u8>>> = vec![None; n];
    let (mut i, mut o) = (0, 0);
    while i < b.len() {
        if b[i] == b'~' {
            let k = (b[i + 1] - b'0') as usize;
            let s = o;
            // the image ends at the next quote: quotes never occur inside
            while o < out.len() && out[o] != b'"' {
                o += 1;
            }
            if s > o {
                return None;
            }
            if im[k].is_none() {
                im[k] = Some(out[s..o].to_vec());
            }
            i += 2;
        } else {
            if o < out.len() && out[o] != b[i] {
                return None;
            }
            i += 1;
            o += 1;
        }
    }
    let mut r = vec![];
    for x in im {
        r.push(x?);
    }
    Some(r)
}
fn run(s: &Script, lits: &[Vec<u8>], c2c: bool) {
    let mut input = DECLS.as_bytes().to_vec();
    input.extend_from_slice(&fill(s.text, lits, false));
    vrf::note(unsafe { std::str::from_utf8_unchecked(&input) });
    let d = match transform(&input, c2c) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    let refused = !d.mapping.failed_transformed_constraint_vars.is_empty();
    if s.keep.contains('R') {
        vrf::cover("refused");
        vrf::check(
            refused,
            "literals whose character codes matter are not changed",
        );
        return;
    }
    if refused {
        return vrf::fail("a supported script is transformed");
    }
    vrf::note(unsafe { std::str::from_utf8_unchecked(&d.text) });
    // the template after renaming, with the placeholders still in place
    let holes: Vec<Vec<u8>> = (0..lits.len())
        .map(|k| vec![b'~', b'0' + k as u8])
        .collect();
    let mut t = DECLS.to_string();
    t.push_str(s.text);
    let renamed = String::from_utf8(fill(&t, &holes, true)).unwrap();
    let im = match images(&renamed, lits.len(), &d.text) {
        Some(x) => x,
        None => return vrf::fail("everything but names and literals is kept"),
    };
    vrf::check8(
        same(&d.text, &fill(&renamed, &im, false)),
        "everything but names and literals is kept",
    );
    let mut all = vec![];
    let mut img = vec![];
    for k in 0..lits.len() {
        all.extend_from_slice(&lits[k]);
        img.extend_from_slice(&im[k]);
        let mut bad = 0;
        for &c in &im[k] {
            bad |= (c < 32) as u8 | (c > 126) as u8 | (c == b'"') as u8 | (c == b'\\') as u8;
        }
        vrf::check8(bad ^ 1, "only plain characters are produced");
        vrf::check(
            lits[k].is_empty() == im[k].is_empty(),
            "only the empty literal becomes empty",
        );
    }
    // equality is always kept
    for k in 0..lits.len() {
        for j in 0..k {
            vrf::check8(
                same(&lits[k], &lits[j]) ^ same(&im[k], &im[j]) ^ 1,
                "equal literals stay equal and different ones different",
            );
        }
    }
    if c2c {
        vrf::check(
            all.len() == img.len(),
            "every character is replaced by one character",
        );
        if all.len() == img.len() {
            let mut bad = 0;
            for p in 0..all.len() {
                for q in 0..p {
                    bad |= (all[p] == all[q]) as u8 ^ (img[p] == img[q]) as u8;
                }
            }
            vrf::check8(bad ^ 1, "characters are replaced one to one");
            // the reverse map undoes it
            let back = d.mapping.get_re_map();
            let mut bad = 0;
            for p in 0..all.len() {
                match back.get(&(img[p] as char)) {
                    Some(c) => bad |= (*c as u32 != all[p] as u32) as u8,
                    None => bad = 1,
                }
            }
            if !s.keep.contains('r') {
                vrf::check8(bad ^ 1, "the reverse map recovers every character");
            }
        }
    }
    if s.keep.contains('l') || c2c {
        for k in 0..lits.len() {
            vrf::check(im[k].len() == lits[k].len(), "length is kept");
        }
    }
    if s.keep.contains('s') || c2c {
        for k in 0..lits.len() {
            for j in 0..lits.len() {
                if j != k {
                    vrf::check8(
                        contains(&lits[k], &lits[j]) ^ contains(&im[k], &im[j]) ^ 1,
                        "containment is kept",
                    );
                    vrf::check8(
                        at(&lits[k], &lits[j], 0) ^ at(&im[k], &im[j], 0) ^ 1,
                        "prefixes are kept",
                    );
                    vrf::check8(
                        suffix(&lits[k], &lits[j]) ^ suffix(&im[k], &im[j]) ^ 1,
                        "suffixes are kept",
                    );
                }
            }
        }
    }
    if s.keep.contains('p') {
        for k in 0..lits.len() {
            for j in 0..lits.len() {
                if j != k && im[k].len() == lits[k].len() && im[j].len() == lits[j].len() {
                    let (mut bad, mut q) = (0, 0);
                    while q + lits[j].len() <= lits[k].len() {
                        bad |= at(&lits[k], &lits[j], q) ^ at(&im[k], &im[j], q);
                        q += 1;
                    }
                    vrf::check8(bad ^ 1, "occurrences stay where they are");
                }
            }
        }
    }
    if s.keep.contains('c') {
        let mut a = lits[0].clone();
        a.extend_from_slice(&lits[1]);
        let mut m = im[0].clone();
        m.extend_from_slice(&im[1]);
        vrf::check8(
            same(&a, &lits[2]) ^ same(&m, &im[2]) ^ 1,
            "concatenations stay equal or different",
        );
    }
    if s.keep.contains('i') || s.keep.contains('d') {
        let exact = s.keep.contains('i');
        for k in 0..lits.len() {
            // the digits of both, in order
            let (mut nl, mut ni, mut all_l, mut all_i) = (0u8, 0u8, 1u8, 1u8);
            for &c in &lits[k] {
                nl += digit(c);
                all_l &= digit(c);
            }
            for &c in &im[k] {
                ni += digit(c);
                all_i &= digit(c);
            }
            if exact {
                // a number keeps its value, anything else stays no number
                vrf::check8(
                    all_l ^ all_i ^ 1,
                    "numbers stay numbers and nothing else becomes one",
                );
                vrf::check8(
                    (all_l ^ 1) | same(&lits[k], &im[k]),
                    "numbers keep their value",
                );
            } else if lits[k].len() == 1 {
                vrf::check8(
                    (all_l & (im[k].len() == 1) as u8) ^ (all_i & (im[k].len() == 1) as u8) ^ 1,
                    "digits stay digits and nothing else becomes one",
                );
            }
            let _ = (nl, ni);
        }
    }
    for r in 0..if s.keep.contains('q') {
        2
    } else {
        s.keep.contains('r') as usize
    } {
        // literals 0 and 1 (2 and 3) are the ends of a range; the characters of literals that are as long stay inside or outside
        let (a, b) = (2 * r, 2 * r + 1);
        if lits[a].len() == 1 && lits[b].len() == 1 && im[a].len() == 1 && im[b].len() == 1 {
            for k in 0..lits.len() {
                if im[k].len() != lits[k].len() {
                    continue;
                }
                let mut bad = 0;
                for p in 0..lits[k].len() {
                    let (c, m) = (lits[k][p], im[k][p]);
                    let was = (lits[a][0] <= c) as u8 & (c <= lits[b][0]) as u8;
                    let is = (im[a][0] <= m) as u8 & (m <= im[b][0]) as u8;
                    bad |= was ^ is;
                }
                vrf::check8(bad ^ 1, "characters stay inside or outside of a range");
            }
        } else {
            vrf::fail("the ends of a range stay characters");
        }
    }
    if let Some(f) = s.truth {
        vrf::check(
            f(lits) == f(&im),
            "the constraints say the same about the literals",
        );
    }
    vrf::cover("transformed");
}
fn go(fam: &[Script], c2c: bool) {
    let s = &fam[vrf::choose(fam.len() as u64, "script") as usize];
    let l = s.lens[vrf::choose(s.lens.len() as u64, "lens") as usize];
    let mut lits = vec![];
    for k in 0..l.len() {
        let mut v = vec![];
        for p in 0..l[k] {
            v.push(ch(&name(k, p)));
        }
        lits.push(v);
    }
    if s.keep.contains('q') {
        let (a, b, c, d) = (lits[0][0], lits[1][0], lits[2][0], lits[3][0]);
        vrf::assume8(
            (a < b) as u8
                & (b.wrapping_sub(a) <= 3) as u8
                & (c < d) as u8
                & (d.wrapping_sub(c) <= 3) as u8,
        );
        vrf::assume8((b < c) as u8 | (d < a) as u8);
    }
    if s.keep.contains('r') {
        let (a, b) = (lits[0][0], lits[1][0]);
        let w = if s.truth.is_some() {
            3
        } else if c2c {
            10
        } else {
            50
        };
        vrf::assume8((a < b) as u8 & (b.wrapping_sub(a) <= w) as u8);
    }
    run(s, &lits, c2c);
}
macro_rules! s {
    ($k:expr, $l:expr, $t:expr) => {
        Script {
            text: $t,
            keep: $k,
            lens: &$l,
            truth: None,
        }
    };
    ($k:expr, $l:expr, $t:expr, $f:expr) => {
        Script {
            text: $t,
            keep: $k,
            lens: &$l,
            truth: Some($f),
        }
    };
}
static EQ: [Script; 6] = [
    s!("", [&[1, 1], &[2, 1], &[2, 2], &[0, 1]], "(assert (= x \"~0\"))\n(assert (not (= x \"~1\")))\n(check-sat)\n"),
    s!("", [&[1, 1, 1], &[2, 1, 2]], "(assert (= x \"~0\"))\n(assert (or (= y \"~1\") (= z \"~2\")))\n(check-sat)\n"),
    s!("", [&[1, 2], &[2, 2]], "(assert (distinct x \"~0\" y))\n(assert (= y \"~1\"))\n(check-sat)\n"),
    s!("", [&[1, 1, 1, 1], &[2, 1, 1, 2]], "(assert (= x \"~0\"))\n(assert (= y \"~1\"))\n(assert (not (= z \"~2\")))\n(assert (=> b (= z \"~3\")))\n(assert (= x y))\n(check-sat)\n"),
    s!("", [&[1, 2], &[2, 0]], "(assert (= x \"~0\"))\n(push 1)\n(assert (not (= x \"~0\")))\n(check-sat)\n(pop 1)\n(assert (= \"~1\" x))\n(check-sat)\n(get-model)\n"),
    s!("", [&[1, 2]], "(assert (= \"~0\" \"~1\"))\n(assert (or b (= \"~0\" \"~1\") (distinct \"~1\" \"~0\")))\n(check-sat)\n"),
];
static LEN: [Script; 8] = [
    s!("l", [&[1, 2], &[2, 2], &[3, 1]], "(assert (= (str.len x) 3))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"),
    s!("l", [&[2], &[3]], "(assert (= (str.len \"~0\") i))\n(check-sat)\n"),
    s!("l", [&[2, 2], &[1, 2]], "(assert (= x \"~0\"))\n(assert (= y \"~1\"))\n(assert (< (str.len x) (str.len y)))\n(check-sat)\n"),
    s!("l", [&[2, 1], &[3, 2]], "(assert (= x \"~0\"))\n(assert (not (= y \"~1\")))\n(assert (= x y))\n(assert (= y z))\n(assert (= (str.len z) 2))\n(check-sat)\n"),
    s!("ls", [&[2, 1], &[2, 2]], "(assert (= (str.len (str.++ \"~0\" \"~1\")) i))\n(check-sat)\n"),
    s!("l", [&[2, 2, 2]], "(assert (= (str.len x) 2))\n(assert (or (= x \"~0\") (= x \"~1\") (= x \"~2\")))\n(assert (distinct x y))\n(check-sat)\n"),
    s!("ls", [&[1, 2], &[2, 2]], "(assert (str.in_re x ((_ re.loop 1 2) (str.to_re \"~0\"))))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("ls", [&[1, 2], &[1, 3]], "(assert (str.in_re x ((_ re.^ 2) (str.to_re \"~0\"))))\n(assert (= x \"~1\"))\n(check-sat)\n"),
];
static SUB: [Script; 7] = [
    s!("s", [&[1, 2], &[2, 3]], "(assert (str.contains x \"~0\"))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 3], &[1, 3]], "(assert (str.prefixof \"~0\" x))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 3], &[2, 2]], "(assert (str.suffixof \"~0\" x))\n(assert (= \"~1\" x))\n(check-sat)\n"),
    s!("s", [&[1, 1, 2], &[1, 2, 3]], "(assert (str.prefixof \"~0\" x))\n(assert (str.suffixof \"~1\" x))\n(assert (= x \"~2\"))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[1, 3]], "(assert (= x y))\n(assert (not (str.contains y \"~0\")))\n(assert (= z \"~1\"))\n(assert (= z x))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 3]], "(assert (str.in_re x (re.++ (str.to_re \"~0\") (re.* re.allchar))))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 1, 2]], "(assert (str.in_re x (re.union (str.to_re \"~0\") (re.+ (str.to_re \"~1\")))))\n(assert (= x \"~2\"))\n(check-sat)\n"),
];
static CAT: [Script; 3] = [
    s!("sc", [&[1, 1, 2], &[1, 2, 3]], "(assert (= (str.++ \"~0\" \"~1\") \"~2\"))\n(check-sat)\n"),
    s!("sc", [&[1, 1, 2]], "(assert (= x \"~2\"))\n(assert (= x (str.++ \"~0\" y)))\n(assert (= y \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 2]], "(assert (= (str.++ x \"~0\") (str.++ \"~1\" y)))\n(check-sat)\n"),
];
static POS: [Script; 6] = [
    s!("lspi", [&[1, 2], &[2, 2]], "(assert (= (str.indexof x \"~0\" 0) i))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("lspi", [&[1, 2], &[1, 3]], "(assert (= (str.at x 1) \"~0\"))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("lspi", [&[1, 2], &[1, 3]], "(assert (= (str.substr x 1 1) \"~0\"))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("lspi", [&[2, 3]], "(assert (= (str.substr x i 2) \"~0\"))\n(assert (= x y))\n(assert (= y \"~1\"))\n(check-sat)\n"),
    s!("lspi", [&[2, 1], &[2, 2]], "(assert (= (str.at \"~0\" 1) \"~1\"))\n(check-sat)\n"),
    s!("lspi", [&[1, 2]], "(assert (= (str.indexof \"~1\" \"~0\" i) 1))\n(check-sat)\n"),
];
static INT: [Script; 4] = [
    s!("i", [&[1, 1], &[2, 2], &[3, 1]], "(assert (= (str.to_int x) i))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"),
    s!("d", [&[1, 1]], "(assert (str.is_digit x))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"),
    s!("i", [&[1, 2], &[2, 2]], "(assert (= (str.from_int i) x))\n(assert (= x \"~0\"))\n(assert (not (= x \"~1\")))\n(check-sat)\n"),
    s!("i", [&[2, 1]], "(assert (= (str.to_int (str.++ \"~0\" x)) i))\n(assert (= x \"~1\"))\n(check-sat)\n"),
];
static RANGE: [Script; 3] = [
    s!("rs", [&[1, 1, 1], &[1, 1, 2]], "(assert (str.in_re x (re.range \"~0\" \"~1\")))\n(assert (= x \"~2\"))\n(check-sat)\n"),
    s!("rs", [&[1, 1, 2]], "(assert (str.in_re x (re.+ (re.range \"~0\" \"~1\"))))\n(assert (= y \"~2\"))\n(assert (= y x))\n(check-sat)\n"),
    s!("rs", [&[1, 1, 1, 1]], "(assert (str.in_re x (re.* (re.range \"~0\" \"~1\"))))\n(assert (or (= x \"~2\") (= x \"~3\")))\n(check-sat)\n"),
];
static MIX: [Script; 10] = [
    s!(
        "",
        [&[1, 1], &[2, 1], &[0, 1]],
        "(assert (= x \"~0\"))\n(assert (not (= x \"~1\")))\n(check-sat)\n"
    ),
    s!(
        "",
        [&[2, 2]],
        "(assert (= x \"~0\"))\n(assert (= y \"~1\"))\n(check-sat)\n"
    ),
    s!(
        "",
        [&[1, 1, 1]],
        "(assert (= x \"~0\"))\n(assert (or (= y \"~1\") (= z \"~2\")))\n(check-sat)\n"
    ),
    s!(
        "l",
        [&[3]],
        "(assert (= (str.len \"~0\") i))\n(check-sat)\n"
    ),
    s!(
        "s",
        [&[1, 2]],
        "(assert (str.contains x \"~0\"))\n(assert (= x \"~1\"))\n(check-sat)\n"
    ),
    s!(
        "c",
        [&[1, 1, 2]],
        "(assert (= (str.++ \"~0\" \"~1\") \"~2\"))\n(check-sat)\n"
    ),
    s!(
        "p",
        [&[1, 2]],
        "(assert (= (str.at x 1) \"~0\"))\n(assert (= x \"~1\"))\n(check-sat)\n"
    ),
    s!(
        "i",
        [&[1, 1], &[2, 1]],
        "(assert (= (str.to_int x) i))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"
    ),
    s!(
        "d",
        [&[1, 1]],
        "(assert (str.is_digit x))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"
    ),
    s!(
        "s",
        [&[1, 2]],
        "(assert (= (str.replace x \"~0\" \"~1\") y))\n(check-sat)\n"
    ),
];
static CRANGE: [Script; 2] = [
    s!("r", [&[1, 1, 1]], "(assert (str.in_re x (re.range \"~0\" \"~1\")))\n(assert (= x \"~2\"))\n(check-sat)\n"),
    s!("r", [&[1, 1, 1]], "(assert (str.in_re x (re.+ (re.range \"~0\" \"~1\"))))\n(assert (= y \"~2\"))\n(assert (= y x))\n(check-sat)\n"),
];
static REFUSED: [Script; 6] = [
    s!("R", [&[1, 1], &[2, 1]], "(assert (str.< x \"~0\"))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("R", [&[1, 1]], "(assert (str.<= \"~0\" \"~1\"))\n(check-sat)\n"),
    s!("R", [&[1, 2]], "(assert (= x \"~0\"))\n(assert (= (str.to_code x) 97))\n(assert (= y \"~1\"))\n(check-sat)\n"),
    s!("R", [&[1]], "(assert (= (str.from_code i) \"~0\"))\n(check-sat)\n"),
    s!("R", [&[1, 1]], "(assert (= x \"~0\"))\n(assert (= x y))\n(assert (= y z))\n(assert (str.<= z \"~1\"))\n(check-sat)\n"),
    s!("R", [&[1]], "(assert (str.< (str.++ x \"~0\") y))\n(check-sat)\n"),
];
/// several functions at once look at a literal
static LEN2: [Script; 6] = [
    s!("l", [&[2, 1], &[2, 3]], "(assert (= x \"~0\"))\n(assert (ite b (= (str.len x) 1) (= y x)))\n(assert (not (= y \"~1\")))\n(check-sat)\n"),
    s!("l", [&[2, 2], &[1, 3]], "(assert (= (ite b x y) \"~0\"))\n(assert (= (str.len x) (+ i 1)))\n(assert (= y \"~1\"))\n(check-sat)\n"),
    s!("l", [&[3, 1], &[2, 2]], "(assert (= (str.replace x \"~0\" y) z))\n(assert (= (str.len z) i))\n(assert (= z \"~1\"))\n(check-sat)\n"),
    s!("li", [&[2, 1], &[2, 2]], "(assert (= (str.len x) 2))\n(assert (= (str.to_int x) i))\n(assert (= x \"~0\"))\n(assert (not (= x \"~1\")))\n(check-sat)\n"),
    s!("li", [&[2, 1], &[2, 2]], "(assert (= x \"~1\"))\n(assert (= (str.to_int x) i))\n(assert (= x \"~0\"))\n(assert (= (str.len x) 2))\n(check-sat)\n"),
    s!("l", [&[2, 2]], "(push 1)\n(assert (= x \"~0\"))\n(assert (> (str.len x) i))\n(check-sat)\n(pop 1)\n(push 1)\n(assert (= \"~0\" y))\n(assert (= y \"~1\"))\n(check-sat)\n(pop 1)\n"),
];
static SUB2: [Script; 14] = [
    s!("ls", [&[1, 2], &[2, 3]], "(assert (str.contains x \"~0\"))\n(assert (= x \"~1\"))\n(assert (= (str.len x) i))\n(check-sat)\n"),
    s!("si", [&[1, 2], &[1, 1]], "(assert (str.prefixof \"~0\" x))\n(assert (= (str.to_int x) i))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2, 2]], "(assert (str.contains x \"~0\"))\n(assert (or (= x \"~1\") (= x \"~2\")))\n(check-sat)\n"),
    s!("s", [&[1, 2, 3]], "(assert (= x \"~2\"))\n(assert (str.contains x \"~0\"))\n(assert (not (str.suffixof \"~1\" x)))\n(check-sat)\n"),
    s!("s", [&[1, 2]], "(assert (str.contains \"~1\" \"~0\"))\n(assert (not (str.prefixof \"~0\" \"~1\")))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 2]], "(assert (not (= (str.replace x \"~0\" \"\") x)))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 3]], "(assert (= (str.replace_all x \"~0\" y) z))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2], &[2, 2]], "(push 1)\n(assert (= x \"~0\"))\n(check-sat)\n(pop 1)\n(push 1)\n(assert (str.contains y \"~0\"))\n(assert (= y \"~1\"))\n(check-sat)\n(pop 1)\n"),
    s!("s", [&[2, 1, 1], &[2, 1, 2]], "(assert (= (str.replace_all \"~0\" \"~1\" x) \"~2\"))\n(check-sat)\n"),
    s!("s", [&[2, 1, 1]], "(assert (= (str.replace \"~0\" \"~1\" x) \"~2\"))\n(check-sat)\n"),
    s!("s", [&[2, 1, 2]], "(assert (= (str.replace_re \"~0\" (re.union (str.to_re \"~1\") re.none) y) x))\n(assert (= x \"~2\"))\n(check-sat)\n"),
    s!("s", [&[2, 1]], "(assert (= (str.replace_re_all \"~0\" (re.+ (str.to_re \"~1\")) y) x))\n(check-sat)\n"),
    s!("s", [&[2, 1], &[1, 2]], "(assert (or (str.suffixof \"~1\" \"~0\") (str.prefixof x \"~0\")))\n(check-sat)\n"),
    s!("s", [&[2, 1], &[2, 2]], "(assert (str.in_re \"~0\" (re.opt (str.to_re \"~1\"))))\n(check-sat)\n"),
];
static INT2: [Script; 6] = [
    s!("i", [&[1, 1], &[1, 2]], "(assert (str.is_digit x))\n(assert (= (str.to_int x) i))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"),
    s!("i", [&[1, 1], &[1, 2]], "(assert (= (str.to_int x) i))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(assert (str.is_digit x))\n(check-sat)\n"),
    s!("i", [&[1, 1], &[1, 2]], "(assert (str.is_digit x))\n(assert (= x \"~0\"))\n(assert (= y \"~1\"))\n(assert (= x y))\n(assert (= (str.to_int y) i))\n(check-sat)\n"),
    s!("i", [&[2, 2]], "(assert (= x \"~0\"))\n(assert (= x y))\n(assert (= y z))\n(assert (= z (str.from_int i)))\n(assert (not (= z \"~1\")))\n(check-sat)\n"),
    s!("d", [&[1, 1, 1]], "(assert (=> (str.is_digit x) (= x \"~0\")))\n(assert (= y \"~1\"))\n(assert (= y x))\n(assert (distinct x \"~2\"))\n(check-sat)\n"),
    s!("i", [&[1, 2]], "(assert (= (str.to_int (str.replace x \"~0\" \"\")) i))\n(assert (= x \"~1\"))\n(check-sat)\n"),
];
/// the ends of two ranges, and other literals
static RANGE2: [Script; 3] = [
    s!("q", [&[1, 1, 1, 1]], "(assert (str.in_re x (re.union (re.range \"~0\" \"~1\") (re.range \"~2\" \"~3\"))))\n(check-sat)\n"),
    s!("q", [&[1, 1, 1, 1]], "(assert (str.in_re x (re.range \"~0\" \"~1\")))\n(assert (str.in_re y (re.+ (re.range \"~2\" \"~3\"))))\n(assert (= y x))\n(check-sat)\n"),
    s!("rl", [&[1, 1, 2]], "(assert (str.in_re x (re.+ (re.range \"~0\" \"~1\"))))\n(assert (= x \"~2\"))\n(assert (= (str.len x) 2))\n(check-sat)\n"),
];
static REFUSED2: [Script; 8] = [
    s!("R", [&[1]], "(assert (str.< x y))\n(assert (= z \"~0\"))\n(assert (= (str.++ z z) y))\n(check-sat)\n"),
    s!("R", [&[1, 1]], "(assert (= x \"~0\"))\n(assert (str.<= (ite b x y) \"~1\"))\n(check-sat)\n"),
    s!("R", [&[1, 1]], "(assert (ite b (str.< x y) (= x z)))\n(assert (or (= y \"~0\") (= z \"~1\")))\n(check-sat)\n"),
    s!("R", [&[1]], "(assert (= (str.to_code (str.at x 1)) i))\n(assert (not (= x \"~0\")))\n(check-sat)\n"),
    s!("R", [&[1]], "(assert (= (str.replace x (str.from_code i) y) \"~0\"))\n(check-sat)\n"),
    s!("R", [&[1, 1]], "(assert (str.< x y))\n(push 1)\n(assert (distinct x \"~0\" z))\n(check-sat)\n(pop 1)\n(assert (= \"~1\" z))\n(check-sat)\n"),
    s!("R", [&[1, 1]], "(assert (str.contains x \"~0\"))\n(assert (= x \"~1\"))\n(assert (str.<= x x))\n(check-sat)\n"),
    s!("R", [&[1]], "(assert (str.<= \"~0\" x))\n(assert (= (str.len x) 1))\n(check-sat)\n"),
];
static MIX2: [Script; 8] = [
    s!("li", [&[2, 1]], "(assert (= (str.len x) 2))\n(assert (= (str.to_int x) i))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"),
    s!("i", [&[1, 1]], "(assert (str.is_digit x))\n(assert (= (str.to_int x) i))\n(assert (or (= x \"~0\") (= x \"~1\")))\n(check-sat)\n"),
    s!("s", [&[1, 2]], "(assert (str.prefixof \"~0\" x))\n(assert (not (str.suffixof x \"~1\")))\n(check-sat)\n"),
    s!("i", [&[1, 2]], "(assert (= x \"~0\"))\n(assert (= x y))\n(assert (= y (str.from_int i)))\n(assert (= z \"~1\"))\n(assert (= z y))\n(check-sat)\n"),
    s!("s", [&[1, 2]], "(assert (= (str.replace_all x \"~0\" y) z))\n(assert (= x \"~1\"))\n(check-sat)\n"),
    s!("s", [&[1, 2]], "(assert (str.in_re x (re.++ (re.* re.allchar) (re.union (str.to_re \"~0\") (re.opt (str.to_re \"~1\"))))))\n(check-sat)\n"),
    s!("s", [&[2, 2]], "(assert (= (str.++ x \"~0\") (str.++ \"~1\" y)))\n(check-sat)\n"),
    s!("", [&[1, 1, 1]], "(push 1)\n(assert (= x \"~0\"))\n(check-sat)\n(pop 1)\n(assert (ite b (= y \"~1\") (distinct y x \"~2\")))\n(check-sat)\n"),
];
fn all_in(s: &[u8], a: u8, b: u8) -> u8 {
    let mut ok = 1;
    for &c in s {
        ok &= (a <= c) as u8 & (c <= b) as u8;
    }
    ok
}
/// where `n` first occurs in `h`, if only as a set of bits
fn first(h: &[u8], n: &[u8]) -> u8 {
    let (mut r, mut seen, mut p) = (0, 0, 0);
    while p + n.len() <= h.len() {
        let m = at(h, n, p);
        r |= (m & (seen ^ 1)) << p;
        seen |= m;
        p += 1;
    }
    r
}
fn replaced(h: &[u8], n: &[u8], by: &[u8], to: &[u8]) -> u8 {
    let (mut r, mut seen, mut p) = (0, 0, 0);
    while p + n.len() <= h.len() {
        let m = at(h, n, p);
        let mut v = h[..p].to_vec();
        v.extend_from_slice(by);
        v.extend_from_slice(&h[p + n.len()..]);
        r |= m & (seen ^ 1) & same(&v, to);
        seen |= m;
        p += 1;
    }
    r | ((seen ^ 1) & same(h, to))
}
static TRUTH: [Script; 12] = [
    s!("", [&[1], &[2], &[0]], "(assert (str.in_re x re.allchar))\n(assert (= x \"~0\"))\n(check-sat)\n", |l| (l[0].len() == 1) as u8),
    s!("", [&[1], &[2], &[3]], "(assert (= x \"~0\"))\n(assert (str.in_re x (re.union (re.opt re.allchar) (re.++ re.allchar re.allchar))))\n(check-sat)\n", |l| (l[0].len() <= 2) as u8),
    s!("", [&[2, 1], &[2, 2]], "(assert (= x \"~0\"))\n(assert (str.in_re x (re.++ (str.to_re \"~1\") re.allchar)))\n(check-sat)\n", |l| at(&l[0], &l[1], 0) & (l[0].len() == l[1].len() + 1) as u8),
    s!("", [&[2, 1], &[2, 2]], "(assert (= x \"~0\"))\n(assert (str.in_re x (re.comp (str.to_re \"~1\"))))\n(check-sat)\n", |l| same(&l[0], &l[1]) ^ 1),
    s!("", [&[2, 1], &[2, 2]], "(assert (= x \"~0\"))\n(assert (str.in_re x (re.diff re.all (re.* (str.to_re \"~1\")))))\n(check-sat)\n", |l| if l[1].len() == 1 { all_in(&l[0], l[1][0], l[1][0]) ^ 1 } else { same(&l[0], &l[1]) ^ 1 }),
    s!("", [&[2, 1], &[3, 2]], "(assert (= x \"~0\"))\n(assert (str.in_re x (re.inter (re.++ re.all (str.to_re \"~1\")) (re.++ re.allchar re.all))))\n(check-sat)\n", |l| suffix(&l[0], &l[1])),
    s!("", [&[1, 2], &[1, 1]], "(assert (= x \"~0\"))\n(assert (= y \"~1\"))\n(assert (str.is_digit x))\n(assert (str.is_digit y))\n(check-sat)\n", |l| ((l[0].len() == 1) as u8 & digit(l[0][0])) | (((l[1].len() == 1) as u8 & digit(l[1][0])) << 1)),
    s!("", [&[2, 1], &[2, 2]], "(assert (= x \"~0\"))\n(assert (= (str.indexof x \"~1\" 0) 1))\n(check-sat)\n", |l| first(&l[0], &l[1])),
    s!("", [&[2, 1]], "(assert (= x \"~0\"))\n(assert (= (str.at x 1) \"~1\"))\n(assert (= (str.substr x 0 1) \"~1\"))\n(check-sat)\n", |l| at(&l[0], &l[1], 1) | (at(&l[0], &l[1], 0) << 1)),
    s!("", [&[1, 1, 2]], "(assert (= x \"~0\"))\n(assert (= y \"~1\"))\n(assert (= (str.++ y x) \"~2\"))\n(check-sat)\n", |l| at(&l[2], &l[1], 0) & at(&l[2], &l[0], 1)),
    s!("", [&[1, 1, 1, 1], &[2, 1, 0, 1]], "(assert (= x \"~0\"))\n(assert (= (str.replace x \"~1\" \"~2\") \"~3\"))\n(check-sat)\n", |l| replaced(&l[0], &l[1], &l[2], &l[3])),
    s!("", [&[2, 1, 2], &[1, 1, 2]], "(assert (= x \"~0\"))\n(assert (= x (ite b \"~1\" y)))\n(assert (= y \"~2\"))\n(assert (= (str.len (ite b x \"~1\")) 1))\n(check-sat)\n", |l| same(&l[0], &l[1]) | same(&l[0], &l[2]) << 1 | (l[0].len() == 1) as u8 * 4 | (l[1].len() == 1) as u8 * 8),
];
static TRANGE: [Script; 3] = [
    s!("r", [&[1, 1, 1], &[1, 1, 2]], "(assert (= x \"~2\"))\n(assert (str.in_re x (re.range \"~0\" \"~1\")))\n(check-sat)\n", |l| (l[2].len() == 1) as u8 & all_in(&l[2], l[0][0], l[1][0])),
    s!("r", [&[1, 1, 1], &[1, 1, 2]], "(assert (= x \"~2\"))\n(assert (str.in_re x (re.* (re.range \"~0\" \"~1\"))))\n(check-sat)\n", |l| all_in(&l[2], l[0][0], l[1][0])),
    s!("r", [&[1, 1, 2]], "(assert (= x \"~2\"))\n(assert (str.in_re x (re.++ re.allchar (re.range \"~0\" \"~1\"))))\n(check-sat)\n", |l| all_in(&l[2][1..], l[0][0], l[1][0])),
];
macro_rules! entry {
    ($n:ident, $f:expr, $c:expr) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C" fn $n() {
            go($f, $c)
        }
    };
}
entry!(h_eq, &EQ, false);
entry!(h_len, &LEN, false);
entry!(h_sub, &SUB, false);
entry!(h_cat, &CAT, false);
entry!(h_pos, &POS, false);
entry!(h_int, &INT, false);
entry!(h_range, &RANGE, false);
entry!(c_mix, &MIX, true);
entry!(c_range, &CRANGE, true);
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_refuse() {
    let c2c = vrf::choose(2, "c2c") == 1;
    go(&REFUSED, c2c)
}
entry!(h_truth, &TRUTH, false);
entry!(c_truth, &TRUTH, true);
entry!(h_trange, &TRANGE, false);
entry!(c_trange, &TRANGE, true);
entry!(h_len2, &LEN2, false);
entry!(h_sub2, &SUB2, false);
entry!(h_int2, &INT2, false);
entry!(h_range2, &RANGE2, false);
entry!(c_mix2, &MIX2, true);
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_refuse2() {
    let c2c = vrf::choose(2, "c2c") == 1;
    go(&REFUSED2, c2c)
}
