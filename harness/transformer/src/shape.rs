//! Names, commands and everything else around the literals; the list of subformulas.
use crate::map::{same, transform};
use crate::vrf;
use amzn_smt_string_transformer::{subformula_parser, transpiler};

/// `@k` stands for the k-th name in the input and for the k-th new name (a0, a1...) in the output,
/// `~k` for the k-th literal (without quotes)
struct Shape {
    input: &'static str,
    output: &'static str,
    names: usize,
    /// the original name of each new one (-1: not told, as the name was declared again later)
    of: &'static [i8],
    lits: &'static [usize],
}
fn fill(t: &str, names: &[Vec<u8>], lits: &[Vec<u8>]) -> Vec<u8> {
    let b = t.as_bytes();
    let (mut o, mut i) = (Vec::with_capacity(512), 0);
    while i < b.len() {
        if b[i] == b'@' {
            o.extend_from_slice(&names[(b[i + 1] - b'0') as usize]);
            i += 2;
        } else if b[i] == b'~' {
            o.extend_from_slice(&lits[(b[i + 1] - b'0') as usize]);
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn nm(p: &str, a: usize, b: usize) -> String {
    String::from_utf8(vec![p.as_bytes()[0], b'0' + a as u8, b'_', b'0' + b as u8]).unwrap()
}
/// a letter and a digit, so that no name is a word of the language or of the templates; names may look like the new ones
fn names(n: usize, sym: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // (with four names, fewer digits would make the queries about pairwise different names hard)
    let hi = if sym && vrf::deep() {
        b'9'
    } else if n > 3 {
        b'3'
    } else {
        b'2'
    };
    for k in 0..n {
        if !sym {
            v.push([b"x1", b"a0", b"k7", b"b0", b"a1"][k].to_vec());
            continue;
        }
        let (l, d) = (vrf::byte(&nm("n", k, 0)), vrf::byte(&nm("n", k, 1)));
        vrf::assume8(((l == b'a') as u8 | (l == b'b') as u8) & (d >= b'0') as u8 & (d <= hi) as u8);
        for o in &v {
            vrf::assume8((o[0] != l) as u8 | (o[1] != d) as u8);
        }
        v.push(vec![l, d]);
    }
    v
}
fn lits(l: &[usize], sym: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in 0..l.len() {
        let mut s = vec![];
        for p in 0..l[k] {
            if !sym {
                s.push(b"gh3"[k + p]);
                continue;
            }
            let c = vrf::byte(&nm("c", k, p));
            vrf::assume8(
                (c >= 32) as u8 & (c < 127) as u8 & (c != b'"') as u8 & (c != b'\\') as u8,
            );
            s.push(c);
        }
        v.push(s);
    }
    v
}
fn new_names(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|k| vec![b'a', b'0' + k as u8]).collect()
}
/// reads the literals off the output; None if there are more or fewer quotes than in the template
fn images(t: &str, n: usize, out: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut ks = vec![];
    let b = t.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'~' {
            ks.push((b[i + 1] - b'0') as usize);
        }
    }
    let mut im: Vec<Option<Vec<u8>>> = vec![None; n];
    let (mut at, mut i) = (0, 0);
    while i < out.len() {
        if out[i] == b'"' {
            let s = i + 1;
            i += 1;
            while i < out.len() && out[i] != b'"' {
                i += 1;
            }
            if at == ks.len() {
                return None;
            }
            if im[ks[at]].is_none() {
                im[ks[at]] = Some(out[s..i].to_vec());
            }
            at += 1;
        }
        i += 1;
    }
    im.into_iter().collect()
}
static SHAPES: [Shape; 17] = [
    Shape {
        names: 3,
        of: &[0, 1, 2],
        lits: &[1],
        input: "(set-logic ALL)\n(set-option :produce-models true)\n(declare-const @0 String)\n(declare-fun @1 () Bool)\n(assert (or @1 (= @0 \"~0\")))\n(declare-const @2 Int)\n(assert (=> (not @1) (and (< @2 (str.len @0)) (= (+ @2 1) 3))))\n(check-sat)\n(get-model)\n(exit)\n",
        output: "(set-logic ALL)\n(set-option :produce-models true)\n(declare-const @0 String)\n(declare-fun @1 () Bool)\n(declare-const @2 Int)\n(assert (or @1 (= @0 \"~0\")))\n(assert (=> (not @1) (and (< @2 (str.len @0)) (= (+ @2 1) 3))))\n(check-sat)\n(get-model)\n(exit)\n",
    },
    Shape {
        names: 2,
        of: &[0, 1],
        lits: &[1],
        input: "(declare-fun @0 (String Int) Bool)\n(declare-const @1 String)\n(assert (@0 @1 3))\n(assert (not (@0 (str.++ @1 \"~0\") 4)))\n(check-sat)\n",
        output: "(declare-fun @0 (String Int) Bool)\n(declare-const @1 String)\n(assert (@0 @1 3))\n(assert (not (@0 (str.++ @1 \"~0\") 4)))\n(check-sat)\n",
    },
    Shape {
        names: 2,
        of: &[0, 1],
        lits: &[1, 1],
        input: "(declare-const @0 Bool)\n(declare-const @1 String)\n(push 1)\n(assert (ite @0 (= @1 \"~0\") (str.contains @1 \"~1\")))\n(check-sat)\n(pop 1)\n(assert (xor @0 (not (str.contains @1 \"~1\"))))\n(check-sat)\n",
        output: "(declare-const @0 Bool)\n(declare-const @1 String)\n(push 1)\n(assert (ite @0 (= @1 \"~0\") (str.contains @1 \"~1\")))\n(check-sat)\n(pop 1)\n(assert (xor @0 (not (str.contains @1 \"~1\"))))\n(check-sat)\n",
    },
    Shape {
        names: 4,
        of: &[0, 2, 1],
        lits: &[1],
        input: "(declare-const @0 Int)\n(define-fun @2 ((@3 Int)) Bool (< @3 @0))\n(declare-const @1 String)\n(assert (@2 (str.len @1)))\n(assert (= (str.++ @1 @1) \"~0\"))\n(check-sat)\n",
        output: "(declare-const @0 Int)\n(declare-const @2 String)\n(define-fun @1 ((b0 Int)) Bool (< b0 @0))\n(assert (@1 (str.len @2)))\n(assert (= (str.++ @2 @2) \"~0\"))\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[0, 1],
        lits: &[1],
        input: "(set-info :status sat)\n(declare-const @0 Int)\n(declare-const @1 String)\n(assert (forall ((@2 Int)) (or (< @2 @0) (= (str.len @1) @0))))\n(assert (not (= @1 \"~0\")))\n(check-sat)\n",
        output: "(set-info :status sat)\n(declare-const @0 Int)\n(declare-const @1 String)\n(assert (forall ((b0 Int)) (or (< b0 @0) (= (str.len @1) @0))))\n(assert (not (= @1 \"~0\")))\n(check-sat)\n",
    },
    Shape {
        names: 2,
        of: &[0, 1],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(declare-const @1 String)\n(assert (distinct @0 @1))\n(assert (= @0 (str.replace @1 \"~0\" \"~1\")))\n(assert (= (str.replace @1 \"~0\" \"~1\") (str.replace @0 \"~0\" @1)))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @1 String)\n(assert (distinct @0 @1))\n(assert (= @0 (str.replace @1 \"~0\" \"~1\")))\n(assert (= (str.replace @1 \"~0\" \"~1\") (str.replace @0 \"~0\" @1)))\n(check-sat)\n",
    },
    Shape {
        names: 2,
        of: &[0, 1],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(declare-fun @1 () Int)\n(assert (str.in_re @0 (re.++ (re.* re.allchar) (re.union (str.to_re \"~0\") (re.opt (str.to_re \"~1\"))))))\n(assert (not (= (str.indexof @0 \"~0\" @1) (- 1))))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-fun @1 () Int)\n(assert (str.in_re @0 (re.++ (re.* re.allchar) (re.union (str.to_re \"~0\") (re.opt (str.to_re \"~1\"))))))\n(assert (not (= (str.indexof @0 \"~0\" @1) (- 1))))\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[0, 1, 2],
        lits: &[1, 1],
        input: "(declare-fun @0 (String Int) Bool)\n(declare-fun @1 (Int) String)\n(declare-const @2 String)\n(assert (@0 \"~0\" 3))\n(assert (= @2 \"~1\"))\n(assert (or (= (@1 1) \"~0\") (@0 @2 (str.len (@1 2)))))\n(check-sat)\n",
        output: "(declare-fun @0 (String Int) Bool)\n(declare-fun @1 (Int) String)\n(declare-const @2 String)\n(assert (@0 \"~0\" 3))\n(assert (= @2 \"~1\"))\n(assert (or (= (@1 1) \"~0\") (@0 @2 (str.len (@1 2)))))\n(check-sat)\n",
    },
    Shape {
        names: 2,
        of: &[0, 1],
        lits: &[1, 1],
        input: "(declare-fun @0 (String) String)\n(declare-const @1 String)\n(assert (str.prefixof (@0 \"~0\") @1))\n(assert (distinct @1 (@0 \"~1\") \"~1\"))\n(check-sat)\n",
        output: "(declare-fun @0 (String) String)\n(declare-const @1 String)\n(assert (str.prefixof (@0 \"~0\") @1))\n(assert (distinct @1 (@0 \"~1\") \"~1\"))\n(check-sat)\n",
    },
    Shape {
        names: 4,
        of: &[0, 1],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(declare-const @1 Bool)\n(assert (let ((@2 \"~0\") (@3 (not @1))) (or @3 (= @2 @0))))\n(assert (not (= \"~1\" @0)))\n(check-sat)\n(get-model)\n",
        output: "(declare-const @0 String)\n(declare-const @1 Bool)\n(assert (let ((b0 \"~0\") (b1 (not @1))) (or b1 (= b0 @0))))\n(assert (not (= \"~1\" @0)))\n(check-sat)\n(get-model)\n",
    },
    Shape {
        names: 4,
        of: &[0, 2, 1],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(define-fun @2 ((@0 String)) Bool (= @0 \"~0\"))\n(declare-const @1 Bool)\n(assert (=> @1 (@2 @0)))\n(assert (exists ((@3 String)) (and (= @3 \"~1\") (= @3 @0))))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @2 Bool)\n(define-fun @1 ((b0 String)) Bool (= b0 \"~0\"))\n(assert (=> @2 (@1 @0)))\n(assert (exists ((b1 String)) (and (= b1 \"~1\") (= b1 @0))))\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[0, -1, 2, 1],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(push 1)\n(declare-const @1 String)\n(assert (= @1 \"~0\"))\n(check-sat)\n(pop 1)\n(declare-fun @2 (String) Bool)\n(declare-const @1 Int)\n(assert (= (@2 \"~1\") (< @1 (str.len @0))))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @1 String)\n(declare-fun @2 (String) Bool)\n(declare-const @3 Int)\n(push 1)\n(assert (= @1 \"~0\"))\n(check-sat)\n(pop 1)\n(assert (= (@2 \"~1\") (< @3 (str.len @0))))\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[0, 1],
        lits: &[1],
        input: "(declare-const @0 String)\n(declare-const @1 String)\n(assert (let ((@0 (str.++ @0 \"~0\")) (@2 @0)) (exists ((@2 Int) (@1 String)) (and (= @0 @1) (< @2 (str.len @1))))))\n(assert (= @0 @1))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @1 String)\n(assert (let ((b0 (str.++ @0 \"~0\")) (b1 @0)) (exists ((b2 Int) (b3 String)) (and (= b0 b3) (< b2 (str.len b3))))))\n(assert (= @0 @1))\n(check-sat)\n",
    },
    Shape {
        names: 2,
        of: &[0, 1],
        lits: &[1, 1],
        input: "(set-info :source |a b|)\n(declare-const @0 String)\n(declare-const @1 Bool)\n(assert (= @0 (ite @1 \"~0\" (ite (= @0 \"~1\") \"~0\" \"~1\"))))\n(assert (= (ite @1 1 2) (str.len @0)))\n(check-sat)\n",
        output: "(set-info :source |a b|)\n(declare-const @0 String)\n(declare-const @1 Bool)\n(assert (= @0 (ite @1 \"~0\" (ite (= @0 \"~1\") \"~0\" \"~1\"))))\n(assert (= (ite @1 1 2) (str.len @0)))\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[0, 1, 2],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(declare-const @1 Int)\n(declare-const @2 Bool)\n(assert (= (str.len @0) (+ @1 1)))\n(assert (= (str.++ @0 \"~0\") (ite @2 @0 (str.++ @0 @0))))\n(assert (= (str.contains @0 \"~1\") (and @2 (< @1 (str.len @0)))))\n(assert (= (str.indexof @0 \"~1\" 0) (- @1)))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @1 Int)\n(declare-const @2 Bool)\n(assert (= (str.len @0) (+ @1 1)))\n(assert (= (str.++ @0 \"~0\") (ite @2 @0 (str.++ @0 @0))))\n(assert (= (str.contains @0 \"~1\") (and @2 (< @1 (str.len @0)))))\n(assert (= (str.indexof @0 \"~1\" 0) (- @1)))\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[0, 1, 2],
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(declare-const @1 String)\n(declare-fun @2 () Bool)\n(push 1)\n(push 1)\n(assert (= @0 \"~0\"))\n(assert (= @0 \"~0\"))\n(check-sat)\n(check-sat)\n(pop 1)\n(assert (str.prefixof \"~1\" @0))\n(check-sat)\n(pop 1)\n(assert (str.prefixof \"~1\" @1))\n(assert @2)\n(assert @2)\n(push 2)\n(assert (not @2))\n(check-sat)\n(get-model)\n(pop 2)\n(assert (= @0 \"~0\"))\n(check-sat)\n(get-info :reason-unknown)\n(reset-assertions)\n(assert @2)\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @1 String)\n(declare-fun @2 () Bool)\n(push 1)\n(push 1)\n(assert (= @0 \"~0\"))\n(assert (= @0 \"~0\"))\n(check-sat)\n(check-sat)\n(pop 1)\n(assert (str.prefixof \"~1\" @0))\n(check-sat)\n(pop 1)\n(assert (str.prefixof \"~1\" @1))\n(assert @2)\n(assert @2)\n(push 2)\n(assert (not @2))\n(check-sat)\n(get-model)\n(pop 2)\n(assert (= @0 \"~0\"))\n(check-sat)\n(get-info :reason-unknown)\n(reset-assertions)\n(assert @2)\n(check-sat)\n",
    },
    Shape {
        names: 3,
        of: &[2, 1, 0],
        lits: &[1],
        input: "(declare-const @2 String)\n(declare-const @1 String)\n(declare-const @0 String)\n(assert (= (str.++ @0 (str.++ @1 \"~0\")) (str.substr @2 0 (str.len @0))))\n(assert (str.prefixof (str.at @2 0) (str.++ @0 (str.++ @1 \"~0\"))))\n(check-sat)\n",
        output: "(declare-const @0 String)\n(declare-const @1 String)\n(declare-const @2 String)\n(assert (= (str.++ @2 (str.++ @1 \"~0\")) (str.substr @0 0 (str.len @2))))\n(assert (str.prefixof (str.at @0 0) (str.++ @2 (str.++ @1 \"~0\"))))\n(check-sat)\n",
    },
];
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shape() {
    let i = vrf::choose(SHAPES.len() as u64, "script") as usize;
    let s = &SHAPES[i];
    let c2c = vrf::choose(2, "c2c") == 1;
    let what = vrf::choose(2, "names or literals") == 0;
    let (n, l) = (names(s.names, what), lits(s.lits, !what));
    let input = fill(s.input, &n, &l);
    vrf::note(unsafe { std::str::from_utf8_unchecked(&input) });
    let d = match transform(&input, c2c) {
        Some(d) => d,
        None => return vrf::fail("the input parses"),
    };
    if !d.mapping.failed_transformed_constraint_vars.is_empty() {
        return vrf::fail("a supported script is transformed");
    }
    vrf::note(unsafe { std::str::from_utf8_unchecked(&d.text) });
    vrf::cover("transformed");
    let im = match images(s.output, l.len(), &d.text) {
        Some(x) => x,
        None => return vrf::fail("everything but names and literals is kept"),
    };
    let new = new_names(10);
    vrf::check8(
        same(&d.text, &fill(s.output, &new, &im)),
        "everything but names and literals is kept",
    );
    for k in 0..l.len() {
        for j in 0..k {
            vrf::check8(
                same(&l[k], &l[j]) ^ same(&im[k], &im[j]) ^ 1,
                "equal literals stay equal and different ones different",
            );
        }
    }
    let back = d.mapping.get_un_alpha_map();
    let mut known = 0;
    for k in 0..s.of.len() {
        if s.of[k] < 0 {
            continue;
        }
        known += 1;
        match back.get(std::str::from_utf8(&new[k]).unwrap()) {
            Some(x) => vrf::check8(
                same(x.as_bytes(), &n[s.of[k] as usize]),
                "the mapping tells the original names",
            ),
            None => vrf::fail("the mapping tells the original names"),
        }
    }
    vrf::check(
        back.len() == known,
        "the mapping knows the declared and defined names only",
    );
}

/// a script and its subformulas, with variables numbered in order of appearance
struct Sub {
    input: &'static str,
    names: usize,
    lits: &'static [usize],
    list: &'static [&'static str],
}
static SUBS: [Sub; 6] = [
    Sub {
        names: 3,
        lits: &[1],
        input: "(declare-const @0 String)\n(declare-const @1 String)\n(declare-const @2 Bool)\n(assert (or @2 (= @0 \"~0\")))\n(assert (not (= (str.++ @1 @0) @1)))\n(check-sat)\n",
        list: &["(= v0 \"~0\")", "(or v0 (= v1 \"~0\"))", "(str.++ v0 v1)", "(= (str.++ v0 v1) v0)", "(not (= (str.++ v0 v1) v0))"],
    },
    Sub {
        names: 3,
        lits: &[1],
        input: "(declare-fun @0 (Int) Bool)\n(declare-const @1 Int)\n(declare-const @2 String)\n(assert (@0 (+ @1 (str.len @2))))\n(assert (ite (@0 @1) (str.prefixof \"~0\" @2) (< @1 2)))\n(check-sat)\n",
        list: &["(str.len v0)", "(+ v0 (str.len v1))", "(@0 (+ v0 (str.len v1)))", "(@0 v0)", "(str.prefixof \"~0\" v0)", "(< v0 2)", "(ite (@0 v0) (str.prefixof \"~0\" v1) (< v0 2))"],
    },
    Sub {
        names: 2,
        lits: &[1, 1],
        input: "(declare-const @0 String)\n(declare-const @1 String)\n(assert (distinct @1 @0 @1))\n(assert (= (str.replace @1 \"~0\" \"~1\") @0))\n(assert (str.in_re @0 (re.* (str.to_re \"~0\"))))\n(check-sat)\n",
        list: &["(distinct v0 v1 v0)", "(str.replace v0 \"~0\" \"~1\")", "(= (str.replace v0 \"~0\" \"~1\") v1)", "(str.to_re \"~0\")", "(re.* (str.to_re \"~0\"))", "(str.in_re v0 (re.* (str.to_re \"~0\")))"],
    },
    Sub {
        names: 3,
        lits: &[1],
        input: "(declare-const @0 String)\n(declare-const @1 String)\n(declare-const @2 Bool)\n(assert (= @0 \"~0\"))\n(assert (=> @2 (= @1 \"~0\")))\n(assert (ite @2 (str.contains @1 @0) (str.contains @0 @0)))\n(check-sat)\n",
        list: &["(= v0 \"~0\")", "(= v0 \"~0\")", "(=> v0 (= v1 \"~0\"))", "(str.contains v0 v1)", "(str.contains v0 v0)", "(ite v0 (str.contains v1 v2) (str.contains v2 v2))"],
    },
    Sub {
        names: 4,
        lits: &[],
        input: "(declare-const @0 Int)\n(declare-const @1 Int)\n(declare-fun @2 (Int) Int)\n(declare-fun @3 (Int Int) Bool)\n(assert (< @0 @1))\n(assert (@3 @1 @0))\n(assert (not (@3 @0 @0)))\n(assert (= (@2 (+ @1 @0)) (@2 @0)))\n(assert (=> (@3 @0 @1) (@3 (@2 @1) 4)))\n(check-sat)\n",
        list: &["(< v0 v1)", "(@3 v0 v1)", "(@3 v0 v0)", "(not (@3 v0 v0))", "(+ v0 v1)", "(@2 (+ v0 v1))", "(@2 v0)", "(= (@2 (+ v0 v1)) (@2 v1))", "(@3 v0 v1)", "(@2 v0)", "(@3 (@2 v0) 4)", "(=> (@3 v0 v1) (@3 (@2 v1) 4))"],
    },
    Sub {
        names: 2,
        lits: &[],
        input: "(declare-const @0 Bool)\n(declare-const @1 Int)\n(assert @0)\n(push 1)\n(assert (and @0 (not @0)))\n(check-sat)\n(pop 1)\n(assert (>= (* 2 @1) @1))\n",
        list: &["(not v0)", "(and v0 (not v0))", "(* 2 v0)", "(>= (* 2 v0) v0)"],
    },
];
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_subs() {
    let s = &SUBS[vrf::choose(SUBS.len() as u64, "script") as usize];
    let what = vrf::choose(2, "names or literals") == 0;
    let (n, l) = (names(s.names, what), lits(s.lits, !what));
    let input = fill(s.input, &n, &l);
    vrf::note(unsafe { std::str::from_utf8_unchecked(&input) });
    let cmds = match transpiler::parse(&input[..]) {
        Ok(c) => c,
        Err(_) => return vrf::fail("the input parses"),
    };
    let terms = subformula_parser::find_string_subforumlas(false, cmds);
    let list = subformula_parser::SubFormulaJson::new(&terms).sub_formula_list;
    vrf::cover("listed");
    for t in &list {
        vrf::note(t);
    }
    vrf::check(
        list.len() == s.list.len(),
        "every function application is listed",
    );
    if list.len() == s.list.len() {
        for k in 0..list.len() {
            vrf::check8(
                same(list[k].as_bytes(), &fill(s.list[k], &n, &l)),
                "subformulas are listed with numbered variables",
            );
        }
    }
}
