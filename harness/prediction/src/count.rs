//! The program run on a list of benchmarks: every row counts what the asserted terms of its benchmark contain.
use crate::vrf;
use std::ffi::OsString;

static mut ARGS: [&str; 4] = ["prediction", "", "list", "o"];

/// the arguments of the program
#[no_mangle]
#[inline(never)]
pub fn vrfx_args() -> std::env::Args {
    let a = unsafe { ARGS };
    let v: Vec<OsString> = a.iter().map(|s| OsString::from(*s)).collect();
    // `Args` is this iterator
    unsafe { std::mem::transmute::<std::vec::IntoIter<OsString>, std::env::Args>(v.into_iter()) }
}
/// runs the program, natively as a process of its own
fn run(dataset: &'static str) -> bool {
    if !vrf::native() {
        unsafe { ARGS[1] = dataset };
        crate::program::run();
        return true;
    }
    let me = std::env::current_exe().unwrap();
    let s = std::process::Command::new(me)
        .args([dataset, "list", "o"])
        .env("VRF_PROGRAM", "1")
        .stdout(std::process::Stdio::null())
        .status();
    matches!(s, Ok(s) if s.success())
}

/// the columns of the table and the functions they stand for
const COLS: [(&str, &str); 35] = [
    ("str_concat", "str.++"),
    ("len", "str.len"),
    ("lex_ord", "str.<"),
    ("to_re", "str.to_re"),
    ("in_re", "str.in_re"),
    ("re_none", "re.none"),
    ("re_all", "re.all"),
    ("re_all_char", "re.allchar"),
    ("re_concat", "re.++"),
    ("re_union", "re.union"),
    ("re_intersect", "re.inter"),
    ("re_kleene_star", "re.*"),
    ("ref_clos_lex_ord", "str.<="),
    ("sing_str_at", "str.at"),
    ("substr", "str.substr"),
    ("prefix_of", "str.prefixof"),
    ("suffix_of", "str.suffixof"),
    ("contains", "str.contains"),
    ("index_of", "str.indexof"),
    ("replace", "str.replace"),
    ("replace_all", "str.replace_all"),
    ("replace_re", "str.replace_re"),
    ("replace_re_all", "str.replace_re_all"),
    ("re_compl", "re.comp"),
    ("re_diff", "re.diff"),
    ("re_kleene_cross", "re.+"),
    ("re_opt", "re.opt"),
    ("re_range", "re.range"),
    ("re_pow", "re.^"),
    ("re_loop", "re.loop"),
    ("is_digit", "str.is_digit"),
    ("to_code", "str.to_code"),
    ("from_code", "str.from_code"),
    ("to_int", "str.to_int"),
    ("from_int", "str.from_int"),
];
const SMTCOMP: [&str; 17] = [
    "str_concat",
    "len",
    "to_re",
    "in_re",
    "re_concat",
    "re_union",
    "re_kleene_star",
    "sing_str_at",
    "substr",
    "prefix_of",
    "contains",
    "index_of",
    "replace",
    "re_kleene_cross",
    "re_range",
    "to_int",
    "from_int",
];

/// commands; in the literals `~` is any character but a backslash, a quote only as one of two, `?` is any digit, `@` a letter of a name, `#` an index
const FORMS: [&str; 20] = [
    "(assert (= (str.++ x \"~~\" y) (str.++ y x)))",
    "(assert (< (str.len x) (+ ? (str.len (str.++ x y)) (str.len x))))",
    "(assert (and (str.< x \"~\") (str.<= x y) (not (str.< \"~\" y))))",
    "(assert (str.in_re x (re.union (str.to_re \"~~(str.len ~\") (re.* (str.to_re \"(str.len ~\")) re.none)))",
    "(assert (str.in_re (str.at x ?) (re.++ re.all re.allchar re.all (re.+ (re.range \"~\" \"z\")) (re.opt re.allchar))))",
    "(assert (str.in_re x (re.inter (re.comp re.none) (re.diff re.all (re.inter re.all (str.to_re \"~\"))))))",
    "(assert (= (str.substr x ? (str.len y)) (str.substr (str.substr y 0 ?) ? 1)))",
    "(assert (or (str.prefixof x y) (str.suffixof \"~\" x) (str.contains x (str.at y ?)) (str.prefixof y \"~\")))",
    "(assert (= (str.indexof x \"~\" ?) (str.indexof (str.replace x \"~\" y) y 0)))",
    "(assert (= (str.replace_all x \"~\" y) (str.replace_re y (str.to_re \"~\") x) (str.replace_re_all x re.allchar \"~\")))",
    "(assert (str.in_re x ((_ re.^ #) (re.++ ((_ re.loop # 9) (str.to_re \"~\")) ((_ re.^ 2) re.allchar)))))",
    "(assert (= (str.to_int x) (str.to_code y) (+ ? (str.to_int (str.from_int (str.to_code x))))))",
    "(assert (= (str.from_code ?) (str.from_int (str.len x)) (ite (str.is_digit y) (str.from_code 6) \"~\")))",
    "(declare-fun f@ (String) Int)(assert (= (f@ (str.++ x \"~\")) (f@ (str.at y ?))))",
    "(assert (let ((v@ (str.++ x \"~\")) (w (str.len y))) (= w (str.len v@))))",
    "(assert (forall ((v@ String)) (=> (str.contains v@ \"~\") (exists ((i Int)) (= (str.at v@ i) x)))))",
    "(define-fun g@ ((s String)) String (str.++ s \"~\"))(assert (= (g@ x) y))",
    "(push 1)(assert (distinct (str.++ x y) (str.++ y x) (str.++ \"~~ (str.++ \" \"\")))(pop 1)",
    "(assert (xor (= x y) (not (= x \"str.len@\")) (= (ite (= x y) (str.len x) ?) (str.len y))))",
    "(set-info :status sat)(check-sat)(get-model)",
];

/// how often a function stands in the asserted terms
fn count(form: &str, f: &str) -> usize {
    let (b, f) = (form.as_bytes(), f.as_bytes());
    let (mut n, mut p, mut depth, mut on, mut quoted) = (0, 0, 0, false, false);
    while p < b.len() {
        let c = b[p];
        if c == b'"' {
            quoted = !quoted;
        } else if !quoted {
            if c == b'(' {
                if depth == 0 {
                    on = b[p + 1..].starts_with(b"assert ");
                }
                depth += 1;
            } else if c == b')' {
                depth -= 1;
            } else if on
                && (b[p - 1] == b'(' || b[p - 1] == b' ')
                && b[p..].starts_with(f)
                && (b[p + f.len()] == b' ' || b[p + f.len()] == b')')
            {
                n += 1;
            }
        }
        p += 1;
    }
    n
}
fn text(forms: &[&str], deep: bool) -> Vec<u8> {
    let mut o = Vec::with_capacity(512);
    o.extend_from_slice(b"(set-logic ALL)\n(declare-const x String)\n(declare-const y String)\n");
    for f in forms {
        let letter = vrf::byte("letter");
        vrf::assume8((letter >= b'a') as u8 & (letter <= if deep { b'z' } else { b'c' }) as u8);
        let f = f.as_bytes();
        let mut quote = None;
        for p in 0..f.len() {
            o.push(match &f[p] {
                b'~' => {
                    let c = vrf::byte("char");
                    vrf::assume8((c >= 32) as u8 & (c < 127) as u8 & (c != b'\\') as u8);
                    let q = (c == b'"') as u8;
                    // a quote stands twice
                    match quote.take() {
                        Some(q0) => vrf::assume8((q == q0) as u8),
                        None if f[p + 1] == b'~' => quote = Some(q),
                        None => vrf::assume8(q ^ 1),
                    }
                    c
                }
                b'?' => {
                    let d = vrf::byte("digit");
                    vrf::assume8((d >= b'1') as u8 & (d <= b'9') as u8);
                    d
                }
                b'#' => {
                    let d = vrf::byte("index");
                    vrf::assume8((d >= b'1') as u8 & (d <= if deep { b'9' } else { b'2' }) as u8);
                    d
                }
                b'@' => letter,
                b => *b,
            });
        }
        o.push(b'\n');
    }
    o
}
fn lines(t: &[u8]) -> Vec<Vec<&[u8]>> {
    let mut o = vec![];
    let (mut row, mut s) = (vec![], 0);
    for p in 0..t.len() {
        if t[p] == b',' || t[p] == b'\n' {
            row.push(&t[s..p]);
            s = p + 1;
            if t[p] == b'\n' {
                o.push(std::mem::take(&mut row));
            }
        }
    }
    if s < t.len() || !row.is_empty() {
        row.push(&t[s..]);
        o.push(row);
    }
    o
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_count() {
    let dataset = ["other", "smtcomp", "kepler"][vrf::choose(3, "dataset") as usize];
    let n = FORMS.len();
    let deep = vrf::deep();
    let a = vrf::choose(n as u64, "form") as usize;
    // the second command of the first benchmark, and the second benchmark
    let (step, second) =
        [(1, 0), (n - 3, 6), (7, 13)][vrf::choose(if deep { 3 } else { 2 }, "others") as usize];
    let files = [
        vec![FORMS[a], FORMS[(a + step) % n]],
        vec![FORMS[(a + second) % n]],
        vec![],
    ];
    let dir = if dataset == "other" {
        "./"
    } else {
        "SMT_Comp_2020"
    };
    for (k, f) in files.iter().enumerate() {
        let t = text(f, deep);
        vrf::note(unsafe { std::str::from_utf8_unchecked(&t) });
        let mut name = String::from(dir);
        name.push_str(["_a.smt2", "_b.smt2", "_c.smt2"][k]);
        vrf::file(&name, &t);
    }
    vrf::file("list", b"_a.smt2\n_b.smt2\n_c.smt2\n");
    if !run(dataset) {
        return vrf::fail("the program ends well");
    }
    let got = match std::fs::read("off_features_o.csv") {
        Ok(g) => g,
        Err(_) => return vrf::fail("the table is written"),
    };
    vrf::note(unsafe { std::str::from_utf8_unchecked(&got) });
    let rows = lines(&got);
    vrf::check(
        rows.len() == files.len() + 1,
        "the table has a row per benchmark",
    );
    if rows.len() != files.len() + 1 {
        return;
    }
    for (name, f) in COLS.iter() {
        let want = match dataset {
            "other" => true,
            "smtcomp" => SMTCOMP.contains(name),
            _ => *name == "str_concat" || *name == "len",
        };
        let at: Vec<usize> = (0..rows[0].len())
            .filter(|c| rows[0][*c] == name.as_bytes())
            .collect();
        vrf::check(
            at.len() == want as usize,
            "the table has the columns of the dataset",
        );
        if at.len() != 1 {
            continue;
        }
        for (k, file) in files.iter().enumerate() {
            let n: usize = file.iter().map(|t| count(t, f)).sum();
            let r = &rows[k + 1];
            vrf::check(
                r.len() == rows[0].len(),
                "every row has a number per column",
            );
            if r.len() == rows[0].len() {
                vrf::check(
                    r[at[0]] == n.to_string().as_bytes(),
                    "a function is counted as often as it occurs",
                );
            }
        }
    }
    vrf::cover("counted");
}

/// constants are not shared: their contents are symbolic, and nothing compares them by address
#[no_mangle]
#[inline(never)]
pub fn vrfx_iconst(c: aws_smt_ir::Constant) -> aws_smt_ir::IConst {
    if vrf::native() {
        aws_smt_ir::IConst::new(c)
    } else {
        unsafe {
            std::mem::transmute::<&'static aws_smt_ir::Constant, aws_smt_ir::IConst>(Box::leak(
                Box::new(c),
            ))
        }
    }
}
