//! The SAT solver as an angelic/demonic stub: any satisfying assignment of the CNF, or "unsat" when there is none.
use crate::vrf;
use aws_smt_ir::cnf::{CnfTerm, SolveError, Variable};
use aws_smt_ir::logic::all::{Op, ALL};
use aws_smt_ir::{Constant, IConst, IOp, Term};
use std::sync::atomic::{AtomicBool, Ordering};
use aws_smt_ir::model::Model;
use std::collections::HashMap;

pub fn run_solve(text: &str) -> anyhow::Result<Option<Model<ALL>>> {
    let me;
    let solver: &str = if vrf::native() {
        me = std::env::current_exe().unwrap().to_str().unwrap().to_string();
        &me
    } else {
        "stub"
    };
    let r = amzn_smt_eager_arithmetic::solve(text.as_bytes(), solver);
    after();
    r
}
/// only the verdict counts: a path ends with a satisfiable problem
pub static VERDICT: AtomicBool = AtomicBool::new(false);
pub const DIMACS: u64 = 1;
pub const BUILTIN: u64 = 2;
/// which way the script is solved: the external solver, the DIMACS export or the built-in solver
pub fn route() -> u64 {
    vrf::choose(3, "route")
}
pub fn run_builtin(text: &str) -> anyhow::Result<Option<Model<ALL>>> {
    let r = amzn_smt_eager_arithmetic::solve_with_varisat(text.as_bytes());
    after();
    r
}
pub fn after() {
    vrf::merge(false);
    AFTER.store(false, Ordering::Relaxed);
}
/// Set while a solution is being decoded. Values built then are not shared with equal ones (sharing would make
/// the path depend on which of the solver's values coincide); nothing the code returns depends on sharing
/// except through `==` on interned values, which decoding does not use.
static AFTER: AtomicBool = AtomicBool::new(false);
#[no_mangle]
#[inline(never)]
pub fn vrfx_iconst(c: Constant) -> IConst {
    if AFTER.load(Ordering::Relaxed) {
        unsafe { std::mem::transmute::<&'static Constant, IConst>(Box::leak(Box::new(c))) }
    } else {
        IConst::new(c)
    }
}
#[no_mangle]
#[inline(never)]
pub fn vrfx_iop(c: Op<Term<ALL>>) -> IOp<ALL> {
    if AFTER.load(Ordering::Relaxed) {
        unsafe { std::mem::transmute::<&'static Op<Term<ALL>>, IOp<ALL>>(Box::leak(Box::new(c))) }
    } else {
        IOp::new(c)
    }
}

/// variables, clause count, clauses of a DIMACS text
pub fn parse(d: &[u8]) -> Option<(u64, u64, Vec<Vec<i64>>)> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut lines = d.split(|&c| c == b'\n');
    let mut it = lines.next()?.split(|&c| c == b' ');
    if it.next()? != b"p" || it.next()? != b"cnf" {
        return None;
    }
    let nv = num(it.next()?) as u64;
    let nc = num(it.next()?) as u64;
    for line in lines {
        for w in line.split(|&c| c == b' ') {
            if w.is_empty() {
                continue;
            }
            let n = num(w);
            if n == 0 {
                out.push(std::mem::take(&mut cur));
            } else {
                cur.push(n);
            }
        }
    }
    if cur.is_empty() {
        Some((nv, nc, out))
    } else {
        None
    }
}
/// whether the clauses hold under fresh symbolic truth values
pub fn holds(nv: u64, cl: &[Vec<i64>], prefix: &str) -> (u8, Vec<u8>) {
    let mut bits: Vec<u8> = Vec::with_capacity(nv as usize + 1);
    bits.push(0);
    let mut name = String::new();
    for i in 1..=nv {
        name.clear();
        name.push_str(prefix);
        push_num(&mut name, i);
        bits.push(vrf::bit(&name));
    }
    let mut all = 1u8;
    for c in cl {
        let mut any = 0u8;
        for &l in c {
            let b = bits.get(l.unsigned_abs() as usize).copied().unwrap_or(0);
            any |= if l < 0 { b ^ 1 } else { b };
        }
        all &= any;
    }
    (all, bits)
}
fn num(w: &[u8]) -> i64 {
    let mut n = 0i64;
    let mut neg = false;
    for &c in w {
        if c == b'-' {
            neg = true
        } else {
            n = n * 10 + (c - b'0') as i64
        }
    }
    if neg {
        -n
    } else {
        n
    }
}

#[no_mangle]
#[inline(never)]
pub fn vrfx_varisat(cnf: CnfTerm) -> Result<Option<HashMap<Variable, bool>>, SolveError> {
    vrfx_solve(cnf, "")
}

#[no_mangle]
#[inline(never)]
pub fn vrfx_solve(cnf: CnfTerm, _solver: &str) -> Result<Option<HashMap<Variable, bool>>, SolveError> {
    let mut d = Vec::new();
    cnf.write_dimacs(&mut d).map_err(SolveError::WriteProblem)?;
    let (nv, _, cl) = parse(&d).unwrap();
    let (all, bits) = holds(nv, &cl, "sat.");
    if vrf::possible(all) {
        if VERDICT.load(Ordering::Relaxed) {
            vrf::cover("sat");
            vrf::done();
        }
        vrf::assume8(all);
        vrf::merge(true);
        AFTER.store(true, Ordering::Relaxed);
        let mut m = HashMap::new();
        for i in 1..=nv {
            let v: Variable = unsafe { std::mem::transmute::<u64, Variable>(i) };
            let b: bool = unsafe { std::mem::transmute::<u8, bool>(bits[i as usize]) };
            m.insert(v, b);
        }
        Ok(Some(m))
    } else {
        Ok(None)
    }
}

fn push_num(s: &mut String, n: u64) {
    if n >= 10 {
        push_num(s, n / 10);
    }
    s.push((b'0' + (n % 10) as u8) as char);
}

/// native replay: act as the external SAT solver
pub fn native_solver() {
    use std::io::Read;
    let file = std::env::var("VRF_SAT").unwrap_or("/dev/null".into());
    let mut d = vec![];
    std::io::stdin().read_to_end(&mut d).unwrap();
    let (nv, _, cl) = parse(&d).unwrap();
    let mut vals: HashMap<i64, bool> = HashMap::new();
    for l in std::fs::read_to_string(file).unwrap().lines() {
        if let Some((k, v)) = l.split_once('\t') {
            if let Some(n) = k.strip_prefix("sat.") {
                vals.insert(n.parse().unwrap(), v != "0");
            }
        }
    }
    let lit = |l: i64| vals.get(&l.abs()).copied().unwrap_or(false) == (l > 0);
    if !vals.is_empty() && cl.iter().all(|c| c.iter().any(|&l| lit(l))) {
        println!("s SATISFIABLE");
        print!("v");
        for i in 1..=nv as i64 {
            print!(" {}", if lit(i) { i } else { -i });
        }
        println!(" 0");
        return;
    }
    let mut s = varisat::solver::Solver::new();
    s.add_dimacs_cnf(&d[..]).unwrap();
    if s.solve().unwrap() {
        println!("s SATISFIABLE");
        print!("v");
        for l in s.model().unwrap() {
            print!(" {}", l.to_dimacs());
        }
        println!(" 0");
    } else {
        println!("s UNSATISFIABLE");
    }
}
