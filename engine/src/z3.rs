//! Minimal hand-written binding to libz3's C API, and the translation of expressions to it.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bv2int(c: P, a: P, signed: bool) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {}: {:?}", e, m);
        std::process::exit(3);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    memo: Vec<P>,
    bv: Inc,
    ints: Inc,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ns: u64,
    pub dump: Option<String>,
}

/// an incremental solver whose assertion stack mirrors a path condition
struct Inc {
    s: P,
    stack: Vec<E>,
}

/// keep an intermediate term alive (results of the C API only live until the next call)
unsafe fn k(c: P, a: P) -> P {
    Z3_inc_ref(c, a);
    a
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err);
            let bvs = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, bvs);
            let is = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, is);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), rlimit);
            Z3_solver_set_params(c, bvs, p);
            Z3_solver_set_params(c, is, p);
            Z3 {
                c,
                memo: vec![],
                bv: Inc { s: bvs, stack: vec![] },
                ints: Inc { s: is, stack: vec![] },
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time_ns: 0,
                dump: std::env::var("SYMLL_DUMP").ok(),
            }
        }
    }

    fn bool_to_bv(&mut self, a: P, w: u32) -> P {
        let c = self.c;
        unsafe {
            let s = k(c, Z3_mk_bv_sort(self.c, w));
            k(c, Z3_mk_ite(self.c, a, k(c, Z3_mk_unsigned_int64(self.c, 1, s)), k(c, Z3_mk_unsigned_int64(self.c, 0, s))))
        }
    }

    pub fn tr(&mut self, e: E) -> P {
        let i = e.0 as usize;
        if self.memo.len() <= i {
            self.memo.resize(ctx().nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.memo[i].is_null() {
            return self.memo[i];
        }
        let n = node(e);
        let c = self.c;
        let w = n.w;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = ctx().consts[n.a as usize];
                    if w == 1 {
                        if v != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = k(c, Z3_mk_bv_sort(c, w as u32));
                        if v <= u64::MAX as u128 {
                            k(c, Z3_mk_unsigned_int64(c, v as u64, s))
                        } else {
                            Z3_mk_numeral(c, cs(&v.to_string()).as_ptr(), s)
                        }
                    }
                }
                Op::IConst => {
                    let v = ctx().consts[n.a as usize] as i128;
                    Z3_mk_numeral(c, cs(&v.to_string()).as_ptr(), k(c, Z3_mk_int_sort(c)))
                }
                Op::Var | Op::IVar => {
                    let s = if w == 1 {
                        k(c, Z3_mk_bool_sort(c))
                    } else if w == INT {
                        k(c, Z3_mk_int_sort(c))
                    } else {
                        k(c, Z3_mk_bv_sort(c, w as u32))
                    };
                    let nm = format!("{}!{}", ctx().vars[n.a as usize].1, n.a);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&nm).as_ptr()), s)
                }
                Op::Ite | Op::IIte => {
                    let (x, y, z) = (self.tr(E(n.a)), self.tr(E(n.b)), self.tr(E(n.c)));
                    k(c, Z3_mk_ite(c, x, y, z))
                }
                Op::Not => {
                    let x = self.tr(E(n.a));
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        k(c, Z3_mk_bvnot(c, x))
                    }
                }
                Op::Extract => {
                    let x = self.tr(E(n.a));
                    let r = k(c, Z3_mk_extract(c, n.b + w as u32 - 1, n.b, x));
                    if w == 1 {
                        let s = k(c, Z3_mk_bv_sort(c, 1));
                        Z3_mk_eq(c, r, k(c, Z3_mk_unsigned_int64(c, 1, s)))
                    } else {
                        r
                    }
                }
                Op::ZExt | Op::SExt => {
                    let aw = width(E(n.a));
                    let x = self.tr(E(n.a));
                    if aw == 1 {
                        if n.op == Op::ZExt {
                            self.bool_to_bv(x, w as u32)
                        } else {
                            let s = k(c, Z3_mk_bv_sort(c, w as u32));
                            let z = k(c, Z3_mk_unsigned_int64(c, 0, s));
                            k(c, Z3_mk_ite(c, x, k(c, Z3_mk_bvnot(c, z)), z))
                        }
                    } else if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, (w - aw) as u32, x)
                    } else {
                        Z3_mk_sign_ext(c, (w - aw) as u32, x)
                    }
                }
                Op::Concat => {
                    let (aw, bw) = (width(E(n.a)), width(E(n.b)));
                    let mut x = self.tr(E(n.a));
                    let mut y = self.tr(E(n.b));
                    if aw == 1 {
                        x = self.bool_to_bv(x, 1);
                    }
                    if bw == 1 {
                        y = self.bool_to_bv(y, 1);
                    }
                    Z3_mk_concat(c, x, y)
                }
                Op::IFromU | Op::IFromS => {
                    let aw = width(E(n.a));
                    let mut x = self.tr(E(n.a));
                    if aw == 1 {
                        x = self.bool_to_bv(x, 1);
                    }
                    Z3_mk_bv2int(c, x, n.op == Op::IFromS)
                }
                op => {
                    let x = self.tr(E(n.a));
                    let y = self.tr(E(n.b));
                    let ab = [x, y];
                    if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
                        match op {
                            Op::And => Z3_mk_and(c, 2, ab.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, ab.as_ptr()),
                            _ => Z3_mk_xor(c, x, y),
                        }
                    } else {
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Eq | Op::IEq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            Op::Sle => Z3_mk_bvsle(c, x, y),
                            Op::IAdd => Z3_mk_add(c, 2, ab.as_ptr()),
                            Op::IMul => Z3_mk_mul(c, 2, ab.as_ptr()),
                            Op::IDivE => Z3_mk_div(c, x, y),
                            Op::ILe => Z3_mk_le(c, x, y),
                            _ => unreachable!("{:?}", op),
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        if self.memo.len() <= i {
            self.memo.resize(ctx().nodes.len().max(i + 1), std::ptr::null_mut());
        }
        self.memo[i] = r;
        r
    }

    /// Is `pc /\ extra` satisfiable?  Returns a model over all variables known so far.
    pub fn check(&mut self, pc: &[E], extra: &[E], with_int: bool) -> (Res, Option<Model>) {
        let t = Instant::now();
        let c = self.c;
        let mut all: Vec<E> = Vec::with_capacity(pc.len() + 1);
        all.extend_from_slice(pc);
        let asts: Vec<P> = extra.iter().map(|&e| self.tr(e)).collect();
        // translate before touching the stacks
        for &e in pc {
            self.tr(e);
        }
        let inc = if with_int { &mut self.ints } else { &mut self.bv };
        let common = inc.stack.iter().zip(pc.iter()).take_while(|(a, b)| a == b).count();
        let r;
        unsafe {
            let pops = inc.stack.len() - common;
            if pops > 0 {
                Z3_solver_pop(c, inc.s, pops as c_uint);
                inc.stack.truncate(common);
            }
            for &e in &pc[common..] {
                Z3_solver_push(c, inc.s);
                Z3_solver_assert(c, inc.s, self.memo[e.0 as usize]);
                inc.stack.push(e);
            }
            Z3_solver_push(c, inc.s);
            for a in asts {
                Z3_solver_assert(c, inc.s, a);
            }
            r = match Z3_solver_check(c, inc.s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
        }
        let s = inc.s;
        if let Some(d) = &self.dump {
            use std::io::Write;
            let txt = unsafe { CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned() };
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(d).unwrap();
            writeln!(f, "; {:?} {}us\n(push)\n{}(check-sat)\n(pop)", r, t.elapsed().as_micros(), txt).unwrap();
        }
        let model = if r == Res::Sat { Some(self.model(s)) } else { None };
        if r == Res::Unknown {
            let m = unsafe { CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)) };
            eprintln!("solver unknown: {:?}", m);
        }
        unsafe { Z3_solver_pop(c, s, 1) };
        self.queries += 1;
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.time_ns += t.elapsed().as_nanos() as u64;
        (r, model)
    }

    fn model(&mut self, s: P) -> Model {
        let c = self.c;
        let n = ctx().vars.len();
        let mut out = vec![0u128; n];
        unsafe {
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            for i in 0..n {
                let (w, _) = ctx().vars[i];
                let v = ctx().mk_var_node(i as u32, w);
                // variables never translated are unconstrained
                if v.0 as usize >= self.memo.len() || self.memo[v.0 as usize].is_null() {
                    continue;
                }
                let t = self.memo[v.0 as usize];
                let mut o: P = std::ptr::null_mut();
                if !Z3_model_eval(c, m, t, true, &mut o) {
                    continue;
                }
                out[i] = if w == 1 {
                    (Z3_get_bool_value(c, o) == 1) as u128
                } else {
                    let s = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap();
                    if w == INT {
                        match s.parse::<i128>() {
                            Ok(v) => v as u128,
                            Err(_) => {
                                eprintln!("integer model value out of range: {}", s);
                                0
                            }
                        }
                    } else {
                        s.parse::<u128>().unwrap()
                    }
                };
            }
            Z3_model_dec_ref(c, m);
        }
        out
    }
}

impl Ctx {
    pub fn mk_var_node(&mut self, i: u32, w: u16) -> E {
        self.var_node(i, w)
    }
}
