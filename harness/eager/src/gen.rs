//! Formulas: their SMT-LIB text (what the real code is given) and their standard semantics (the oracle).
use crate::{sat, vrf};
use aws_smt_ir::logic::all::{Op, ALL};
use aws_smt_ir::logic::ArithOp;
use aws_smt_ir::model::Model;
use aws_smt_ir::{Constant, CoreOp, Symbol, Term};
use std::rc::Rc;
use vrf::Int;

/// A non-negative decimal literal whose digits may be symbolic.
#[derive(Clone)]
pub struct K(pub Vec<u8>);
impl K {
    pub fn of(n: u64) -> K {
        K(n.to_string().into_bytes())
    }
    pub fn lit(s: &str) -> K {
        K(s.as_bytes().to_vec())
    }
    /// one symbolic digit in lo..=hi
    pub fn dig(lo: u64, hi: u64, name: &str) -> K {
        K(vec![b'0' + lo as u8 + vrf::below(hi - lo + 1, name) as u8])
    }
    /// a symbolic number with exactly n digits
    pub fn num(n: usize, name: &str) -> K {
        let mut v = vec![];
        for i in 0..n {
            let lo = (i == 0 && n > 1) as u8;
            let nm = [name, "."].concat() + ["0", "1", "2", "3", "4", "5", "6", "7"][i];
            v.push(b'0' + lo + vrf::below(10 - lo as u64, &nm) as u8);
        }
        K(v)
    }
    pub fn dig2(mut self, lo: u64, hi: u64, name: &str) -> K {
        self.0.push(b'0' + lo as u8 + vrf::below(hi - lo + 1, name) as u8);
        self
    }
    pub fn cat(mut self, s: &str) -> K {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    fn val(&self, conc: bool, mach: bool) -> N {
        if mach {
            let mut v = 0i64;
            for &d in &self.0 {
                v = v.wrapping_mul(10).wrapping_add((d - b'0') as i64);
            }
            return N::M(v);
        }
        let mut v = Int::konst(0);
        let mut chunk = 0i64;
        let mut n = 0;
        for &d in &self.0 {
            let d = (d - b'0') as i64;
            chunk = chunk * 10 + d;
            n += 1;
            if n == 9 {
                v = v.mul(Int::konst(1000000000)).add(cv(chunk, conc));
                chunk = 0;
                n = 0;
            }
        }
        if n > 0 {
            let mut p = 1;
            for _ in 0..n {
                p *= 10
            }
            v = if self.0.len() < 9 { cv(chunk, conc) } else { v.mul(Int::konst(p)).add(cv(chunk, conc)) };
        }
        N::I(v)
    }
}
/// A value: a mathematical integer, or a machine integer where nothing can overflow (every variable is known
/// to be below 2^40 in absolute value, and the constants are short).
#[derive(Clone, Copy)]
pub enum N {
    I(Int),
    M(i64),
}
impl N {
    fn add(self, o: N) -> N {
        match (self, o) {
            (N::M(a), N::M(b)) => N::M(a.wrapping_add(b)),
            (a, b) => N::I(a.i().add(b.i())),
        }
    }
    fn mul(self, o: N) -> N {
        match (self, o) {
            (N::M(a), N::M(b)) => N::M(a.wrapping_mul(b)),
            (a, b) => N::I(a.i().mul(b.i())),
        }
    }
    fn neg(self) -> N {
        match self {
            N::M(a) => N::M(a.wrapping_neg()),
            N::I(a) => N::I(a.neg()),
        }
    }
    fn sub(self, o: N) -> N {
        match (self, o) {
            (N::M(a), N::M(b)) => N::M(a.wrapping_sub(b)),
            (a, b) => N::I(a.i().sub(b.i())),
        }
    }
    fn le(self, o: N) -> u8 {
        match (self, o) {
            (N::M(a), N::M(b)) => (a <= b) as u8,
            (a, b) => a.i().le(b.i()),
        }
    }
    fn lt(self, o: N) -> u8 {
        o.le(self) ^ 1
    }
    fn eq(self, o: N) -> u8 {
        match (self, o) {
            (N::M(a), N::M(b)) => (a == b) as u8,
            (a, b) => a.i().eq(b.i()),
        }
    }
    fn ite(c: u8, a: N, b: N) -> N {
        match (a, b) {
            // no branch: the condition is symbolic
            (N::M(a), N::M(b)) => {
                let m = (c as i64).wrapping_neg();
                N::M((a & m) | (b & !m))
            }
            (a, b) => N::I(Int::ite(c, a.i(), b.i())),
        }
    }
    fn i(self) -> Int {
        match self {
            N::I(a) => a,
            N::M(a) => Int::from(a),
        }
    }
    fn lit(v: i64) -> N {
        N::M(v)
    }
}
fn cv(v: i64, conc: bool) -> Int {
    if conc {
        Int::konst(vrf::conc(v as u64) as i64)
    } else {
        Int::from(v)
    }
}

pub type RT = Rc<T>;
pub type RF = Rc<F>;
#[derive(Clone)]
pub enum T {
    V(&'static str),
    K(K),
    Neg(RT),
    Add(Vec<RT>),
    Sub(Vec<RT>),
    /// constant (negative if the flag is set) times a term
    KMul(bool, K, RT),
    MulK(RT, bool, K),
    Ite(RF, RT, RT),
    App(&'static str, Vec<RT>),
    Let(Vec<(&'static str, RT)>, RT),
}
#[derive(Clone)]
pub enum F {
    True,
    False,
    V(&'static str),
    /// >=, >, <=, <, =, distinct
    Cmp(&'static str, Vec<RT>),
    Not(RF),
    /// and, or, xor, =>, = (bool)
    Con(&'static str, Vec<RF>),
    Ite(RF, RF, RF),
    LetI(Vec<(&'static str, RT)>, RF),
    LetB(&'static str, RF, RF),
    App(&'static str, Vec<RT>),
}
pub fn v(n: &'static str) -> RT {
    Rc::new(T::V(n))
}
pub fn k(k: K) -> RT {
    Rc::new(T::K(k))
}
pub fn neg(t: RT) -> RT {
    Rc::new(T::Neg(t))
}
pub fn add(t: Vec<RT>) -> RT {
    Rc::new(T::Add(t))
}
pub fn sub(t: Vec<RT>) -> RT {
    Rc::new(T::Sub(t))
}
pub fn kmul(c: K, t: RT) -> RT {
    Rc::new(T::KMul(false, c, t))
}
pub fn nmul(c: K, t: RT) -> RT {
    Rc::new(T::KMul(true, c, t))
}
pub fn mulk(t: RT, c: K) -> RT {
    Rc::new(T::MulK(t, false, c))
}
pub fn ite(c: RF, a: RT, b: RT) -> RT {
    Rc::new(T::Ite(c, a, b))
}
pub fn app(f: &'static str, a: Vec<RT>) -> RT {
    Rc::new(T::App(f, a))
}
pub fn cmp(op: &'static str, a: Vec<RT>) -> RF {
    Rc::new(F::Cmp(op, a))
}
pub fn not(f: RF) -> RF {
    Rc::new(F::Not(f))
}
pub fn con(op: &'static str, a: Vec<RF>) -> RF {
    Rc::new(F::Con(op, a))
}
pub fn leti(d: Vec<(&'static str, RT)>, b: RF) -> RF {
    Rc::new(F::LetI(d, b))
}
pub fn lett(d: Vec<(&'static str, RT)>, b: RT) -> RT {
    Rc::new(T::Let(d, b))
}
pub fn letb(n: &'static str, d: RF, b: RF) -> RF {
    Rc::new(F::LetB(n, d, b))
}
pub fn iteb(c: RF, a: RF, b: RF) -> RF {
    Rc::new(F::Ite(c, a, b))
}
pub fn pred(f: &'static str, a: Vec<RT>) -> RF {
    Rc::new(F::App(f, a))
}
pub fn tt() -> RF {
    Rc::new(F::True)
}
pub fn ff() -> RF {
    Rc::new(F::False)
}
pub fn bv(n: &'static str) -> RF {
    Rc::new(F::V(n))
}

type Out = Vec<u8>;
fn puts(o: &mut Out, s: &str) {
    o.extend_from_slice(s.as_bytes())
}
fn list<X>(o: &mut Out, op: &str, a: &[X], mut f: impl FnMut(&mut Out, &X)) {
    o.push(b'(');
    puts(o, op);
    for x in a {
        o.push(b' ');
        f(o, x)
    }
    o.push(b')')
}
fn pk(o: &mut Out, n: bool, k: &K) {
    if n {
        puts(o, "(- ")
    }
    o.extend_from_slice(&k.0);
    if n {
        o.push(b')')
    }
}
impl T {
    fn print(&self, o: &mut Out) {
        match self {
            T::V(n) => puts(o, n),
            T::K(k) => pk(o, false, k),
            T::Neg(t) => list(o, "-", std::slice::from_ref(t), |o, t| t.print(o)),
            T::Add(a) => list(o, "+", a, |o, t| t.print(o)),
            T::Sub(a) => list(o, "-", a, |o, t| t.print(o)),
            T::KMul(n, k, t) => {
                puts(o, "(* ");
                pk(o, *n, k);
                o.push(b' ');
                t.print(o);
                o.push(b')')
            }
            T::MulK(t, n, k) => {
                puts(o, "(* ");
                t.print(o);
                o.push(b' ');
                pk(o, *n, k);
                o.push(b')')
            }
            T::Ite(c, a, b) => {
                puts(o, "(ite ");
                c.print(o);
                o.push(b' ');
                a.print(o);
                o.push(b' ');
                b.print(o);
                o.push(b')')
            }
            T::App(f, a) => list(o, f, a, |o, t| t.print(o)),
            T::Let(ds, b) => {
                plet(o, ds);
                b.print(o);
                o.push(b')')
            }
        }
    }
}
fn plet(o: &mut Out, ds: &[(&'static str, RT)]) {
    puts(o, "(let (");
    for (n, d) in ds {
        o.push(b'(');
        puts(o, n);
        o.push(b' ');
        d.print(o);
        o.push(b')')
    }
    puts(o, ") ");
}
impl F {
    fn print(&self, o: &mut Out) {
        match self {
            F::True => puts(o, "true"),
            F::False => puts(o, "false"),
            F::V(n) => puts(o, n),
            F::Cmp(op, a) => list(o, op, a, |o, t| t.print(o)),
            F::Not(a) => list(o, "not", std::slice::from_ref(a), |o, t| t.print(o)),
            F::Con(op, a) => list(o, op, a, |o, t| t.print(o)),
            F::Ite(c, a, b) => {
                puts(o, "(ite ");
                c.print(o);
                o.push(b' ');
                a.print(o);
                o.push(b' ');
                b.print(o);
                o.push(b')')
            }
            F::LetI(ds, b) => {
                plet(o, ds);
                b.print(o);
                o.push(b')')
            }
            F::LetB(n, d, b) => {
                puts(o, "(let ((");
                puts(o, n);
                o.push(b' ');
                d.print(o);
                puts(o, ")) ");
                b.print(o);
                o.push(b')')
            }
            F::App(f, a) => list(o, f, a, |o, t| t.print(o)),
        }
    }
}

/// Declared functions: name, arity, and whether the result is Bool.
pub struct Decls {
    pub ints: Vec<&'static str>,
    pub bools: Vec<&'static str>,
    pub funs: Vec<(&'static str, usize, bool)>,
}
impl Decls {
    pub fn ints(i: &[&'static str]) -> Decls {
        Decls { ints: i.to_vec(), bools: vec![], funs: vec![] }
    }
}
pub fn script(d: &Decls, fs: &[RF]) -> String {
    let mut o = vec![];
    for n in &d.ints {
        puts(&mut o, "(declare-const ");
        puts(&mut o, n);
        puts(&mut o, " Int)");
    }
    for n in &d.bools {
        puts(&mut o, "(declare-const ");
        puts(&mut o, n);
        puts(&mut o, " Bool)");
    }
    for (n, ar, b) in &d.funs {
        puts(&mut o, "(declare-fun ");
        puts(&mut o, n);
        puts(&mut o, " (");
        for _ in 0..*ar {
            puts(&mut o, "Int ");
        }
        puts(&mut o, if *b { ") Bool)" } else { ") Int)" });
    }
    for f in fs {
        puts(&mut o, "(assert ");
        f.print(&mut o);
        puts(&mut o, ")\n");
    }
    unsafe { String::from_utf8_unchecked(o) }
}

/// An interpretation of the symbols.
pub struct Env<'m> {
    ints: Vec<(&'static str, N)>,
    bools: Vec<(&'static str, u8)>,
    model: Option<&'m Model<ALL>>,
    table: Vec<(&'static str, Vec<N>, N)>,
    btable: Vec<(&'static str, Vec<N>, u8)>,
    fresh: usize,
    /// symbolic constants are given one value per path (keeps `constant * variable` linear)
    conc: bool,
    mach: bool,
}
const UFN: [&str; 12] = ["uf.0", "uf.1", "uf.2", "uf.3", "uf.4", "uf.5", "uf.6", "uf.7", "uf.8", "uf.9", "uf.a", "uf.b"];
impl<'m> Env<'m> {
    pub fn int(&self, n: &str) -> N {
        for (a, i) in self.ints.iter().rev() {
            if *a == n {
                return *i;
            }
        }
        panic!("harness: undeclared int")
    }
    fn boolean(&self, n: &str) -> u8 {
        for (a, i) in self.bools.iter().rev() {
            if *a == n {
                return *i;
            }
        }
        panic!("harness: undeclared bool")
    }
    pub fn t(&mut self, t: &T) -> N {
        match t {
            T::V(n) => self.int(n),
            T::K(k) => k.val(self.conc, self.mach),
            T::Neg(a) => self.t(a).neg(),
            T::Add(a) => {
                let mut s = self.t(&a[0]);
                for x in &a[1..] {
                    s = s.add(self.t(x))
                }
                s
            }
            T::Sub(a) => {
                let mut s = self.t(&a[0]);
                for x in &a[1..] {
                    s = s.sub(self.t(x))
                }
                s
            }
            T::KMul(n, k, t) | T::MulK(t, n, k) => {
                let c = k.val(self.conc, self.mach);
                let c = if *n { c.neg() } else { c };
                c.mul(self.t(t))
            }
            T::Ite(c, a, b) => {
                let c = self.f(c);
                let (a, b) = (self.t(a), self.t(b));
                N::ite(c, a, b)
            }
            T::App(f, a) => {
                let a: Vec<N> = a.iter().map(|x| self.t(x)).collect();
                if let Some(r) = self.apply(f, &a) {
                    return r.0;
                }
                let mut r = N::I(Int::new(UFN[self.fresh]));
                self.fresh += 1;
                for (g, b, s) in &self.table {
                    if g == f {
                        r = N::ite(alleq(&a, b), *s, r);
                    }
                }
                self.table.push((f, a, r));
                r
            }
            T::Let(ds, b) => {
                let n = self.bind(ds);
                let r = self.t(b);
                self.ints.truncate(n);
                r
            }
        }
    }
    /// parallel bindings
    fn bind(&mut self, ds: &[(&'static str, RT)]) -> usize {
        let n = self.ints.len();
        let vals: Vec<N> = ds.iter().map(|(_, d)| self.t(d)).collect();
        for ((x, _), v) in ds.iter().zip(vals) {
            self.ints.push((x, v));
        }
        n
    }
    /// the model's definition of a function, applied
    fn apply(&self, f: &str, a: &[N]) -> Option<(N, u8)> {
        let m = self.model?;
        for d in m.defns() {
            if d.sym.to_string() == f {
                vrf::check(d.args.len() == a.len(), "model defines a function with its arity");
                let p: Vec<(String, N)> = d.args.iter().zip(a).map(|((s, _), v)| (s.to_string(), *v)).collect();
                return Some(self.mt(&d.body, &p));
            }
        }
        None
    }
    /// value of a term of the model
    fn mt(&self, t: &Term<ALL>, p: &[(String, N)]) -> (N, u8) {
        match t {
            Term::Constant(..) => (konst(t), 0),
            Term::Variable(x) => {
                let n = x.to_string();
                for (a, i) in p {
                    if *a == n {
                        return (*i, 0);
                    }
                }
                for (a, i) in &self.ints {
                    if *a == n {
                        return (*i, 0);
                    }
                }
                vrf::fail("model only mentions symbols of the script");
                (N::lit(0), 0)
            }
            Term::CoreOp(op) => match op.as_ref() {
                CoreOp::True => (N::lit(0), 1),
                CoreOp::False => (N::lit(0), 0),
                CoreOp::Ite(c, a, b) => {
                    let c = self.mt(c, p).1;
                    let (a, b) = (self.mt(a, p), self.mt(b, p));
                    (N::ite(c, a.0, b.0), (c & a.1) | ((c ^ 1) & b.1))
                }
                CoreOp::And(xs) => {
                    let mut r = 1;
                    for x in xs.iter() {
                        r &= self.mt(x, p).1
                    }
                    (N::lit(0), r)
                }
                CoreOp::Eq(xs) => {
                    let (a, b) = (self.mt(&xs[0], p), self.mt(&xs[1], p));
                    (N::lit(0), a.0.eq(b.0))
                }
                _ => {
                    vrf::fail("model body of an unexpected form");
                    (N::lit(0), 0)
                }
            },
            Term::OtherOp(op) => match op.as_ref() {
                Op::Arith(ArithOp::Neg(c)) => (self.mt(c, p).0.neg(), 0),
                Op::Arith(ArithOp::Plus(xs)) => {
                    let mut r = N::lit(0);
                    for x in xs.iter() {
                        r = r.add(self.mt(x, p).0)
                    }
                    (r, 0)
                }
                Op::Arith(ArithOp::Minus(xs)) => {
                    let mut r = self.mt(&xs[0], p).0;
                    for x in &xs[1..] {
                        r = r.sub(self.mt(x, p).0)
                    }
                    (r, 0)
                }
                Op::Arith(ArithOp::Mul(xs)) => {
                    let (a, b) = (self.mt(&xs[0], p).0, self.mt(&xs[1], p).0);
                    (a.mul(b), 0)
                }
                _ => {
                    vrf::fail("model body of an unexpected form");
                    (N::lit(0), 0)
                }
            },
            _ => {
                vrf::fail("model body of an unexpected form");
                (N::lit(0), 0)
            }
        }
    }
    pub fn f(&mut self, f: &F) -> u8 {
        match f {
            F::True => 1,
            F::False => 0,
            F::V(n) => self.boolean(n),
            F::Cmp(op, a) => {
                let a: Vec<N> = a.iter().map(|x| self.t(x)).collect();
                let mut r = 1;
                if *op == "distinct" {
                    for i in 0..a.len() {
                        for j in 0..i {
                            r &= a[i].eq(a[j]) ^ 1
                        }
                    }
                    return r;
                }
                for w in a.windows(2) {
                    let (x, y) = (w[0], w[1]);
                    r &= match *op {
                        ">=" => y.le(x),
                        "<=" => x.le(y),
                        ">" => y.lt(x),
                        "<" => x.lt(y),
                        _ => x.eq(y),
                    }
                }
                r
            }
            F::Not(a) => self.f(a) ^ 1,
            F::Con(op, a) => {
                let a: Vec<u8> = a.iter().map(|x| self.f(x)).collect();
                match *op {
                    "and" => a.iter().fold(1, |x, y| x & y),
                    "or" => a.iter().fold(0, |x, y| x | y),
                    "xor" => a.iter().fold(0, |x, y| x ^ y),
                    "=>" => {
                        // right associative
                        let mut r = a[a.len() - 1];
                        for i in (0..a.len() - 1).rev() {
                            r |= a[i] ^ 1
                        }
                        r
                    }
                    _ => {
                        let mut r = 1;
                        for w in a.windows(2) {
                            r &= w[0] ^ w[1] ^ 1
                        }
                        r
                    }
                }
            }
            F::Ite(c, a, b) => {
                let (c, a, b) = (self.f(c), self.f(a), self.f(b));
                (c & a) | ((c ^ 1) & b)
            }
            F::LetI(ds, b) => {
                let n = self.bind(ds);
                let r = self.f(b);
                self.ints.truncate(n);
                r
            }
            F::LetB(n, d, b) => {
                let d = self.f(d);
                self.bools.push((n, d));
                let r = self.f(b);
                self.bools.pop();
                r
            }
            F::App(f, a) => {
                let a: Vec<N> = a.iter().map(|x| self.t(x)).collect();
                if let Some(r) = self.apply(f, &a) {
                    return r.1;
                }
                let mut r = vrf::bit(UFN[self.fresh]);
                self.fresh += 1;
                for (g, b, s) in &self.btable {
                    if g == f {
                        let e = alleq(&a, b);
                        r = (e & *s) | ((e ^ 1) & r);
                    }
                }
                self.btable.push((f, a, r));
                r
            }
        }
    }
}
fn alleq(a: &[N], b: &[N]) -> u8 {
    let mut r = 1;
    for (x, y) in a.iter().zip(b) {
        r &= x.eq(*y)
    }
    r
}
/// a small integer constant: magnitude, sign and whether it is one
#[inline(never)]
fn small(t: &Term<ALL>) -> (u64, u8, u8) {
    match t {
        Term::Constant(c) => match c.as_ref() {
            Constant::Numeral(n) => {
                let (lo, more) = digits(n);
                (lo, 0, !more as u8 & (lo >> 40 == 0) as u8)
            }
            _ => (0, 0, 0),
        },
        Term::OtherOp(op) => match op.as_ref() {
            Op::Arith(ArithOp::Neg(Term::Constant(c))) => match c.as_ref() {
                Constant::Numeral(n) => {
                    let (lo, more) = digits(n);
                    (lo, 1, !more as u8 & (lo >> 40 == 0) as u8)
                }
                _ => (0, 0, 0),
            },
            _ => (0, 0, 0),
        },
        _ => (0, 0, 0),
    }
}
/// value of a constant of the model
pub fn konst(t: &Term<ALL>) -> N {
    vrf::merge(true);
    let (lo, neg, ok) = small(t);
    vrf::merge(false);
    if ok != 0 {
        let m = (neg as i64).wrapping_neg();
        return N::M((lo as i64 ^ m).wrapping_sub(m));
    }
    konst_big(t)
}
#[inline(never)]
fn konst_big(t: &Term<ALL>) -> N {
    match t {
        Term::Constant(c) => match c.as_ref() {
            Constant::Numeral(n) => {
                vrf::merge(true);
                let (lo, more) = digits(n);
                vrf::merge(false);
                if !more && lo >> 40 == 0 {
                    return N::M(lo as i64);
                }
                let ds = n.to_u32_digits();
                let mut v = Int::konst(0);
                for d in ds.iter().rev() {
                    v = v.mul(Int::konst(1 << 32)).add(Int::from(*d as i64));
                }
                N::I(v)
            }
            _ => {
                vrf::fail("model gives an Int symbol an integer");
                N::lit(0)
            }
        },
        Term::OtherOp(op) => match op.as_ref() {
            Op::Arith(ArithOp::Neg(c)) => konst(c).neg(),
            _ => {
                vrf::fail("model gives an Int symbol an integer");
                N::lit(0)
            }
        },
        _ => {
            vrf::fail("model gives an Int symbol an integer");
            N::lit(0)
        }
    }
}
pub fn boolean(t: &Term<ALL>) -> u8 {
    match t {
        Term::CoreOp(op) => match op.as_ref() {
            CoreOp::True => 1,
            CoreOp::False => 0,
            _ => {
                vrf::fail("model gives a Bool symbol a Boolean");
                0
            }
        },
        _ => {
            vrf::fail("model gives a Bool symbol a Boolean");
            0
        }
    }
}
/// The interpretation a model gives; symbols it leaves out may have any value.
pub fn env_model<'m>(d: &Decls, m: &'m Model<ALL>) -> Env<'m> {
    let mut e = Env { ints: vec![], bools: vec![], model: Some(m), table: vec![], btable: vec![], fresh: 0, conc: false, mach: true };
    for n in &d.ints {
        let val = match m.get_const_value(&Symbol(n.to_string()).into()) {
            Some(t) => konst(&t),
            None => N::I(Int::new(&["any.", n].concat())),
        };
        e.mach &= matches!(val, N::M(_));
        e.ints.push((n, val));
    }
    e.conc = !e.mach;
    for n in &d.bools {
        let val = match m.get_const_value(&Symbol(n.to_string()).into()) {
            Some(t) => boolean(&t),
            None => vrf::bit(&["any.", n].concat()),
        };
        e.bools.push((n, val));
    }
    e
}
/// Any interpretation over the unbounded integers.
pub fn env_any(d: &Decls) -> Env<'static> {
    let mut e = Env { ints: vec![], bools: vec![], model: None, table: vec![], btable: vec![], fresh: 0, conc: true, mach: false };
    for n in &d.ints {
        e.ints.push((n, N::I(Int::new(&["w.", n].concat()))));
    }
    for n in &d.bools {
        e.bools.push((n, vrf::bit(&["w.", n].concat())));
    }
    e
}

pub fn all(e: &mut Env, fs: &[RF]) -> u8 {
    let mut r = 1;
    for f in fs {
        r &= e.f(f)
    }
    r
}

/// Runs the real code and decides its answer, whatever assignment the SAT solver came up with.
pub fn decide(d: &Decls, fs: &[RF]) {
    let text = script(d, fs);
    vrf::note(&text);
    match sat::route() {
        sat::DIMACS => export(d, fs, &text),
        sat::BUILTIN => {
            let r = sat::run_builtin(&text);
            answer(d, fs, r);
            if vrf::native() {
                // the built-in solver picked its own assignment: the one to replay is given from outside
                answer(d, fs, sat::run_solve(&text));
            }
        }
        _ => answer(d, fs, sat::run_solve(&text)),
    }
}
/// Only an `unsat` answer is looked into.
pub fn decide_unsat(d: &Decls, fs: &[RF]) {
    let text = script(d, fs);
    vrf::note(&text);
    sat::VERDICT.store(true, std::sync::atomic::Ordering::Relaxed);
    match sat::run_solve(&text) {
        Ok(Some(_)) => vrf::cover("sat"),
        Ok(None) => {
            vrf::cover("unsat");
            no_solution(d, fs, "an unsat formula has no solution");
        }
        Err(_) => vrf::fail("a supported formula is accepted"),
    }
}
fn answer(d: &Decls, fs: &[RF], r: anyhow::Result<Option<Model<ALL>>>) {
    match r {
        Ok(Some(m)) => {
            vrf::cover("sat");
            let mut e = env_model(d, &m);
            let r = all(&mut e, fs);
            vrf::check8(r, "a model satisfies the formula");
        }
        Ok(None) => {
            vrf::cover("unsat");
            no_solution(d, fs, "an unsat formula has no solution");
        }
        Err(_) => {
            vrf::cover("rejected");
            vrf::fail("a supported formula is accepted");
        }
    }
}
fn no_solution(d: &Decls, fs: &[RF], what: &str) {
    let mut e = env_any(d);
    let r = all(&mut e, fs);
    vrf::check8(r ^ 1, what);
}
/// `encode` writes a well-formed DIMACS problem that is satisfiable exactly when the formula is.
fn export(d: &Decls, fs: &[RF], text: &str) {
    let mut out = Vec::new();
    let r = amzn_smt_eager_arithmetic::encode(text.as_bytes(), &mut out);
    if r.is_err() {
        return vrf::fail("a supported formula is accepted by encode");
    }
    let (nv, nc, cl) = match sat::parse(&out) {
        Some(x) => x,
        None => return vrf::fail("encode writes DIMACS"),
    };
    vrf::check(cl.len() as u64 == nc, "the DIMACS header counts the clauses");
    let mut fits = 1;
    for c in &cl {
        for l in c {
            fits &= (l.unsigned_abs() <= nv) as u8;
        }
    }
    vrf::check8(fits, "the DIMACS header covers every variable");
    let (sat_, _) = sat::holds(nv, &cl, "cnf.");
    let sat_ = if vrf::native() {
        // the solver's own verdict on the file
        let mut s = varisat::solver::Solver::new();
        s.add_dimacs_cnf(&out[..]).unwrap();
        s.solve().unwrap()
    } else {
        let p = vrf::possible(sat_);
        if p {
            vrf::assume8(sat_);
        }
        p
    };
    if sat_ {
        vrf::cover("sat");
        match sat::run_solve(text) {
            Ok(Some(m)) => {
                let mut e = env_model(d, &m);
                let r = all(&mut e, fs);
                vrf::check8(r, "a satisfiable DIMACS problem comes from a satisfiable formula");
            }
            _ => vrf::fail("encode and solve build equally satisfiable problems"),
        }
    } else {
        vrf::cover("unsat");
        no_solution(d, fs, "an unsatisfiable DIMACS problem comes from an unsatisfiable formula");
    }
}

#[inline(never)]
fn digits(n: &aws_smt_ir::smt2parser::Numeral) -> (u64, bool) {
    let mut i = n.iter_u64_digits();
    let lo = i.next().unwrap_or(0);
    (lo, i.next().is_some())
}
