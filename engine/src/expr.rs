//! Hash-consed bit-vector / bool / Int expression DAG with a local simplifier.
//!
//! Width 1 nodes are booleans, width `INT` nodes are mathematical integers; everything else is a
//! bit-vector of that width (at most 128 bits when constant-foldable, wider only via Concat, which we
//! never build beyond 128).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let x = self.0 ^ (self.0 >> 32);
        let x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);

pub const INT: u16 = 0xffff;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, // a = index of constant
    Var,   // a = variable index
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high, b = low
    Extract, // b = low bit
    ZExt,
    SExt,
    // integers
    IVar,
    IConst,
    IFromU, // unsigned bit-vector to integer
    IFromS, // signed bit-vector to integer
    IAdd,
    IMul,
    ILe,
    IEq,
    IIte,
    IDivE, // Euclidean (SMT-LIB) div by positive constant
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    memo: FxMap<Node, u32>,
    pub consts: Vec<u128>,
    cmemo: FxMap<u128, u32>,
    exmemo: FxMap<u64, u32>,
    kcache: Box<[(u128, u16, u32)]>,
    pub vars: Vec<(u16, String)>,
    /// 0 = no variable, n+1 = only variable n, u32::MAX = several
    pub sup: Vec<u32>,
    eval_gen: Vec<u32>,
    eval_val: Vec<u128>,
    gen: u32,
}

pub const MULTI: u32 = u32::MAX;

static mut CTX: *mut Ctx = std::ptr::null_mut();

#[inline(always)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx::new()));
        }
        &mut *CTX
    }
}

#[inline(always)]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline(always)]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Ctx {
    fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            memo: Default::default(),
            consts: vec![],
            cmemo: Default::default(),
            exmemo: Default::default(),
            kcache: vec![(0, 0xfffe, 0); 1 << 14].into_boxed_slice(),
            vars: vec![],
            sup: vec![],
            eval_gen: vec![],
            eval_val: vec![],
            gen: 0,
        };
        // E(0) is reserved
        c.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 }, 0);
        c.consts.push(0);
        c
    }
    fn push(&mut self, n: Node, sup: u32) -> u32 {
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.sup.push(sup);
        self.eval_gen.push(0);
        self.eval_val.push(0);
        i
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&i) = self.memo.get(&n) {
            return E(i);
        }
        let s = |c: &Ctx, x: u32| c.sup[x as usize];
        let comb = |a: u32, b: u32| {
            if a == 0 {
                b
            } else if b == 0 || a == b {
                a
            } else {
                MULTI
            }
        };
        let sup = match n.op {
            Op::Const | Op::IConst => 0,
            Op::Var | Op::IVar => n.a + 1,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::IFromU | Op::IFromS => s(self, n.a),
            Op::Ite | Op::IIte => comb(comb(s(self, n.a), s(self, n.b)), s(self, n.c)),
            _ => comb(s(self, n.a), s(self, n.b)),
        };
        let i = self.push(n, sup);
        self.memo.insert(n, i);
        E(i)
    }
    pub fn var_node(&mut self, i: u32, w: u16) -> E {
        self.mk(Node { op: if w == INT { Op::IVar } else { Op::Var }, w, a: i, b: 0, c: 0 })
    }
    fn cidx(&mut self, v: u128) -> u32 {
        if let Some(&i) = self.cmemo.get(&v) {
            return i;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        self.cmemo.insert(v, i);
        i
    }
}

pub fn node(e: E) -> Node {
    ctx().nodes[e.0 as usize]
}
pub fn width(e: E) -> u16 {
    ctx().nodes[e.0 as usize].w
}
pub fn cval(e: E) -> Option<u128> {
    let c = ctx();
    let n = &c.nodes[e.0 as usize];
    if n.op == Op::Const {
        Some(c.consts[n.a as usize])
    } else {
        None
    }
}
pub fn support(e: E) -> u32 {
    ctx().sup[e.0 as usize]
}

pub fn konst(v: u128, w: u16) -> E {
    let c = ctx();
    let v = v & mask(w);
    let h = (((v as u64) ^ ((v >> 64) as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ ((w as u64) << 40)).wrapping_mul(0xd6e8feb86659fd93) >> 50) as usize;
    let s = unsafe { c.kcache.get_unchecked_mut(h) };
    if s.0 == v && s.1 == w {
        return E(s.2);
    }
    let a = c.cidx(v);
    let e = c.mk(Node { op: Op::Const, w, a, b: 0, c: 0 });
    ctx().kcache[h] = (v, w, e.0);
    e
}
pub fn var(name: String, w: u16) -> E {
    let c = ctx();
    let a = c.vars.len() as u32;
    c.vars.push((w, name));
    c.mk(Node { op: if w == INT { Op::IVar } else { Op::Var }, w, a, b: 0, c: 0 })
}
pub fn tt() -> E {
    konst(1, 1)
}
pub fn ff() -> E {
    konst(0, 1)
}

fn raw(op: Op, w: u16, a: E, b: E) -> E {
    ctx().mk(Node { op, w, a: a.0, b: b.0, c: 0 })
}

pub fn fold_bin(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sx(x, w);
                if y >= w as u128 {
                    if s < 0 {
                        m
                    } else {
                        0
                    }
                } else {
                    (s >> y) as u128
                }
            }
            _ => return None,
        } & m,
    )
}
pub fn fold_cmp(op: Op, w: u16, x: u128, y: u128) -> bool {
    match op {
        Op::Eq => x == y,
        Op::Ult => x < y,
        Op::Ule => x <= y,
        Op::Slt => sx(x, w) < sx(y, w),
        Op::Sle => sx(x, w) <= sx(y, w),
        _ => unreachable!(),
    }
}

pub fn not(a: E) -> E {
    let w = width(a);
    if let Some(c) = cval(a) {
        return konst(!c, w);
    }
    let n = node(a);
    if n.op == Op::Not {
        return E(n.a);
    }
    if w == 1 {
        match n.op {
            Op::Ult => return raw(Op::Ule, 1, E(n.b), E(n.a)),
            Op::Ule => return raw(Op::Ult, 1, E(n.b), E(n.a)),
            Op::Slt => return raw(Op::Sle, 1, E(n.b), E(n.a)),
            Op::Sle => return raw(Op::Slt, 1, E(n.b), E(n.a)),
            _ => {}
        }
    }
    raw(Op::Not, w, a, E(0))
}

/// upper bound on the number of significant bits
fn ubits(e: E) -> u16 {
    let n = node(e);
    match n.op {
        Op::Const => (128 - cval(e).unwrap().leading_zeros()) as u16,
        Op::ZExt => width(E(n.a)),
        _ => n.w,
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?} {:?} {:?}", op, node(a), node(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if let Some(r) = fold_bin(op, w, x, y) {
            return konst(r, w);
        }
    }
    let m = mask(w);
    if w == 1 {
        // booleans: map arithmetic to logic
        match op {
            Op::Add | Op::Sub => return bin(Op::Xor, a, b),
            Op::Mul => return bin(Op::And, a, b),
            _ => {}
        }
    }
    // canonical order for commutative operators: constant on the right
    let (a, b, ca, cb) = match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => {
            if ca.is_some() || (cb.is_none() && a.0 > b.0) {
                (b, a, cb, ca)
            } else {
                (a, b, ca, cb)
            }
        }
        _ => (a, b, ca, cb),
    };
    if w > 8 {
        // operate on the significant bits only
        let (ua, ub) = (ubits(a), ubits(b));
        let k = match op {
            Op::Add => ua.max(ub) + 1,
            Op::Mul => ua + ub,
            Op::UDiv | Op::URem if cb != Some(0) => ua.max(ub),
            _ => w,
        };
        if k < w && ua > 0 && ub > 0 && !(ub == 1 && op == Op::Mul && cb.is_some()) {
            let (x, y) = (extract(a, 0, k), extract(b, 0, k));
            return zext(bin(op, x, y), w);
        }
    }
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(y) = cb {
                let n = node(a);
                if n.op == Op::Add {
                    if let Some(z) = cval(E(n.b)) {
                        return bin(Op::Add, E(n.a), konst(y.wrapping_add(z), w));
                    }
                }
                if n.op == Op::Ite {
                    if cval(E(n.b)).is_some() && cval(E(n.c)).is_some() {
                        return ite(E(n.a), bin(Op::Add, E(n.b), b), bin(Op::Add, E(n.c), b));
                    }
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, w);
            }
            if let Some(y) = cb {
                return bin(Op::Add, a, konst(y.wrapping_neg(), w));
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(y) = cb {
                if y.is_power_of_two() {
                    return bin(Op::Shl, a, konst(y.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(y) = cb {
                if y.is_power_of_two() {
                    return bin(Op::LShr, a, konst(y.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(y) = cb {
                if y.is_power_of_two() {
                    return bin(Op::And, a, konst(y - 1, w));
                }
            }
        }
        Op::And => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(m) || a == b {
                return a;
            }
            if w == 1 && (not(a) == b) {
                return ff();
            }
            if let Some(y) = cb {
                let n = node(a);
                // (x & c1) & c2
                if n.op == Op::And {
                    if let Some(z) = cval(E(n.b)) {
                        return bin(Op::And, E(n.a), konst(y & z, w));
                    }
                }
                // low mask = zext(extract)
                if w > 1 && y != m && (y + 1).is_power_of_two() {
                    let k = y.trailing_ones() as u16;
                    return zext(extract(a, 0, k), w);
                }
                if n.op == Op::ZExt {
                    let iw = width(E(n.a));
                    return zext(bin(Op::And, E(n.a), konst(y, iw)), w);
                }
                if n.op == Op::Ite && cval(E(n.b)).is_some() && cval(E(n.c)).is_some() {
                    return ite(E(n.a), bin(Op::And, E(n.b), b), bin(Op::And, E(n.c), b));
                }
            }
            let (na, nb) = (node(a), node(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let k = width(E(na.a)).max(width(E(nb.a)));
                return zext(bin(Op::And, zext(E(na.a), k), zext(E(nb.a), k)), w);
            }
        }
        Op::Or => {
            if cb == Some(0) || a == b {
                return a;
            }
            if cb == Some(m) {
                return b;
            }
            if w == 1 && (not(a) == b) {
                return tt();
            }
            let (na, nb) = (node(a), node(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let k = width(E(na.a)).max(width(E(nb.a)));
                return zext(bin(Op::Or, zext(E(na.a), k), zext(E(nb.a), k)), w);
            }
            // zext(x) | (y << k) with k >= width(x): concatenation
            if w > 1 {
                if let Some(r) = or_concat(a, b, w).or_else(|| or_concat(b, a, w)) {
                    return r;
                }
            }
            if let Some(y) = cb {
                if na.op == Op::Or {
                    if let Some(z) = cval(E(na.b)) {
                        return bin(Op::Or, E(na.a), konst(y | z, w));
                    }
                }
            }
        }
        Op::Xor => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return konst(0, w);
            }
            if cb == Some(m) {
                return not(a);
            }
            if w == 1 {
                if node(a).op == Op::Not {
                    return not(bin(Op::Xor, E(node(a).a), b));
                }
                if node(b).op == Op::Not {
                    return not(bin(Op::Xor, a, E(node(b).a)));
                }
            }
            let (na, nb) = (node(a), node(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let k = width(E(na.a)).max(width(E(nb.a)));
                return zext(bin(Op::Xor, zext(E(na.a), k), zext(E(nb.a), k)), w);
            }
            if let Some(y) = cb {
                if na.op == Op::ZExt && y <= mask(width(E(na.a))) {
                    let iw = width(E(na.a));
                    return zext(bin(Op::Xor, E(na.a), konst(y, iw)), w);
                }
            }
        }
        Op::Shl => {
            if cb == Some(0) || ca == Some(0) {
                return a;
            }
            if let Some(y) = cb {
                if y >= w as u128 {
                    return konst(0, w);
                }
                let k = y as u16;
                return concat(extract(a, 0, w - k), konst(0, k));
            }
        }
        Op::LShr => {
            if cb == Some(0) || ca == Some(0) {
                return a;
            }
            if let Some(y) = cb {
                if y >= w as u128 {
                    return konst(0, w);
                }
                let k = y as u16;
                return zext(extract(a, k, w - k), w);
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(y) = cb {
                let k = (y.min(w as u128 - 1)) as u16;
                return sext(extract(a, k, w - k), w);
            }
        }
        _ => {}
    }
    raw(op, w, a, b)
}

/// `lo | hi` where the upper bits of `lo` and the lower bits of `hi` are known zero.
fn or_concat(lo: E, hi: E, w: u16) -> Option<E> {
    let nl = node(lo);
    let nh = node(hi);
    if nh.op != Op::Concat {
        return None;
    }
    if cval(E(nh.b)) != Some(0) {
        return None;
    }
    let k = width(E(nh.b));
    let lw = if nl.op == Op::ZExt {
        width(E(nl.a))
    } else if let Some(c) = cval(lo) {
        (128 - c.leading_zeros()) as u16
    } else if nl.op == Op::Concat && cval(E(nl.a)) == Some(0) {
        width(E(nl.b))
    } else {
        return None;
    };
    if lw <= k {
        return Some(concat(E(nh.a), extract(lo, 0, k)));
    }
    let _ = w;
    None
}

pub fn cmp(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (cval(a), cval(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(fold_cmp(op, w, x, y) as u128, 1);
    }
    if a == b {
        return konst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
    }
    if w == 1 {
        match op {
            Op::Eq => return not(bin(Op::Xor, a, b)),
            Op::Ult => return bin(Op::And, not(a), b),
            Op::Ule => return bin(Op::Or, not(a), b),
            Op::Slt => return bin(Op::And, a, not(b)),
            Op::Sle => return bin(Op::Or, a, not(b)),
            _ => {}
        }
    }
    let m = mask(w);
    match op {
        Op::Eq => {
            let (a, b, cb) = if ca.is_some() || (cb.is_none() && a.0 > b.0) { (b, a, ca) } else { (a, b, cb) };
            let na = node(a);
            if let Some(y) = cb {
                match na.op {
                    Op::ZExt => {
                        let iw = width(E(na.a));
                        if y > mask(iw) {
                            return ff();
                        }
                        return cmp(Op::Eq, E(na.a), konst(y, iw));
                    }
                    Op::SExt => {
                        let iw = width(E(na.a));
                        let t = y & mask(iw);
                        if (sx(t, iw) as u128) & m != y {
                            return ff();
                        }
                        return cmp(Op::Eq, E(na.a), konst(t, iw));
                    }
                    Op::Concat => {
                        let lw = width(E(na.b));
                        let hw = w - lw;
                        let l = cmp(Op::Eq, E(na.b), konst(y, lw));
                        if l == ff() {
                            return l;
                        }
                        let h = cmp(Op::Eq, E(na.a), konst(y >> lw, hw));
                        return bin(Op::And, h, l);
                    }
                    Op::Add => {
                        if let Some(z) = cval(E(na.b)) {
                            return cmp(Op::Eq, E(na.a), konst(y.wrapping_sub(z), w));
                        }
                    }
                    Op::Xor => {
                        if let Some(z) = cval(E(na.b)) {
                            return cmp(Op::Eq, E(na.a), konst(y ^ z, w));
                        }
                    }
                    Op::Not => return cmp(Op::Eq, E(na.a), konst(!y, w)),
                    Op::Sub => {
                        if y == 0 {
                            return cmp(Op::Eq, E(na.a), E(na.b));
                        }
                        if let Some(z) = cval(E(na.a)) {
                            return cmp(Op::Eq, E(na.b), konst(z.wrapping_sub(y), w));
                        }
                    }
                    Op::Ite => {
                        let (t, f) = (E(na.b), E(na.c));
                        if cval(t).is_some() || cval(f).is_some() {
                            let x = cmp(Op::Eq, t, b);
                            let z = cmp(Op::Eq, f, b);
                            if cval(x).is_some() || cval(z).is_some() {
                                return ite(E(na.a), x, z);
                            }
                        }
                    }
                    _ => {}
                }
            } else {
                let nb = node(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let k = width(E(na.a)).max(width(E(nb.a)));
                    return cmp(Op::Eq, zext(E(na.a), k), zext(E(nb.a), k));
                }
                if na.op == Op::SExt && nb.op == Op::SExt && width(E(na.a)) == width(E(nb.a)) {
                    return cmp(Op::Eq, E(na.a), E(nb.a));
                }
                if na.op == Op::Concat && nb.op == Op::Concat && width(E(na.b)) == width(E(nb.b)) {
                    return bin(
                        Op::And,
                        cmp(Op::Eq, E(na.a), E(nb.a)),
                        cmp(Op::Eq, E(na.b), E(nb.b)),
                    );
                }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return cmp(Op::Eq, E(na.a), E(nb.a));
                }
            }
            raw(Op::Eq, 1, a, b)
        }
        Op::Ult => {
            if cb == Some(0) {
                return ff();
            }
            if cb == Some(1) {
                return cmp(Op::Eq, a, konst(0, w));
            }
            if ca == Some(m) {
                return ff();
            }
            if ca == Some(0) {
                return not(cmp(Op::Eq, b, konst(0, w)));
            }
            if let Some(y) = cb {
                if y == m {
                    return not(cmp(Op::Eq, a, b));
                }
            }
            if let Some(r) = cmp_ext(op, a, b, w) {
                return r;
            }
            raw(Op::Ult, 1, a, b)
        }
        Op::Ule => {
            if cb == Some(m) || ca == Some(0) {
                return tt();
            }
            if cb == Some(0) {
                return cmp(Op::Eq, a, b);
            }
            if ca == Some(m) {
                return cmp(Op::Eq, a, b);
            }
            if let Some(x) = ca {
                if x == 1 {
                    return not(cmp(Op::Eq, b, konst(0, w)));
                }
            }
            if let Some(r) = cmp_ext(op, a, b, w) {
                return r;
            }
            raw(Op::Ule, 1, a, b)
        }
        Op::Slt | Op::Sle => {
            // sign known: compare unsigned
            if let Some(r) = cmp_ext(op, a, b, w) {
                return r;
            }
            // x <s 0  ->  top bit
            if op == Op::Slt && cb == Some(0) {
                return extract(a, w - 1, 1);
            }
            if op == Op::Sle && ca == Some(0) {
                return not(extract(b, w - 1, 1));
            }
            if op == Op::Slt && ca == Some(m) {
                return not(extract(b, w - 1, 1));
            }
            if op == Op::Sle && cb == Some(m) {
                return extract(a, w - 1, 1);
            }
            raw(op, 1, a, b)
        }
        _ => unreachable!(),
    }
}

fn zbits(e: E) -> Option<(E, u16)> {
    let n = node(e);
    match n.op {
        Op::ZExt => Some((E(n.a), width(E(n.a)))),
        Op::Concat if cval(E(n.a)) == Some(0) => Some((E(n.b), width(E(n.b)))),
        _ => None,
    }
}

fn cmp_ext(op: Op, a: E, b: E, w: u16) -> Option<E> {
    let za = zbits(a);
    let zb = zbits(b);
    let (ca, cb) = (cval(a), cval(b));
    let uop = match op {
        Op::Slt => Op::Ult,
        Op::Sle => Op::Ule,
        o => o,
    };
    let signed = matches!(op, Op::Slt | Op::Sle);
    match (za, zb, ca, cb) {
        (Some((x, xw)), Some((y, yw)), _, _) => {
            let k = xw.max(yw);
            Some(cmp(uop, zext(x, k), zext(y, k)))
        }
        (Some((x, xw)), None, _, Some(c)) => {
            if signed && sx(c, w) < 0 {
                return Some(ff());
            }
            if c > mask(xw) {
                return Some(tt());
            }
            Some(cmp(uop, x, konst(c, xw)))
        }
        (None, Some((y, yw)), Some(c), _) => {
            if signed && sx(c, w) < 0 {
                return Some(tt());
            }
            if c > mask(yw) {
                return Some(ff());
            }
            Some(cmp(uop, konst(c, yw), y))
        }
        _ => {
            // ite with constant leaves against a constant
            if let (Some(_), Op::Ite) = (cb, node(a).op) {
                let n = node(a);
                if cval(E(n.b)).is_some() || cval(E(n.c)).is_some() {
                    let x = cmp(op, E(n.b), b);
                    let z = cmp(op, E(n.c), b);
                    if cval(x).is_some() || cval(z).is_some() {
                        return Some(ite(E(n.a), x, z));
                    }
                }
            }
            if let (Some(_), Op::Ite) = (ca, node(b).op) {
                let n = node(b);
                if cval(E(n.b)).is_some() || cval(E(n.c)).is_some() {
                    let x = cmp(op, a, E(n.b));
                    let z = cmp(op, a, E(n.c));
                    if cval(x).is_some() || cval(z).is_some() {
                        return Some(ite(E(n.a), x, z));
                    }
                }
            }
            if !signed {
                // (x & k)-style known upper zero bits are handled by zext(extract)
                if let (Op::SExt, Some(c)) = (node(a).op, cb) {
                    let iw = width(E(node(a).a));
                    if iw > 1 && c <= mask(iw - 1) {
                        // a <u c with c small: need a's sign clear
                        let ns = not(extract(E(node(a).a), iw - 1, 1));
                        return Some(bin(Op::And, ns, cmp(op, E(node(a).a), konst(c, iw))));
                    }
                }
            }
            let _ = w;
            None
        }
    }
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(v) = cval(c) {
        return if v != 0 { t } else { f };
    }
    if t == f {
        return t;
    }
    let w = width(t);
    debug_assert_eq!(w, width(f));
    let nc = node(c);
    if nc.op == Op::Not {
        return ite(E(nc.a), f, t);
    }
    if w == 1 {
        match (cval(t), cval(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(Op::Or, c, f),
            (Some(0), _) => return bin(Op::And, not(c), f),
            (_, Some(0)) => return bin(Op::And, c, t),
            (_, Some(1)) => return bin(Op::Or, not(c), t),
            _ => {}
        }
    }
    let (nt, nf) = (node(t), node(f));
    if nt.op == Op::Ite && nt.a == c.0 {
        return ite(c, E(nt.b), f);
    }
    if nf.op == Op::Ite && nf.a == c.0 {
        return ite(c, t, E(nf.c));
    }
    // 0/1 valued of wider width
    if w > 1 {
        if let (Some(x), Some(y)) = (cval(t), cval(f)) {
            if x == 1 && y == 0 {
                return zext(c, w);
            }
            if x == 0 && y == 1 {
                return zext(not(c), w);
            }
            if x == mask(w) && y == 0 {
                return sext(c, w);
            }
        }
        let k = ubits(t).max(ubits(f));
        if k < w && (nt.op == Op::ZExt || nf.op == Op::ZExt || (w > 8 && nt.op == Op::Const && nf.op == Op::Const)) && k > 0 {
            return zext(ite(c, extract(t, 0, k), extract(f, 0, k)), w);
        }
        if nt.op == Op::ZExt {
            if let Some(y) = cval(f) {
                let iw = width(E(nt.a));
                if y <= mask(iw) {
                    return zext(ite(c, E(nt.a), konst(y, iw)), w);
                }
            }
        }
        if nf.op == Op::ZExt {
            if let Some(y) = cval(t) {
                let iw = width(E(nf.a));
                if y <= mask(iw) {
                    return zext(ite(c, konst(y, iw), E(nf.a)), w);
                }
            }
        }
    }
    ctx().mk(Node { op: Op::Ite, w, a: c.0, b: t.0, c: f.0 })
}

pub fn extract(a: E, lo: u16, w: u16) -> E {
    let aw = width(a);
    if lo == 0 && w == aw {
        return a;
    }
    debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
    if let Some(c) = cval(a) {
        return konst(c >> lo, w);
    }
    let n = node(a);
    if matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite | Op::Add | Op::Sub | Op::Mul) {
        let key = (a.0 as u64) << 32 | (lo as u64) << 16 | w as u64;
        if let Some(&r) = ctx().exmemo.get(&key) {
            return E(r);
        }
        let r = extract_(a, aw, n, lo, w);
        ctx().exmemo.insert(key, r.0);
        return r;
    }
    extract_(a, aw, n, lo, w)
}
fn extract_(a: E, aw: u16, n: Node, lo: u16, w: u16) -> E {
    match n.op {
        Op::Extract => return extract(E(n.a), lo + n.b as u16, w),
        Op::Concat => {
            let lw = width(E(n.b));
            if lo + w <= lw {
                return extract(E(n.b), lo, w);
            }
            if lo >= lw {
                return extract(E(n.a), lo - lw, w);
            }
            return concat(extract(E(n.a), 0, lo + w - lw), extract(E(n.b), lo, lw - lo));
        }
        Op::ZExt => {
            let iw = width(E(n.a));
            if lo >= iw {
                return konst(0, w);
            }
            if lo + w <= iw {
                return extract(E(n.a), lo, w);
            }
            return zext(extract(E(n.a), lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(E(n.a));
            if lo + w <= iw {
                return extract(E(n.a), lo, w);
            }
            if lo < iw {
                return sext(extract(E(n.a), lo, iw - lo), w);
            }
            return sext(extract(E(n.a), iw - 1, 1), w);
        }
        Op::And | Op::Or | Op::Xor => {
            if w >= 1 && (cval(E(n.b)).is_some() || node(E(n.b)).op == Op::Concat || node(E(n.a)).op == Op::Concat || w == 1) {
                return bin(n.op, extract(E(n.a), lo, w), extract(E(n.b), lo, w));
            }
        }
        Op::Not => return not(extract(E(n.a), lo, w)),
        Op::Ite => {
            if cval(E(n.b)).is_some() || cval(E(n.c)).is_some() || w == 1 {
                return ite(E(n.a), extract(E(n.b), lo, w), extract(E(n.c), lo, w));
            }
        }
        Op::Add | Op::Sub | Op::Mul => {
            // low bits depend on low bits only
            if lo == 0 && w < aw {
                return bin(n.op, extract(E(n.a), 0, w), extract(E(n.b), 0, w));
            }
        }
        _ => {}
    }
    ctx().mk(Node { op: Op::Extract, w, a: a.0, b: lo as u32, c: 0 })
}

pub fn concat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let (Some(x), Some(y)) = (cval(h), cval(l)) {
        if w <= 128 {
            return konst((x << lw) | y, w);
        }
    }
    if cval(h) == Some(0) {
        return zext(l, w);
    }
    let (nh, nl) = (node(h), node(l));
    // adjacent extracts of one expression
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 {
        return extract(E(nh.a), nl.b as u16, w);
    }
    if nl.op == Op::Concat {
        // concat(h, concat(x, y)) where h and x merge
        let x = E(nl.a);
        let nx = node(x);
        if nh.op == Op::Extract && nx.op == Op::Extract && nh.a == nx.a && nh.b == nx.b + width(x) as u32 {
            return concat(extract(E(nh.a), nx.b as u16, hw + width(x)), E(nl.b));
        }
        if cval(h).is_some() && cval(x).is_some() {
            return concat(concat(h, x), E(nl.b));
        }
    }
    if nh.op == Op::Extract && nh.a == l.0 && nh.b == lw as u32 {
        unreachable!()
    }
    // sign extension pattern is left to sext
    if nh.op == Op::ZExt {
        return zext(concat(E(nh.a), l), w);
    }
    if nh.op == Op::Concat {
        // right-assoc normal form
        return concat(E(nh.a), concat(E(nh.b), l));
    }
    // ite with same condition
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
        return ite(E(nh.a), concat(E(nh.b), E(nl.b)), concat(E(nh.c), E(nl.c)));
    }
    raw(Op::Concat, w, h, l)
}

pub fn zext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    debug_assert!(w > aw);
    if let Some(c) = cval(a) {
        return konst(c, w);
    }
    let n = node(a);
    if n.op == Op::ZExt {
        return zext(E(n.a), w);
    }
    ctx().mk(Node { op: Op::ZExt, w, a: a.0, b: 0, c: 0 })
}
pub fn sext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    debug_assert!(w > aw);
    if let Some(c) = cval(a) {
        return konst(sx(c, aw) as u128, w);
    }
    let n = node(a);
    if n.op == Op::SExt {
        return sext(E(n.a), w);
    }
    if n.op == Op::ZExt {
        return zext(E(n.a), w);
    }
    ctx().mk(Node { op: Op::SExt, w, a: a.0, b: 0, c: 0 })
}
/// truncate or zero-extend
pub fn resize(a: E, w: u16) -> E {
    let aw = width(a);
    if aw >= w {
        extract(a, 0, w)
    } else {
        zext(a, w)
    }
}

// ---- integers ----
pub fn iconst(v: i128) -> E {
    let c = ctx();
    let a = c.cidx(v as u128);
    c.mk(Node { op: Op::IConst, w: INT, a, b: 0, c: 0 })
}
pub fn icval(e: E) -> Option<i128> {
    let c = ctx();
    let n = &c.nodes[e.0 as usize];
    if n.op == Op::IConst {
        Some(c.consts[n.a as usize] as i128)
    } else {
        None
    }
}
pub fn ifrom(a: E, signed: bool) -> E {
    if let Some(c) = cval(a) {
        return iconst(if signed { sx(c, width(a)) } else { c as i128 });
    }
    let n = node(a);
    if n.op == Op::ZExt {
        return ifrom(E(n.a), false);
    }
    raw(if signed { Op::IFromS } else { Op::IFromU }, INT, a, E(0))
}
pub fn iadd(a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (icval(a), icval(b)) {
        return iconst(x + y);
    }
    if icval(a) == Some(0) {
        return b;
    }
    if icval(b) == Some(0) {
        return a;
    }
    raw(Op::IAdd, INT, a, b)
}
pub fn imul(a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (icval(a), icval(b)) {
        return iconst(x * y);
    }
    if icval(a) == Some(0) || icval(b) == Some(1) {
        return a;
    }
    if icval(b) == Some(0) || icval(a) == Some(1) {
        return b;
    }
    raw(Op::IMul, INT, a, b)
}
pub fn ile(a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (icval(a), icval(b)) {
        return konst((x <= y) as u128, 1);
    }
    if a == b {
        return tt();
    }
    raw(Op::ILe, 1, a, b)
}
pub fn ieq(a: E, b: E) -> E {
    if let (Some(x), Some(y)) = (icval(a), icval(b)) {
        return konst((x == y) as u128, 1);
    }
    if a == b {
        return tt();
    }
    raw(Op::IEq, 1, a, b)
}
pub fn iite(c: E, a: E, b: E) -> E {
    if let Some(v) = cval(c) {
        return if v != 0 { a } else { b };
    }
    if a == b {
        return a;
    }
    ctx().mk(Node { op: Op::IIte, w: INT, a: c.0, b: a.0, c: b.0 })
}

// ---- evaluation under a model ----
pub type Model = Vec<u128>;

pub fn eval(e: E, m: &Model) -> u128 {
    let c = ctx();
    c.gen = c.gen.wrapping_add(1);
    if c.gen == 0 {
        c.eval_gen.iter_mut().for_each(|g| *g = 0);
        c.gen = 1;
    }
    ev(c, e.0, m)
}
/// are all of the expressions true?
pub fn eval_all<'a>(es: impl Iterator<Item = &'a E>, m: &Model) -> bool {
    let c = ctx();
    c.gen = c.gen.wrapping_add(1);
    if c.gen == 0 {
        c.eval_gen.iter_mut().for_each(|g| *g = 0);
        c.gen = 1;
    }
    for &e in es {
        if ev(c, e.0, m) == 0 {
            return false;
        }
    }
    true
}
fn ev(c: &mut Ctx, e: u32, m: &Model) -> u128 {
    if c.eval_gen[e as usize] == c.gen {
        return c.eval_val[e as usize];
    }
    let n = c.nodes[e as usize];
    let w = n.w;
    let r = match n.op {
        Op::Const | Op::IConst => c.consts[n.a as usize],
        Op::Var => m.get(n.a as usize).copied().unwrap_or(0) & mask(w),
        Op::IVar => m.get(n.a as usize).copied().unwrap_or(0),
        Op::Not => !ev(c, n.a, m) & mask(w),
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
            let aw = c.nodes[n.a as usize].w;
            let (x, y) = (ev(c, n.a, m), ev(c, n.b, m));
            fold_cmp(n.op, aw, x, y) as u128
        }
        Op::Ite | Op::IIte => {
            if ev(c, n.a, m) != 0 {
                ev(c, n.b, m)
            } else {
                ev(c, n.c, m)
            }
        }
        Op::Concat => {
            let lw = c.nodes[n.b as usize].w;
            (ev(c, n.a, m) << lw) | ev(c, n.b, m)
        }
        Op::Extract => (ev(c, n.a, m) >> n.b) & mask(w),
        Op::ZExt => ev(c, n.a, m),
        Op::SExt => {
            let aw = c.nodes[n.a as usize].w;
            sx(ev(c, n.a, m), aw) as u128 & mask(w)
        }
        Op::IFromU => ev(c, n.a, m),
        Op::IFromS => {
            let aw = c.nodes[n.a as usize].w;
            sx(ev(c, n.a, m), aw) as u128
        }
        Op::IAdd => ev(c, n.a, m).wrapping_add(ev(c, n.b, m)),
        Op::IMul => ev(c, n.a, m).wrapping_mul(ev(c, n.b, m)),
        Op::ILe => ((ev(c, n.a, m) as i128) <= (ev(c, n.b, m) as i128)) as u128,
        Op::IEq => (ev(c, n.a, m) == ev(c, n.b, m)) as u128,
        Op::IDivE => (ev(c, n.a, m) as i128).div_euclid(ev(c, n.b, m) as i128) as u128,
        op => {
            let (x, y) = (ev(c, n.a, m), ev(c, n.b, m));
            fold_bin(op, w, x, y).unwrap()
        }
    };
    c.eval_gen[e as usize] = c.gen;
    c.eval_val[e as usize] = r;
    r
}

/// variables occurring in `e`
pub fn vars_of(e: E, out: &mut Vec<u32>) {
    let c = ctx();
    c.gen = c.gen.wrapping_add(1);
    if c.gen == 0 {
        c.eval_gen.iter_mut().for_each(|g| *g = 0);
        c.gen = 1;
    }
    fn go(c: &mut Ctx, e: u32, out: &mut Vec<u32>) {
        if c.eval_gen[e as usize] == c.gen {
            return;
        }
        c.eval_gen[e as usize] = c.gen;
        let s = c.sup[e as usize];
        if s == 0 {
            return;
        }
        if s != MULTI {
            out.push(s - 1);
            return;
        }
        let n = c.nodes[e as usize];
        match n.op {
            Op::Const | Op::IConst | Op::Var | Op::IVar => {}
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::IFromU | Op::IFromS => go(c, n.a, out),
            Op::Ite | Op::IIte => {
                go(c, n.a, out);
                go(c, n.b, out);
                go(c, n.c, out);
            }
            _ => {
                go(c, n.a, out);
                go(c, n.b, out);
            }
        }
    }
    go(c, e.0, out);
    out.sort_unstable();
    out.dedup();
}

/// `e` with the variables for which `f` gives a value replaced by it
pub fn subst(e: E, f: &dyn Fn(u32) -> Option<u128>, memo: &mut FxMap<u32, E>) -> E {
    let n = node(e);
    if matches!(n.op, Op::Const | Op::IConst) {
        return e;
    }
    if let Some(&r) = memo.get(&e.0) {
        return r;
    }
    let mut g = |x: u32| subst(E(x), f, memo);
    let r = match n.op {
        Op::Const | Op::IConst | Op::IVar => e,
        Op::Var => match f(n.a) {
            Some(v) => konst(v, n.w),
            None => e,
        },
        Op::Not => not(g(n.a)),
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => cmp(n.op, g(n.a), g(n.b)),
        Op::Ite => {
            let c = g(n.a);
            match cval(c) {
                Some(0) => g(n.c),
                Some(_) => g(n.b),
                None => ite(c, g(n.b), g(n.c)),
            }
        }
        Op::Concat => concat(g(n.a), g(n.b)),
        Op::Extract => extract(g(n.a), n.b as u16, n.w),
        Op::ZExt => zext(g(n.a), n.w),
        Op::SExt => sext(g(n.a), n.w),
        Op::IFromU => ifrom(g(n.a), false),
        Op::IFromS => ifrom(g(n.a), true),
        Op::IAdd => iadd(g(n.a), g(n.b)),
        Op::IMul => imul(g(n.a), g(n.b)),
        Op::ILe => ile(g(n.a), g(n.b)),
        Op::IEq => ieq(g(n.a), g(n.b)),
        Op::IIte => {
            let c = g(n.a);
            iite(c, g(n.b), g(n.c))
        }
        Op::IDivE => e,
        op => bin(op, g(n.a), g(n.b)),
    };
    memo.insert(e.0, r);
    r
}
