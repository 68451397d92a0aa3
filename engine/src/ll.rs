//! Parser for textual LLVM IR (the dialect rustc's LLVM prints) and lowering to a register form.
use crate::expr::{Fx, FxMap, E};
use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Void,
    I(u16),
    F32,
    F64,
    Ptr,
    Vec(u32, Rc<T>),
    Arr(u64, Rc<T>),
    St(Rc<Vec<T>>, bool),
    Meta,
    Label,
}

impl T {
    pub fn align(&self) -> u64 {
        match self {
            T::I(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            T::F32 => 4,
            T::F64 | T::Ptr => 8,
            T::Vec(..) => self.size().next_power_of_two(),
            T::Arr(_, t) => t.align(),
            T::St(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            T::I(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            T::F32 => 4,
            T::F64 | T::Ptr => 8,
            T::Vec(n, t) => ((*n as u64) * t.bits() as u64 + 7) / 8,
            T::Arr(n, t) => n * t.size(),
            T::St(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            T::St(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            T::Arr(_, t) => t.size() * i as u64,
            T::Vec(_, t) => t.size() * i as u64,
            _ => panic!("offset in {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> T {
        match self {
            T::St(f, _) => f[i].clone(),
            T::Arr(_, t) | T::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    /// bits of a first-class scalar or packed vector
    pub fn bits(&self) -> u16 {
        match self {
            T::I(w) => *w,
            T::F32 => 32,
            T::F64 | T::Ptr => 64,
            T::Vec(n, t) => (*n as u16) * t.bits(),
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, T::I(_) | T::F32 | T::F64 | T::Ptr | T::Vec(..))
    }
}

/// run-time value
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    W(Box<u128>),
    A(Rc<Vec<V>>),
}

pub type R = u32;
pub const CONST: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Same,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub to: u32,
    pub copies: Box<[(u32, R)]>,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(R),
    Asm(Rc<str>),
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub dst: u32,
    pub callee: Callee,
    pub args: Box<[(R, T)]>,
    pub ret: T,
    pub normal: Option<Edge>, // invoke
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { k: BinK, w: u16, dst: u32, a: R, b: R },
    VBin { k: BinK, n: u16, ew: u16, dst: u32, a: R, b: R },
    Icmp { p: Pred, w: u16, dst: u32, a: R, b: R },
    VIcmp { p: Pred, n: u16, ew: u16, dst: u32, a: R, b: R },
    FBin { op: u8, w: u16, dst: u32, a: R, b: R },
    FCmp { p: Rc<str>, w: u16, dst: u32, a: R, b: R },
    FNeg { w: u16, dst: u32, a: R },
    Cast { k: CastK, fw: u16, tw: u16, dst: u32, a: R },
    VCast { k: CastK, n: u16, fw: u16, tw: u16, dst: u32, a: R },
    Select { dst: u32, c: R, a: R, b: R, ty: Box<T> },
    VSelect { n: u16, ew: u16, dst: u32, c: R, a: R, b: R },
    Load { dst: u32, p: R, w: u16, bytes: u16 },
    LoadA { dst: u32, p: R, ty: Box<T> },
    Store { v: R, p: R, w: u16, bytes: u16 },
    StoreA { v: R, p: R, ty: Box<T> },
    Gep { dst: u32, base: R, off: u64, terms: Box<[(R, u16, u64)]> },
    Alloca { dst: u32, size: u64, align: u64, n: R },
    Call(Box<CallI>),
    Extract { dst: u32, a: R, idx: Box<[u32]> },
    Insert { dst: u32, a: R, v: R, idx: Box<[u32]> },
    VExtract { dst: u32, a: R, i: R, ew: u16 },
    VInsert { dst: u32, a: R, v: R, i: R, ew: u16, n: u16 },
    Shuffle { dst: u32, a: R, b: R, n: u16, ew: u16, mask: Box<[u32]> },
    AtomicRmw { dst: u32, op: Rc<str>, p: R, v: R, w: u16 },
    CmpXchg { dst: u32, p: R, c: R, n: R, w: u16 },
    Copy { dst: u32, a: R },
    Br(Edge),
    CondBr { c: R, t: Edge, f: Edge },
    Switch { v: R, w: u16, def: Edge, cases: Box<[(u128, Edge)]> },
    Ret(Option<R>),
    Unreachable,
    Resume,
    Nop,
}

pub struct Func {
    pub idx: u32,
    pub name: Rc<str>,
    pub nregs: u32,
    pub params: Vec<T>,
    pub ret: T,
    pub rw: Vec<u16>,
    pub consts: Vec<V>,
    pub blocks: Vec<Vec<Inst>>,
    pub ipdom: std::cell::OnceCell<Vec<u32>>,
    /// types of the registers that hold aggregates
    pub at: FxMap<u32, T>,
}

pub struct FDecl {
    pub name: Rc<str>,
    pub start: usize, // offset of "define" line, 0 if external
    pub body: std::cell::OnceCell<&'static Func>,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: T,
    pub init: Option<usize>, // text offset of the initializer
    pub addr: u64,
    pub align: u64,
}

pub struct Module {
    pub src: &'static [u8],
    pub types: HashMap<String, T>,
    pub globals: Vec<Global>,
    pub gmap: FxMap<Rc<str>, u32>,
    pub funcs: Vec<FDecl>,
    pub fmap: FxMap<Rc<str>, u32>,
    pub aliases: HashMap<String, usize>,
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(&'a [u8]),
    Global(&'a [u8]),
    Word(&'a [u8]),
    Int(&'a [u8]),
    Hex(&'a [u8]),
    Str(&'a [u8]),
    CStr(&'a [u8]),
    P(u8),
    Ellipsis,
    Meta,
    Attr,
    Eof,
}

struct Lx {
    s: &'static [u8],
    p: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

impl Lx {
    fn ws(&mut self) {
        loop {
            while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\n' | b'\t' | b'\r') {
                self.p += 1;
            }
            if self.p < self.s.len() && self.s[self.p] == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                return;
            }
        }
    }
    fn quoted(&mut self) -> &'static [u8] {
        // at opening quote
        let st = self.p + 1;
        let mut e = st;
        while self.s[e] != b'"' {
            e += 1;
        }
        self.p = e + 1;
        &self.s[st..e]
    }
    fn ident(&mut self) -> &'static [u8] {
        if self.s[self.p] == b'"' {
            return self.quoted();
        }
        let st = self.p;
        while self.p < self.s.len() && idch(self.s[self.p]) {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    fn next(&mut self) -> Tok<'static> {
        self.ws();
        if self.p >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.ident())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.ident())
            }
            b'!' => {
                self.p += 1;
                // metadata reference or inline node
                if self.p < self.s.len() {
                    let d = self.s[self.p];
                    if d == b'{' {
                        let mut depth = 0;
                        loop {
                            match self.s[self.p] {
                                b'{' => depth += 1,
                                b'}' => {
                                    depth -= 1;
                                    if depth == 0 {
                                        self.p += 1;
                                        break;
                                    }
                                }
                                b'"' => {
                                    self.quoted();
                                    continue;
                                }
                                _ => {}
                            }
                            self.p += 1;
                        }
                    } else if d == b'"' {
                        self.quoted();
                    } else {
                        self.ident();
                        // !DIFoo(...)
                        if self.p < self.s.len() && self.s[self.p] == b'(' {
                            self.skip_parens();
                        }
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                self.ident();
                Tok::Attr
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 1;
                Tok::CStr(self.quoted())
            }
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                Tok::Ellipsis
            }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                if c == b'0' && self.s[self.p] == b'x' {
                    while idch(self.s[self.p]) {
                        self.p += 1;
                    }
                    return Tok::Hex(&self.s[st + 2..self.p]);
                }
                let mut fl = false;
                while self.p < self.s.len() {
                    let d = self.s[self.p];
                    if d.is_ascii_digit() {
                    } else if d == b'.' || d == b'e' || ((d == b'+' || d == b'-') && fl) {
                        fl = true;
                    } else {
                        break;
                    }
                    self.p += 1;
                }
                Tok::Int(&self.s[st..self.p])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => Tok::Word(self.ident()),
            c => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    fn peek(&mut self) -> Tok<'static> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        let p = self.p;
        self.ws();
        if self.p < self.s.len() && self.s[self.p] == c {
            self.p += 1;
            true
        } else {
            self.p = p;
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected {}", c as char));
        }
    }
    fn word(&mut self, w: &str) -> bool {
        let p = self.p;
        if let Tok::Word(x) = self.next() {
            if x == w.as_bytes() {
                return true;
            }
        }
        self.p = p;
        false
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.quoted();
                    continue;
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn eol(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn err(&self, m: &str) -> ! {
        let mut st = self.p.min(self.s.len());
        while st > 0 && self.s[st - 1] != b'\n' {
            st -= 1;
        }
        let mut e = self.p;
        while e < self.s.len() && self.s[e] != b'\n' {
            e += 1;
        }
        eprintln!(
            "ll parse error: {} at col {} of line: {}",
            m,
            self.p - st,
            String::from_utf8_lossy(&self.s[st..e])
        );
        std::process::exit(3)
    }
}

fn parse_int(b: &[u8]) -> u128 {
    let s = std::str::from_utf8(b).unwrap();
    if let Some(n) = s.strip_prefix('-') {
        (n.parse::<u128>().unwrap()).wrapping_neg()
    } else {
        s.parse::<u128>().unwrap()
    }
}

pub fn mkc(v: u128, w: u16) -> V {
    let v = v & crate::expr::mask(w);
    if w <= 64 {
        V::C(v as u64)
    } else {
        V::W(Box::new(v))
    }
}

impl Module {
    pub fn load(src: Vec<u8>) -> Module {
        let src: &'static [u8] = Box::leak(src.into_boxed_slice());
        let mut m = Module {
            src,
            types: HashMap::new(),
            globals: vec![],
            gmap: Default::default(),
            funcs: vec![],
            fmap: Default::default(),
            aliases: HashMap::new(),
        };
        let mut p = 0;
        // pass 1: named types; pass over lines
        let mut lines = vec![];
        while p < src.len() {
            let e = src[p..].iter().position(|&c| c == b'\n').map(|k| p + k).unwrap_or(src.len());
            let l = &src[p..e];
            if !l.is_empty() {
                match l[0] {
                    b'%' | b'@' => lines.push(p),
                    b'd' if l.starts_with(b"define ") || l.starts_with(b"declare ") => lines.push(p),
                    _ => {}
                }
            }
            p = e + 1;
        }
        for &p in lines.iter().filter(|&&p| src[p] == b'%') {
            let mut l = Lx { s: src, p };
            let name = match l.next() {
                Tok::Local(n) => String::from_utf8_lossy(n).into_owned(),
                _ => l.err("type name"),
            };
            l.expect(b'=');
            l.word("type");
            if l.word("opaque") {
                continue;
            }
            let t = m.ty(&mut l);
            m.types.insert(name, t);
        }
        let mut gaddr = GLOBAL_BASE;
        for &p in &lines {
            match src[p] {
                b'd' => {
                    let e = src[p..].iter().position(|&c| c == b'@').map(|k| p + k).unwrap();
                    let mut l = Lx { s: src, p: e };
                    let name: Rc<str> = match l.next() {
                        Tok::Global(n) => unesc_name(n),
                        _ => l.err("fn name"),
                    };
                    let start = if src[p..].starts_with(b"define") { p } else { 0 };
                    let idx = m.funcs.len() as u32;
                    m.funcs.push(FDecl { name: name.clone(), start, body: Default::default() });
                    m.fmap.insert(name, idx);
                }
                b'@' => {
                    let mut l = Lx { s: src, p };
                    let name: Rc<str> = match l.next() {
                        Tok::Global(n) => unesc_name(n),
                        _ => l.err("global"),
                    };
                    l.expect(b'=');
                    let mut external = false;
                    let mut alias = false;
                    loop {
                        match l.next() {
                            Tok::Word(w) => match w {
                                b"external" | b"extern_weak" => external = true,
                                b"global" | b"constant" => break,
                                b"alias" => {
                                    alias = true;
                                    break;
                                }
                                _ => {
                                    if l.s[l.p] == b'(' {
                                        l.skip_parens()
                                    }
                                }
                            },
                            _ => l.err("global attrs"),
                        }
                    }
                    if alias {
                        let _ = m.ty(&mut l);
                        l.expect(b',');
                        let _ = m.ty(&mut l);
                        m.aliases.insert(name.to_string(), l.p);
                        continue;
                    }
                    let ty = m.ty(&mut l);
                    let init = if external { None } else { Some(l.p) };
                    let mut align = ty.align();
                    // find ", align N"
                    let mut l2 = Lx { s: src, p: l.p };
                    l2.eol();
                    let line = &src[l.p..l2.p];
                    if let Some(k) = find(line, b", align ") {
                        let d: String =
                            line[k + 8..].iter().take_while(|c| c.is_ascii_digit()).map(|&c| c as char).collect();
                        align = align.max(d.parse().unwrap_or(1));
                    }
                    align = align.max(16);
                    gaddr = (gaddr + align - 1) / align * align;
                    let sz = ty.size().max(1);
                    let idx = m.globals.len() as u32;
                    m.globals.push(Global { name: name.clone(), ty, init, addr: gaddr, align });
                    m.gmap.insert(name, idx);
                    gaddr += sz + 16;
                }
                _ => {}
            }
        }
        m
    }
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(&g) = self.gmap.get(n) {
            return Some(self.globals[g as usize].addr);
        }
        if let Some(&f) = self.fmap.get(n) {
            return Some(FUNC_BASE + 16 * f as u64);
        }
        if let Some(&p) = self.aliases.get(n) {
            let mut l = Lx { s: self.src, p };
            let v = self.constant(&mut l, &T::Ptr);
            if let V::C(a) = v {
                return Some(a);
            }
        }
        None
    }

    fn ty(&self, l: &mut Lx) -> T {
        let mut t = match l.next() {
            Tok::Word(w) => match w {
                b"void" => T::Void,
                b"ptr" => {
                    if l.word("addrspace") {
                        l.skip_parens();
                    }
                    T::Ptr
                }
                b"float" => T::F32,
                b"double" => T::F64,
                b"metadata" => T::Meta,
                b"label" => T::Label,
                b"token" => T::Meta,
                b"half" => T::I(16),
                b"fp128" => T::I(128),
                w if w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
                    T::I(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap())
                }
                _ => l.err("unknown type"),
            },
            Tok::Local(n) => {
                let n = std::str::from_utf8(n).unwrap();
                self.types.get(n).cloned().unwrap_or(T::St(Rc::new(vec![]), false))
            }
            Tok::P(b'{') => self.fields(l, b'}', false),
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let t = self.fields(l, b'}', true);
                    l.expect(b'>');
                    t
                } else {
                    let n = match l.next() {
                        Tok::Int(n) => parse_int(n) as u32,
                        _ => l.err("vector"),
                    };
                    l.word("x");
                    let t = self.ty(l);
                    l.expect(b'>');
                    T::Vec(n, Rc::new(t))
                }
            }
            Tok::P(b'[') => {
                let n = match l.next() {
                    Tok::Int(n) => parse_int(n) as u64,
                    _ => l.err("array"),
                };
                l.word("x");
                let t = self.ty(l);
                l.expect(b']');
                T::Arr(n, Rc::new(t))
            }
            _ => l.err("type expected"),
        };
        if l.s.get(l.p) == Some(&b'*') {
            l.p += 1;
            t = T::Ptr;
        }
        t
    }
    fn fields(&self, l: &mut Lx, close: u8, packed: bool) -> T {
        let mut f = vec![];
        if !l.eat(close) {
            loop {
                f.push(self.ty(l));
                if l.eat(close) {
                    break;
                }
                l.expect(b',');
            }
        }
        T::St(Rc::new(f), packed)
    }

    /// parse a constant of the given type
    fn constant(&self, l: &mut Lx, ty: &T) -> V {
        match l.next() {
            Tok::Int(b) => match ty {
                T::F64 => V::C(std::str::from_utf8(b).unwrap().parse::<f64>().unwrap().to_bits()),
                T::F32 => V::C((std::str::from_utf8(b).unwrap().parse::<f64>().unwrap() as f32).to_bits() as u64),
                _ => mkc(parse_int(b), ty.bits()),
            },
            Tok::Hex(h) => {
                let v = u64::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap();
                match ty {
                    T::F32 => V::C((f64::from_bits(v) as f32).to_bits() as u64),
                    _ => V::C(v),
                }
            }
            Tok::Global(n) => {
                let n = unesc_name(n);
                match self.sym_addr(&n) {
                    Some(a) => V::C(a),
                    None => l.err("unknown global"),
                }
            }
            Tok::CStr(b) => {
                let bytes = unesc(b);
                V::A(Rc::new(bytes.into_iter().map(|c| V::C(c as u64)).collect()))
            }
            Tok::P(b'{') => self.const_fields(l, b'}'),
            Tok::P(b'[') => self.const_fields(l, b']'),
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.const_fields(l, b'}');
                    l.expect(b'>');
                    v
                } else {
                    let v = self.const_fields(l, b'>');
                    // pack
                    let (n, ew) = match ty {
                        T::Vec(n, t) => (*n, t.bits()),
                        _ => l.err("vector constant"),
                    };
                    let mut r = 0u128;
                    if let V::A(a) = v {
                        for i in 0..n as usize {
                            r |= cv(&a[i]) << (i as u16 * ew);
                        }
                    }
                    mkc(r, ew * n as u16)
                }
            }
            Tok::Word(w) if w.starts_with(b"f0x") => {
                V::C(u64::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap())
            }
            Tok::Word(w) => match w {
                b"true" => V::C(1),
                b"false" | b"null" => V::C(0),
                b"none" => V::C(0),
                b"undef" | b"poison" | b"zeroinitializer" => zero(ty),
                b"splat" => {
                    l.expect(b'(');
                    let et = self.ty(l);
                    let v = cv(&self.constant(l, &et));
                    l.expect(b')');
                    let (n, ew) = match ty {
                        T::Vec(n, t) => (*n as u16, t.bits()),
                        _ => l.err("splat"),
                    };
                    let mut r = 0u128;
                    for i in 0..n {
                        r |= v << (i * ew);
                    }
                    mkc(r, ew * n)
                }
                b"getelementptr" => {
                    loop {
                        match l.peek() {
                            Tok::Word(_) => {
                                l.next();
                                if l.s[l.p] == b'(' && l.s[l.p - 1] == b'e' {
                                    // inrange(...)
                                    l.skip_parens();
                                }
                            }
                            _ => break,
                        }
                    }
                    l.expect(b'(');
                    let st = self.ty(l);
                    l.expect(b',');
                    let pt = self.ty(l);
                    let mut a = cv(&self.constant(l, &pt)) as u64;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat(b',') {
                        let it = self.ty(l);
                        let i = crate::expr::sx(cv(&self.constant(l, &it)), it.bits()) as i64;
                        if first {
                            a = a.wrapping_add((i as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            a = a.wrapping_add(cur.offset(i as usize));
                            cur = cur.elem(i as usize);
                        }
                    }
                    l.expect(b')');
                    V::C(a)
                }
                b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"zext" | b"addrspacecast" => {
                    l.expect(b'(');
                    let ft = self.ty(l);
                    let v = cv(&self.constant(l, &ft));
                    if !l.word("to") {
                        l.err("to");
                    }
                    let tt = self.ty(l);
                    l.expect(b')');
                    mkc(v, tt.bits())
                }
                b"add" | b"sub" | b"mul" | b"xor" | b"and" | b"or" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    let a = cv(&self.constant(l, &t));
                    l.expect(b',');
                    let t2 = self.ty(l);
                    let b = cv(&self.constant(l, &t2));
                    l.expect(b')');
                    let r = match w {
                        b"add" => a.wrapping_add(b),
                        b"sub" => a.wrapping_sub(b),
                        b"mul" => a.wrapping_mul(b),
                        b"xor" => a ^ b,
                        b"and" => a & b,
                        _ => a | b,
                    };
                    mkc(r, t.bits())
                }
                b"dso_local_equivalent" | b"no_cfi" => self.constant(l, ty),
                _ => l.err("constant word"),
            },
            _ => l.err("constant"),
        }
    }
    fn const_fields(&self, l: &mut Lx, close: u8) -> V {
        let mut f = vec![];
        if !l.eat(close) {
            loop {
                let t = self.ty(l);
                f.push(self.constant(l, &t));
                if l.eat(close) {
                    break;
                }
                l.expect(b',');
            }
        }
        V::A(Rc::new(f))
    }
    pub fn global_init(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let mut out = vec![0u8; g.ty.size() as usize];
        if let Some(p) = g.init {
            let mut l = Lx { s: self.src, p };
            // fast path for strings
            let v = self.constant(&mut l, &g.ty);
            put(&v, &g.ty, &mut out, 0);
        }
        out
    }

    pub fn func(&self, i: u32) -> Option<&'static Func> {
        let d = &self.funcs[i as usize];
        if d.start == 0 {
            return None;
        }
        Some(d.body.get_or_init(|| Box::leak(Box::new(self.lower(i)))))
    }

    fn lower(&self, fi: u32) -> Func {
        let d = &self.funcs[fi as usize];
        let mut l = Lx { s: self.src, p: d.start };
        l.next(); // define
        // linkage, cconv, ret attrs until a type
        self.skip_attrs(&mut l);
        let ret = self.ty(&mut l);
        l.next(); // name
        l.expect(b'(');
        let mut b = Lower {
            m: self,
            regs: Default::default(),
            nregs: 0,
            rw: vec![],
            consts: vec![],
            cmap: Default::default(),
            blocks: Default::default(),
            nblocks: 0,
            lastw: 0,
            lastt: None,
            at: Default::default(),
        };
        let mut params = vec![];
        let mut anon = 0;
        if !l.eat(b')') {
            loop {
                if l.peek() == Tok::Ellipsis {
                    l.next();
                } else {
                    let t = self.ty(&mut l);
                    self.skip_attrs(&mut l);
                    let name: &'static [u8] = match l.peek() {
                        Tok::Local(n) => {
                            l.next();
                            n
                        }
                        _ => {
                            let s: &'static str = Box::leak(format!("{}", anon).into_boxed_str());
                            s.as_bytes()
                        }
                    };
                    anon += 1;
                    let r = b.reg(name);
                    b.setw(r, t.bits());
                    params.push(t);
                }
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        // skip to body
        loop {
            match l.next() {
                Tok::P(b'{') => break,
                Tok::Word(_) => {
                    if l.s[l.p] == b'(' {
                        l.skip_parens();
                    }
                }
                Tok::Eof => l.err("no body"),
                _ => {}
            }
        }
        // entry label: next unnamed number or explicit label
        let mut blocks: Vec<(u32, Vec<PI>)> = vec![];
        // determine the label of the entry block
        {
            let p = l.p;
            let lbl = try_label(&mut l);
            let name: &'static [u8] = match lbl {
                Some(n) => n,
                None => {
                    l.p = p;
                    let s: &'static str = Box::leak(format!("{}", anon).into_boxed_str());
                    s.as_bytes()
                }
            };
            let id = b.block(name);
            blocks.push((id, vec![]));
        }
        loop {
            let p = l.p;
            if let Some(n) = try_label(&mut l) {
                let id = b.block(n);
                blocks.push((id, vec![]));
                continue;
            }
            l.p = p;
            if l.eat(b'}') {
                break;
            }
            let i = b.inst(&mut l);
            blocks.last_mut().unwrap().1.push(i);
        }
        // collect phis
        let nb = b.nblocks as usize;
        let mut phis: Vec<Vec<(u32, Vec<(R, u32)>)>> = vec![vec![]; nb];
        for (id, is) in &blocks {
            for i in is {
                if let PI::Phi(dst, inc) = i {
                    phis[*id as usize].push((*dst, inc.clone()));
                }
            }
        }
        let edge = |from: u32, to: u32| -> Edge {
            let copies: Vec<(u32, R)> = phis[to as usize]
                .iter()
                .map(|(d, inc)| {
                    let (r, _) = inc.iter().find(|(_, b)| *b == from).unwrap_or_else(|| {
                        eprintln!("phi without incoming edge in {}", d);
                        std::process::exit(3)
                    });
                    (*d, *r)
                })
                .collect();
            Edge { to, copies: copies.into_boxed_slice() }
        };
        let mut out: Vec<Vec<Inst>> = vec![vec![]; nb];
        for (id, is) in blocks {
            let mut v = vec![];
            for i in is {
                match i {
                    PI::Phi(..) => {}
                    PI::I(i) => v.push(i),
                    PI::Br(t) => v.push(Inst::Br(edge(id, t))),
                    PI::CondBr(c, t, f) => v.push(Inst::CondBr { c, t: edge(id, t), f: edge(id, f) }),
                    PI::Switch(val, w, def, cases) => v.push(Inst::Switch {
                        v: val,
                        w,
                        def: edge(id, def),
                        cases: cases.into_iter().map(|(k, t)| (k, edge(id, t))).collect(),
                    }),
                    PI::Invoke(mut c, t) => {
                        c.normal = Some(edge(id, t));
                        v.push(Inst::Call(c))
                    }
                }
            }
            out[id as usize] = v;
        }
        Func {
            idx: fi,
            name: d.name.clone(),
            nregs: b.nregs,
            rw: {
                b.rw.resize(b.nregs as usize, 0);
                b.rw
            },
            params,
            ret,
            consts: b.consts,
            blocks: out,
            ipdom: Default::default(),
            at: b.at,
        }
    }

    /// skip parameter / return attributes and linkage words in front of a type or an operand
    fn skip_attrs(&self, l: &mut Lx) {
        loop {
            let p = l.p;
            match l.next() {
                Tok::Word(w) if w.starts_with(b"f0x") => {
                    l.p = p;
                    return;
                }
                Tok::Word(w) => match w {
                    b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none"
                    | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"splat" | b"bitcast" | b"trunc" | b"sub"
                    | b"add" | b"xor" | b"void" | b"ptr" | b"float" | b"double" | b"metadata" | b"label"
                    | b"asm" | b"half" | b"mul" | b"and" | b"or" | b"addrspacecast" | b"no_cfi" | b"fp128" => {
                        l.p = p;
                        return;
                    }
                    b"align" => {
                        l.ws();
                        if l.s[l.p] == b'(' {
                            l.skip_parens();
                        } else {
                            l.next();
                        }
                    }
                    b"cc" => {
                        l.next();
                    }
                    w if w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()) => {
                        l.p = p;
                        return;
                    }
                    _ => {
                        if l.p < l.s.len() && l.s[l.p] == b'(' {
                            l.skip_parens();
                        }
                    }
                },
                Tok::Str(_) => {
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                Tok::Attr => {}
                _ => {
                    l.p = p;
                    return;
                }
            }
        }
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn unesc_name(b: &[u8]) -> Rc<str> {
    String::from_utf8_lossy(&unesc(b)).into_owned().into()
}

pub fn cv(v: &V) -> u128 {
    match v {
        V::C(c) => *c as u128,
        V::W(w) => **w,
        _ => {
            eprintln!("constant expected: {:?}", v);
            std::process::exit(3)
        }
    }
}

pub fn zero(ty: &T) -> V {
    match ty {
        T::St(f, _) => V::A(Rc::new(f.iter().map(zero).collect())),
        T::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| zero(t)).collect())),
        _ => mkc(0, ty.bits().max(1)),
    }
}

fn put(v: &V, ty: &T, out: &mut [u8], off: usize) {
    match (v, ty) {
        (V::A(a), T::St(..)) => {
            for (i, x) in a.iter().enumerate() {
                put(x, &ty.elem(i), out, off + ty.offset(i) as usize);
            }
        }
        (V::A(a), T::Arr(_, t)) => {
            let s = t.size() as usize;
            for (i, x) in a.iter().enumerate() {
                put(x, t, out, off + i * s);
            }
        }
        _ => {
            let c = cv(v);
            let n = (ty.bits() as usize + 7) / 8;
            for i in 0..n {
                out[off + i] = (c >> (8 * i)) as u8;
            }
        }
    }
}

fn try_label(l: &mut Lx) -> Option<&'static [u8]> {
    l.ws();
    let p = l.p;
    if l.s[p] == b'"' {
        let n = l.quoted();
        if l.s[l.p] == b':' {
            l.p += 1;
            return Some(n);
        }
        l.p = p;
        return None;
    }
    if !idch(l.s[p]) {
        return None;
    }
    let n = l.ident();
    if l.s[l.p] == b':' {
        l.p += 1;
        Some(n)
    } else {
        l.p = p;
        None
    }
}

enum PI {
    I(Inst),
    Phi(u32, Vec<(R, u32)>),
    Br(u32),
    CondBr(R, u32, u32),
    Switch(R, u16, u32, Vec<(u128, u32)>),
    Invoke(Box<CallI>, u32),
}

struct Lower<'m> {
    m: &'m Module,
    regs: HashMap<&'static [u8], u32, BuildHasherDefault<Fx>>,
    nregs: u32,
    rw: Vec<u16>,
    consts: Vec<V>,
    cmap: FxMap<u64, u32>,
    blocks: HashMap<&'static [u8], u32, BuildHasherDefault<Fx>>,
    nblocks: u32,
    lastw: u16,
    lastt: Option<T>,
    at: FxMap<u32, T>,
}

impl<'m> Lower<'m> {
    fn reg(&mut self, n: &'static [u8]) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn setw(&mut self, r: u32, w: u16) {
        if r == u32::MAX {
            return;
        }
        if self.rw.len() <= r as usize {
            self.rw.resize(r as usize + 1, 0);
        }
        self.rw[r as usize] = w;
    }
    fn block(&mut self, n: &'static [u8]) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, r);
        r
    }
    fn konst(&mut self, v: V) -> R {
        if let V::C(c) = v {
            if let Some(&i) = self.cmap.get(&c) {
                return CONST | i;
            }
            let i = self.consts.len() as u32;
            self.consts.push(V::C(c));
            self.cmap.insert(c, i);
            return CONST | i;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        CONST | i
    }
    fn opnd(&mut self, l: &mut Lx, ty: &T) -> R {
        if let Tok::Local(n) = l.peek() {
            l.next();
            return self.reg(n);
        }
        if *ty == T::Meta {
            // metadata argument
            match l.next() {
                Tok::Meta => {}
                _ => {
                    // `metadata ptr %x` and friends
                    l.next();
                }
            }
            return self.konst(V::C(0));
        }
        let v = self.m.constant(l, ty);
        self.konst(v)
    }
    fn tyop(&mut self, l: &mut Lx) -> (T, R) {
        let t = self.m.ty(l);
        self.m.skip_attrs(l);
        let r = self.opnd(l, &t);
        (t, r)
    }
    fn flags(&self, l: &mut Lx) {
        loop {
            let p = l.p;
            match l.next() {
                Tok::Word(
                    b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"fast"
                    | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"reassoc" | b"afn" | b"volatile" | b"atomic"
                    | b"inalloca" | b"swifterror" | b"weak",
                ) => {}
                Tok::Word(b"inrange") => l.skip_parens(),
                _ => {
                    l.p = p;
                    return;
                }
            }
        }
    }
    fn label(&mut self, l: &mut Lx) -> u32 {
        l.word("label");
        match l.next() {
            Tok::Local(n) => self.block(n),
            _ => l.err("label"),
        }
    }
    fn inst(&mut self, l: &mut Lx) -> PI {
        let p = l.p;
        let mut dst = u32::MAX;
        match l.next() {
            Tok::Local(n) => {
                dst = self.reg(n);
                l.expect(b'=');
            }
            _ => l.p = p,
        }
        let op = match l.next() {
            Tok::Word(w) => w,
            _ => l.err("instruction"),
        };
        let r = self.inst2(l, dst, op);
        let w = match &r {
            PI::I(i) => match i {
                Inst::Bin { w, .. } | Inst::FBin { w, .. } | Inst::FNeg { w, .. } | Inst::Load { w, .. } | Inst::AtomicRmw { w, .. } => *w,
                Inst::VBin { n, ew, .. } | Inst::VSelect { n, ew, .. } | Inst::VInsert { n, ew, .. } => n * ew,
                Inst::Shuffle { ew, mask, .. } => mask.len() as u16 * ew,
                Inst::VExtract { ew, .. } => *ew,
                Inst::Icmp { .. } | Inst::FCmp { .. } => 1,
                Inst::VIcmp { n, .. } => *n,
                Inst::Cast { tw, .. } => *tw,
                Inst::VCast { tw, n, .. } => tw * n,
                Inst::Select { ty, .. } => ty.bits(),
                Inst::Gep { .. } | Inst::Alloca { .. } => 64,
                Inst::Call(c) => c.ret.bits(),
                _ => self.lastw,
            },
            PI::Phi(..) => self.lastw,
            PI::Invoke(c, _) => c.ret.bits(),
            _ => 0,
        };
        let t = match &r {
            PI::I(Inst::Call(c)) => Some(c.ret.clone()),
            PI::Invoke(c, _) => Some(c.ret.clone()),
            PI::I(Inst::Select { ty, .. }) | PI::I(Inst::LoadA { ty, .. }) => Some((**ty).clone()),
            PI::I(Inst::CmpXchg { w, .. }) => Some(T::St(Rc::new(vec![T::I(*w), T::I(1)]), false)),
            _ => self.lastt.take(),
        };
        let mut w = w;
        if let Some(t) = t {
            if matches!(t, T::St(..) | T::Arr(..)) {
                self.at.insert(dst, t);
            } else if w == 0 {
                w = t.bits();
            }
        }
        self.lastt = None;
        self.setw(dst, w);
        self.lastw = 0;
        l.eol();
        r
    }
    fn inst2(&mut self, l: &mut Lx, dst: u32, op: &'static [u8]) -> PI {
        let bk = match op {
            b"add" => Some(BinK::Add),
            b"sub" => Some(BinK::Sub),
            b"mul" => Some(BinK::Mul),
            b"udiv" => Some(BinK::UDiv),
            b"sdiv" => Some(BinK::SDiv),
            b"urem" => Some(BinK::URem),
            b"srem" => Some(BinK::SRem),
            b"and" => Some(BinK::And),
            b"or" => Some(BinK::Or),
            b"xor" => Some(BinK::Xor),
            b"shl" => Some(BinK::Shl),
            b"lshr" => Some(BinK::LShr),
            b"ashr" => Some(BinK::AShr),
            _ => None,
        };
        if let Some(k) = bk {
            self.flags(l);
            let (t, a) = self.tyop(l);
            l.expect(b',');
            let b = self.opnd(l, &t);
            return PI::I(match &t {
                T::Vec(n, e) => Inst::VBin { k, n: *n as u16, ew: e.bits(), dst, a, b },
                _ => Inst::Bin { k, w: t.bits(), dst, a, b },
            });
        }
        let ck = match op {
            b"trunc" => Some(CastK::Trunc),
            b"zext" => Some(CastK::ZExt),
            b"sext" => Some(CastK::SExt),
            b"bitcast" | b"ptrtoint" | b"inttoptr" | b"addrspacecast" | b"ptrtoaddr" => Some(CastK::Same),
            b"uitofp" => Some(CastK::UiToFp),
            b"sitofp" => Some(CastK::SiToFp),
            b"fptoui" => Some(CastK::FpToUi),
            b"fptosi" => Some(CastK::FpToSi),
            b"fpext" => Some(CastK::FpExt),
            b"fptrunc" => Some(CastK::FpTrunc),
            _ => None,
        };
        if let Some(k) = ck {
            self.flags(l);
            let (ft, a) = self.tyop(l);
            if !l.word("to") {
                l.err("to");
            }
            let tt = self.m.ty(l);
            if k == CastK::Same {
                if ft.bits() == tt.bits() {
                    self.lastw = tt.bits();
                    return PI::I(Inst::Copy { dst, a });
                }
                // ptrtoint/inttoptr with a different width
                let k = if ft.bits() > tt.bits() { CastK::Trunc } else { CastK::ZExt };
                return PI::I(Inst::Cast { k, fw: ft.bits(), tw: tt.bits(), dst, a });
            }
            if let T::Vec(n, e) = &ft {
                return PI::I(Inst::VCast { k, n: *n as u16, fw: e.bits(), tw: tt.elem(0).bits(), dst, a });
            }
            return PI::I(Inst::Cast { k, fw: ft.bits(), tw: tt.bits(), dst, a });
        }
        match op {
            b"icmp" => {
                self.flags(l);
                let p = match l.next() {
                    Tok::Word(w) => match w {
                        b"eq" => Pred::Eq,
                        b"ne" => Pred::Ne,
                        b"ult" => Pred::Ult,
                        b"ule" => Pred::Ule,
                        b"ugt" => Pred::Ugt,
                        b"uge" => Pred::Uge,
                        b"slt" => Pred::Slt,
                        b"sle" => Pred::Sle,
                        b"sgt" => Pred::Sgt,
                        b"sge" => Pred::Sge,
                        _ => l.err("pred"),
                    },
                    _ => l.err("pred"),
                };
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let b = self.opnd(l, &t);
                PI::I(match &t {
                    T::Vec(n, e) => Inst::VIcmp { p, n: *n as u16, ew: e.bits(), dst, a, b },
                    _ => Inst::Icmp { p, w: t.bits(), dst, a, b },
                })
            }
            b"fcmp" => {
                self.flags(l);
                let p: Rc<str> = match l.next() {
                    Tok::Word(w) => std::str::from_utf8(w).unwrap().into(),
                    _ => l.err("pred"),
                };
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let b = self.opnd(l, &t);
                PI::I(Inst::FCmp { p, w: t.bits(), dst, a, b })
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.flags(l);
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let b = self.opnd(l, &t);
                PI::I(Inst::FBin { op: op[1], w: t.bits(), dst, a, b })
            }
            b"fneg" => {
                self.flags(l);
                let (t, a) = self.tyop(l);
                PI::I(Inst::FNeg { w: t.bits(), dst, a })
            }
            b"select" => {
                self.flags(l);
                let (ct, c) = self.tyop(l);
                l.expect(b',');
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let (_, b) = self.tyop(l);
                if let (T::Vec(n, _), T::Vec(_, e)) = (&ct, &t) {
                    return PI::I(Inst::VSelect { n: *n as u16, ew: e.bits(), dst, c, a, b });
                }
                PI::I(Inst::Select { dst, c, a, b, ty: Box::new(t) })
            }
            b"freeze" => {
                let (t, a) = self.tyop(l);
                self.lastt = Some(t.clone());
                self.lastw = t.bits();
                PI::I(Inst::Copy { dst, a })
            }
            b"load" => {
                self.flags(l);
                let t = self.m.ty(l);
                l.expect(b',');
                let (_, p) = self.tyop(l);
                PI::I(if t.is_scalar() {
                    Inst::Load { dst, p, w: t.bits(), bytes: (t.bits() + 7) / 8 }
                } else {
                    Inst::LoadA { dst, p, ty: Box::new(t) }
                })
            }
            b"store" => {
                self.flags(l);
                let (t, v) = self.tyop(l);
                l.expect(b',');
                let (_, p) = self.tyop(l);
                PI::I(if t.is_scalar() {
                    Inst::Store { v, p, w: t.bits(), bytes: (t.bits() + 7) / 8 }
                } else {
                    Inst::StoreA { v, p, ty: Box::new(t) }
                })
            }
            b"getelementptr" => {
                self.flags(l);
                let mut cur = self.m.ty(l);
                l.expect(b',');
                let (bt, base) = self.tyop(l);
                if let T::Vec(..) = bt {
                    l.err("vector gep");
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut first = true;
                while {
                    let p = l.p;
                    if l.eat(b',') {
                        if l.peek() == Tok::Meta {
                            l.p = p;
                            false
                        } else {
                            true
                        }
                    } else {
                        false
                    }
                } {
                    let (it, r) = self.tyop(l);
                    let ci = if r & CONST != 0 {
                        Some(crate::expr::sx(cv(&self.consts[(r & !CONST) as usize]), it.bits()) as i64)
                    } else {
                        None
                    };
                    if first {
                        first = false;
                        let sz = cur.size();
                        match ci {
                            Some(i) => off = off.wrapping_add((i as u64).wrapping_mul(sz)),
                            None => terms.push((r, it.bits(), sz)),
                        }
                    } else {
                        match (&cur, ci) {
                            (T::St(..), Some(i)) => {
                                off = off.wrapping_add(cur.offset(i as usize));
                                cur = cur.elem(i as usize);
                            }
                            (T::Arr(..) | T::Vec(..), ci) => {
                                let e = cur.elem(0);
                                let sz = e.size();
                                match ci {
                                    Some(i) => off = off.wrapping_add((i as u64).wrapping_mul(sz)),
                                    None => terms.push((r, it.bits(), sz)),
                                }
                                cur = e;
                            }
                            _ => l.err("gep"),
                        }
                    }
                }
                PI::I(Inst::Gep { dst, base, off, terms: terms.into_boxed_slice() })
            }
            b"alloca" => {
                self.flags(l);
                let t = self.m.ty(l);
                let mut n = self.konst(V::C(1));
                let mut align = t.align();
                while l.eat(b',') {
                    if l.word("align") {
                        if let Tok::Int(b) = l.next() {
                            align = align.max(parse_int(b) as u64);
                        }
                    } else if l.peek() == Tok::Meta {
                        break;
                    } else {
                        let (_, r) = self.tyop(l);
                        n = r;
                    }
                }
                PI::I(Inst::Alloca { dst, size: t.size(), align, n })
            }
            b"tail" | b"musttail" | b"notail" => {
                l.next();
                self.call(l, dst, false)
            }
            b"call" => self.call(l, dst, false),
            b"invoke" => self.call(l, dst, true),
            b"extractvalue" => {
                let (mut t, a) = self.tyop(l);
                let mut idx = vec![];
                while l.eat(b',') {
                    match l.next() {
                        Tok::Int(b) => idx.push(parse_int(b) as u32),
                        _ => break,
                    }
                }
                for i in &idx {
                    t = match &t {
                        T::St(f, _) => f[*i as usize].clone(),
                        T::Arr(_, e) => (**e).clone(),
                        _ => l.err("extractvalue type"),
                    };
                }
                self.lastw = t.bits();
                self.lastt = Some(t);
                PI::I(Inst::Extract { dst, a, idx: idx.into_boxed_slice() })
            }
            b"insertvalue" => {
                let (t, a) = self.tyop(l);
                self.lastt = Some(t);
                l.expect(b',');
                let (_, v) = self.tyop(l);
                let mut idx = vec![];
                while l.eat(b',') {
                    match l.next() {
                        Tok::Int(b) => idx.push(parse_int(b) as u32),
                        _ => break,
                    }
                }
                PI::I(Inst::Insert { dst, a, v, idx: idx.into_boxed_slice() })
            }
            b"extractelement" => {
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let (_, i) = self.tyop(l);
                PI::I(Inst::VExtract { dst, a, i, ew: t.elem(0).bits() })
            }
            b"insertelement" => {
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let (_, v) = self.tyop(l);
                l.expect(b',');
                let (_, i) = self.tyop(l);
                let n = match &t {
                    T::Vec(n, _) => *n as u16,
                    _ => 0,
                };
                PI::I(Inst::VInsert { dst, a, v, i, ew: t.elem(0).bits(), n })
            }
            b"shufflevector" => {
                let (t, a) = self.tyop(l);
                l.expect(b',');
                let (_, b) = self.tyop(l);
                l.expect(b',');
                let mt = self.m.ty(l);
                let mv = self.opnd_mask(l, &mt);
                let n = match &t {
                    T::Vec(n, _) => *n as u16,
                    _ => 0,
                };
                PI::I(Inst::Shuffle { dst, a, b, n, ew: t.elem(0).bits(), mask: mv.into_boxed_slice() })
            }
            b"atomicrmw" => {
                self.flags(l);
                let op: Rc<str> = match l.next() {
                    Tok::Word(w) => std::str::from_utf8(w).unwrap().into(),
                    _ => l.err("rmw"),
                };
                let (_, p) = self.tyop(l);
                l.expect(b',');
                let (t, v) = self.tyop(l);
                PI::I(Inst::AtomicRmw { dst, op, p, v, w: t.bits() })
            }
            b"cmpxchg" => {
                self.flags(l);
                let (_, p) = self.tyop(l);
                l.expect(b',');
                let (t, c) = self.tyop(l);
                l.expect(b',');
                let (_, n) = self.tyop(l);
                PI::I(Inst::CmpXchg { dst, p, c, n, w: t.bits() })
            }
            b"fence" => PI::I(Inst::Nop),
            b"phi" => {
                self.flags(l);
                let t = self.m.ty(l);
                self.lastw = t.bits();
                self.lastt = Some(t.clone());
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let r = self.opnd(l, &t);
                    l.expect(b',');
                    let b = match l.next() {
                        Tok::Local(n) => self.block(n),
                        _ => l.err("phi label"),
                    };
                    l.expect(b']');
                    inc.push((r, b));
                    let p = l.p;
                    if !l.eat(b',') {
                        break;
                    }
                    if l.peek() == Tok::Meta {
                        l.p = p;
                        break;
                    }
                }
                PI::Phi(dst, inc)
            }
            b"br" => {
                if let Tok::Word(b"label") = l.peek() {
                    let t = self.label(l);
                    return PI::Br(t);
                }
                let (_, c) = self.tyop(l);
                l.expect(b',');
                let t = self.label(l);
                l.expect(b',');
                let f = self.label(l);
                PI::CondBr(c, t, f)
            }
            b"switch" => {
                let (t, v) = self.tyop(l);
                l.expect(b',');
                let def = self.label(l);
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let ct = self.m.ty(l);
                    let c = cv(&self.m.constant(l, &ct));
                    l.expect(b',');
                    let b = self.label(l);
                    cases.push((c, b));
                }
                PI::Switch(v, t.bits(), def, cases)
            }
            b"ret" => {
                let t = self.m.ty(l);
                if t == T::Void {
                    return PI::I(Inst::Ret(None));
                }
                self.m.skip_attrs(l);
                let r = self.opnd(l, &t);
                PI::I(Inst::Ret(Some(r)))
            }
            b"unreachable" => PI::I(Inst::Unreachable),
            b"resume" => PI::I(Inst::Resume),
            b"landingpad" => {
                let _t = self.m.ty(l);
                loop {
                    l.eol();
                    let p = l.p;
                    match l.next() {
                        Tok::Word(b"cleanup") => {}
                        Tok::Word(b"catch") | Tok::Word(b"filter") => {}
                        _ => {
                            l.p = p;
                            break;
                        }
                    }
                }
                let k = self.konst(V::C(0));
                PI::I(Inst::Copy { dst, a: k })
            }
            _ => l.err("unknown instruction"),
        }
    }
    fn opnd_mask(&mut self, l: &mut Lx, t: &T) -> Vec<u32> {
        let n = match t {
            T::Vec(n, _) => *n as usize,
            _ => l.err("mask"),
        };
        match l.next() {
            Tok::Word(b"zeroinitializer" | b"undef" | b"poison") => vec![0; n],
            Tok::P(b'<') => {
                let mut v = vec![];
                loop {
                    let et = self.m.ty(l);
                    v.push(cv(&self.m.constant(l, &et)) as u32);
                    if l.eat(b'>') {
                        break;
                    }
                    l.expect(b',');
                }
                v
            }
            Tok::Word(b"splat") => {
                l.expect(b'(');
                let et = self.m.ty(l);
                let c = cv(&self.m.constant(l, &et)) as u32;
                l.expect(b')');
                vec![c; n]
            }
            _ => l.err("mask"),
        }
    }
    fn call(&mut self, l: &mut Lx, dst: u32, invoke: bool) -> PI {
        self.flags(l);
        self.m.skip_attrs(l);
        let ret = self.m.ty(l);
        // optional function type "(...)"
        l.ws();
        if l.s[l.p] == b'(' {
            l.skip_parens();
        }
        let callee = match l.next() {
            Tok::Global(n) => {
                let n = unesc_name(n);
                match self.m.fmap.get(&*n) {
                    Some(&f) => Callee::Direct(f),
                    None => match self.m.sym_addr(&n) {
                        Some(a) if a >= FUNC_BASE && a < GLOBAL_BASE => Callee::Direct(((a - FUNC_BASE) / 16) as u32),
                        _ => l.err("unknown callee"),
                    },
                }
            }
            Tok::Local(n) => Callee::Indirect(self.reg(n)),
            Tok::Word(b"asm") => {
                let mut txt = String::new();
                loop {
                    match l.next() {
                        Tok::Word(_) => {}
                        Tok::Str(s) => {
                            txt = String::from_utf8_lossy(s).into_owned();
                            break;
                        }
                        _ => l.err("asm"),
                    }
                }
                l.expect(b',');
                l.next();
                Callee::Asm(txt.into())
            }
            Tok::Word(b"inttoptr") => {
                l.err("call of constant");
            }
            _ => l.err("callee"),
        };
        l.expect(b'(');
        let mut args = vec![];
        if !l.eat(b')') {
            loop {
                let t = self.m.ty(l);
                let r = if t == T::Meta {
                    // skip until , or )
                    let mut d = 0;
                    loop {
                        match l.s[l.p] {
                            b'(' | b'{' => d += 1,
                            b')' if d == 0 => break,
                            b')' | b'}' => d -= 1,
                            b',' if d == 0 => break,
                            b'"' => {
                                l.quoted();
                                continue;
                            }
                            _ => {}
                        }
                        l.p += 1;
                    }
                    self.konst(V::C(0))
                } else {
                    self.m.skip_attrs(l);
                    self.opnd(l, &t)
                };
                args.push((r, t));
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        let c = Box::new(CallI { dst, callee, args: args.into_boxed_slice(), ret, normal: None });
        if invoke {
            // find "to label %x unwind label %y"
            loop {
                match l.next() {
                    Tok::Word(b"to") => break,
                    Tok::Eof => l.err("invoke"),
                    Tok::P(b'[') => {
                        // operand bundle
                        while !l.eat(b']') {
                            l.next();
                        }
                    }
                    _ => {}
                }
            }
            let t = self.label(l);
            l.word("unwind");
            let _u = self.label(l);
            return PI::Invoke(c, t);
        }
        PI::I(Inst::Call(c))
    }
}
